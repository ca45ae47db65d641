// Controlled execution of real MPI ranks (processes started by mpirun).
// Every blocking communication of the code under test is announced to a coordinator in shared memory before it is
// executed.  When all ranks have announced something, the coordinator computes which announcements match (a collective
// that all members of its communicator have reached, a send with its receive), reports mismatches and deadlocks, and
// lets exactly one match proceed, chosen by the schedule.  Sends are synchronous and collectives synchronize, which is
// the strictest behaviour the standard allows.  The recorded operations of all ranks form a model whose complete state
// space is then explored under every weaker behaviour as well.
#pragma once
#include "vk.hpp"
#include <functional>
#include <mpi.h>
namespace mpx {
struct Op { int kind = 0, comm = 0, a = 0, b = 0, bytes = 0, tag = 0; bool operator==(const Op& o) const { return kind == o.kind && comm == o.comm && a == o.a && b == o.b && bytes == o.bytes && tag == o.tag; } };
void open();                                   // once, after MPI_Init
int rank(); int size();
void fail(const std::string& key, const std::string& what);   // from any rank, inside run()
// Runs f on all ranks under the schedule given by the order of the ranks in prio ("" = 0,1,2,...).
// Returns this rank's operations.  explore: also explore the state space of the recorded operations.
const std::vector<Op>& run(const std::function<void()>& f, const std::string& prio = "", bool explore = true);
std::string str(const std::vector<Op>& t);
bool failed();                                 // did any rank report anything in the last run (same on all ranks)
long matches();
void forget(MPI_Comm c);                       // a communicator that is being freed
long comms_made();                             // communicators created by the code under test so far
void know(MPI_Comm c);                         // a communicator the harness made itself
int finish();                                  // writes the result on rank 0 and ends the process
}
