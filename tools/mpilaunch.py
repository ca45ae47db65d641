"""mpilaunch.py N exe args...   Runs a harness under mpirun; succeeds if the run ended well or a complete result file exists."""
import json, os, sys, subprocess, signal
n = sys.argv[1]; cmd = sys.argv[2:]
out = cmd[cmd.index("--out") + 1]; scratch = cmd[cmd.index("--scratch") + 1]
env = dict(os.environ); t = os.path.join(scratch, "t"); os.makedirs(t, exist_ok=True); env["TMPDIR"] = t
for k in list(env):
    if k.startswith(("OMPI_COMM_WORLD", "PMIX_", "OMPI_UNIVERSE")) or k == "OMPI_MCA_ess_singleton_isolated": del env[k]
env["OMPI_MCA_mpi_yield_when_idle"] = "1"
p = subprocess.Popen(["mpirun", "--oversubscribe", "--bind-to", "none", "-n", n] + cmd, env=env, stdin=subprocess.DEVNULL)
rc = p.wait()
try: json.load(open(out)); done = True
except (OSError, ValueError): done = False
sys.exit(0 if done else (rc or 1))
