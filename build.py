"""Incremental, content-hashed build of the harnesses against /repo's working tree."""
import hashlib, json, os, subprocess, sys, glob
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
HARN = os.path.join(VERIF, "harness")

ENV = dict(os.environ)
ENV.update(CC="gcc", CXX="g++", OMPI_CC="gcc", OMPI_CXX="g++", OMPI_ALLOW_RUN_AS_ROOT="1",
           OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", OMPI_MCA_btl="self,vader", OMPI_MCA_plm_rsh_agent="/bin/false",
           OMPI_MCA_btl_vader_single_copy_mechanism="none", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
           OMPI_MCA_ess_singleton_isolated="1",
           ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:handle_abort=0:detect_stack_use_after_return=0",
           UBSAN_OPTIONS="halt_on_error=1:abort_on_error=1:print_stacktrace=0")

VARIANTS = {
    "plain": ["-O1", "-g0", "-DNDEBUG"],
    "asan": ["-O1", "-g1", "-DNDEBUG", "-fsanitize=address", "-fno-omit-frame-pointer"],
    "tsan": ["-O1", "-g1", "-DNDEBUG", "-fsanitize=thread"],
}
COMMON = ["-std=gnu++20", "-w", "-DUSE_PETSC", "-DVK_GENERIC", "-include", os.path.join(HARN, "shim.h"),
          "-I" + HARN, "-I" + REPO + "/src",
          "-I" + REPO + "/src/Patches/FiniteVolume", "-I/usr/lib/petsc/include", "-fPIC"]
LIBS = ["-llapack", "-lblas", "-lsc", "-lp4est", "-lz", "-L/usr/lib/petsc/lib", "-lpetsc", "-ldl", "-lpthread"]

class BuildError(Exception):
    pass

def _sha(path):
    h = hashlib.sha256()
    try:
        with open(path, "rb") as f: h.update(f.read())
    except OSError:
        return "missing"
    return h.hexdigest()

def _deps(dfile):
    try:
        s = open(dfile).read().replace("\\\n", " ")
    except OSError:
        return None
    s = s.split(":", 1)[1]
    return [d for d in s.split() if d.startswith((REPO + "/", VERIF + "/"))]

def _compile(src, obj, flags):
    cmd = ["/usr/bin/mpicxx"] + flags + ["-MMD", "-MF", obj + ".d", "-c", src, "-o", obj]
    stamp = obj + ".stamp"
    def key():
        deps = _deps(obj + ".d")
        if deps is None: return None
        return hashlib.sha256(json.dumps([cmd, [(d, _sha(d)) for d in sorted(set(deps))]]).encode()).hexdigest()
    if os.path.exists(obj) and os.path.exists(stamp) and open(stamp).read() == key():
        return False
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    p = subprocess.run(cmd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode and src.startswith(HARN):   # without the instantiations the library itself does not need
        p2 = subprocess.run([c for c in cmd if c != "-DVK_GENERIC"], env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p2.returncode == 0: p = p2
    if p.returncode:
        raise BuildError("compiling %s failed:\n%s" % (src, "\n".join([l for l in p.stdout.splitlines() if "error" in l][:12]) or p.stdout[-3000:]))
    open(stamp, "w").write(key())
    return True

def build(harness, variant="plain", extra_src=(), extra_flags=(), extra_libs=(), lib_flags=(), need_lib=True, tag=""):
    """Build harness/<harness>.cpp with the library sources; returns the executable's path."""
    bdir = os.path.join(BUILD, variant + tag)
    os.makedirs(bdir, exist_ok=True)
    vf = VARIANTS[variant]
    jobs = []
    libsrc = sorted(glob.glob(REPO + "/src/*.cpp") + glob.glob(REPO + "/src/Patches/FiniteVolume/*.cpp")) if need_lib else []
    for s in libsrc:
        jobs.append((s, os.path.join(bdir, "lib", os.path.relpath(s, REPO).replace("/", "_") + ".o"), vf + COMMON + list(lib_flags)))
    # extra sources may come with flags of their own: "file.cpp:-flag:-flag"
    hs = [harness + ".cpp", "shim.cpp"] + list(extra_src)
    for s in hs:
        s, *own = s.split(":")
        jobs.append((os.path.join(HARN, s), os.path.join(bdir, harness, s + ".o"), vf + COMMON + list(extra_flags) + own))
    jobs.sort(key=lambda j: 0 if "/harness/" in j[0] else 1)
    changed = False
    with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        for f in [ex.submit(_compile, *j) for j in jobs]:
            changed |= f.result()
    exe = os.path.join(bdir, harness, harness)
    objs = [j[1] for j in jobs]
    lkey = hashlib.sha256(json.dumps([objs, [open(o + ".stamp").read() for o in objs], list(extra_libs), vf]).encode()).hexdigest()
    ls = exe + ".lstamp"
    if not (os.path.exists(exe) and os.path.exists(ls) and open(ls).read() == lkey):
        p = subprocess.run(["/usr/bin/mpicxx"] + vf + objs + ["-o", exe] + list(extra_libs) + LIBS, env=ENV,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise BuildError("linking %s failed:\n%s" % (harness, p.stdout[-6000:]))
        open(ls, "w").write(lkey)
    return exe

if __name__ == "__main__":
    print(build(sys.argv[1], *(sys.argv[2:3])))
