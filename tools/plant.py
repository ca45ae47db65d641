#!/usr/bin/env python3
"""Developer helper: plant.py ID...   applies seeded/ID/patch.diff in /repo, builds, runs the stable tests, the demo and
the check of its property (the demo also on the unchanged tree), and undoes the patch."""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def clean():
    assert not sh("git -C /repo status --porcelain").stdout.strip(), "dirty /repo"
def build():
    p = sh("bash /opt/vp/build.sh"); return p.returncode == 0, p.stdout[-1500:]
args = [a for a in sys.argv[1:] if not a.startswith("--")]
nocheck = "--nocheck" in sys.argv
res = {}
clean()
for i in args:
    d = f"{V}/seeded/{i}"; meta = json.load(open(d + "/meta.json")); r = res[i] = {}
    ok, _ = build(); assert ok
    p = sh(f"bash {d}/demo.sh", cwd="/repo"); r["demo_clean"] = p.returncode
    if p.returncode: print(p.stdout[-1500:])
    a = sh(f"git -C /repo apply {d}/patch.diff"); assert a.returncode == 0, a.stdout
    try:
        ok, out = build(); r["builds"] = ok
        if not ok: print(out); continue
        t = sh("bash /opt/vp/test.sh /tmp/plant_tests.json")
        base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        o = json.load(open("/tmp/plant_tests.json")); passed = set(o.get("passed", []))
        r["tests"] = sorted(base - passed) or "pass"
        p = sh(f"bash {d}/demo.sh", cwd="/repo"); r["demo_patched"] = p.returncode; r["demo_out"] = p.stdout.strip().splitlines()[:3]
        if not nocheck:
            for prop in [meta["property"]] + [a[7:] for a in sys.argv if a.startswith("--also=")]:
                t0 = time.time()
                p = sh(f"VERIF_BUILD=/tmp/vb VERIF_SEED=1 VERIF_TIER=quick python3 {V}/run.py {prop}", cwd=V)
                v = [l for l in p.stdout.splitlines() if l.startswith("VIOLATION")]
                r["check " + prop] = (p.returncode, round(time.time() - t0), v[:1] or p.stdout[-300:])
    finally:
        sh("git -C /repo checkout -- ."); clean()
    good = r.get("demo_clean") == 0 and r.get("tests") == "pass" and r.get("demo_patched") not in (0, 2)
    caught = any(k.startswith("check") and v[0] == 1 for k, v in r.items())
    print(i, "COUNTS" if good else "NOT-OK", "" if nocheck else ("CAUGHT" if caught else "MISSED"), json.dumps(r), flush=True)
sh("bash /opt/vp/build.sh")
