#!/usr/bin/env python3
"""Run the check of one property:  run.py <id> [--tier quick|thorough] [--replay FILE]
Builds its harness from /repo's working tree, explores the bounded space exhaustively on all cores,
replays every violation before reporting it, writes evidence/<id>.json."""
import argparse, json, os, shutil, signal, subprocess, sys, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
from specs import SPECS
VERIF = B.VERIF

def run_proc(cmd, timeout, cwd, env):
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        rc, to = p.returncode, False
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except OSError: pass
        out, _ = p.communicate()
        rc, to = -9, True
    return rc, to, out[-8000:].decode("utf8", "replace")

def read_crash(f):
    try:
        b = open(f, "rb").read()
        return b[:b.index(b"\0")].decode("utf8", "replace")
    except (OSError, ValueError):
        return ""

class Part:
    """One harness executable with its arguments, run in n shards."""
    def __init__(self, spec, exe, tier, seed, scratch):
        self.spec, self.exe, self.tier, self.seed, self.scratch = spec, exe, tier, seed, scratch
    def cmd(self, i, n, only=None, tag="s"):
        out = os.path.join(self.scratch, "%s%d.json" % (tag, i)); cr = os.path.join(self.scratch, "%s%d.crash" % (tag, i))
        sc = os.path.join(self.scratch, "%s%d.d" % (tag, i)); os.makedirs(sc, exist_ok=True)
        for f in (out, cr):
            if os.path.exists(f): os.unlink(f)
        base = list(self.spec.get("launch", [])) + [self.exe] + list(self.spec.get("args", []))
        c = base + ["--out", out, "--tier", self.tier, "--seed", str(self.seed), "--scratch", sc, "--crash", cr, "--shard", "%d/%d" % (i, n)]
        if only is not None: c += ["--only", only]
        return c, out, cr, sc
    def env(self):
        e = dict(B.ENV); e.update(self.spec.get("env", {})); return e
    def run_one(self, i, n, timeout, only=None, tag="s"):
        c, out, cr, sc = self.cmd(i, n, only, tag)
        rc, to, log = run_proc(c, timeout, sc, self.env())
        res = None
        if rc == 0 and os.path.exists(out):
            try: res = json.load(open(out))
            except ValueError: res = None
        return dict(rc=rc, timeout=to, log=log, res=res, at=read_crash(cr))

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick")); ap.add_argument("--replay")
    ap.add_argument("--shards", type=int, default=0)
    a = ap.parse_args()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = SPECS[a.prop]
    t0 = time.time()
    known = [k for k in json.load(open(os.path.join(VERIF, "known_findings.json")))["findings"] if k["property"] == a.prop]
    scratch = tempfile.mkdtemp(prefix="vk_%s_" % a.prop)
    violations, knowns, results, rebuilt = [], set(), [], []
    try:
        if a.replay:
            r = json.load(open(a.replay))
            parts = [spec["parts"][r["part"]]]
            pidx = [r["part"]]
        else:
            parts = spec["parts"]; pidx = list(range(len(parts)))
        for pi, ps in zip(pidx, parts):
            if tier == "quick" and ps.get("thorough_only"): continue
            try:
                exe = B.build(ps["harness"], ps.get("variant", "plain"), ps.get("src", ()), ps.get("flags", ()), ps.get("libs", ()),
                              ps.get("lib_flags", ()), tag=ps.get("tag", ""))
            except B.BuildError as e:
                print(e); print("the harness does not build against this tree: no answer"); sys.exit(2)
            part = Part(ps, exe, tier, seed, scratch)
            if a.replay:
                o = part.run_one(0, 1, 600, only=r["case"], tag="r")
                print(o["log"]); print(json.dumps(o["res"], indent=1))
                bad = o["res"] is None or o["res"]["violations"]
                sys.exit(1 if bad else 0)
            if violations and tier == "quick" and time.time() - t0 > 240: print("the remaining parts are left out: violations found"); break
            n = a.shards or ps.get("shards", os.cpu_count() or 4)
            tmo = ps.get("timeout", {"quick": 400, "thorough": 3000})[tier]
            from concurrent.futures import ThreadPoolExecutor
            def shard(i): return part.run_one(i, n, tmo, tag="p%ds" % pi)
            with ThreadPoolExecutor(n) as ex: outs = list(ex.map(shard, range(n)))
            for i, o in enumerate(outs):
                if o["res"] is not None:
                    results.append((pi, o["res"]))
                    for v in o["res"]["violations"]: violations.append((pi, part, v, i, n))
                elif o["at"]:
                    # died or hung inside a case: replay that case alone before believing it
                    lim = max(60, ps.get("case_timeout", 60))
                    r2 = part.run_one(0, 1, lim, only=o["at"], tag="c")
                    what = ("does not terminate" if o["timeout"] else "kills the process (exit %s)" % o["rc"]) + ": " + " | ".join(l for l in o["log"].splitlines() if "ERROR" in l or "runtime error" in l or "terminate" in l or "what()" in l)[:400]
                    if r2["res"] is not None:
                        if r2["res"]["violations"]:
                            for v in r2["res"]["violations"]: violations.append((pi, part, v, i, n))
                            continue
                        if o["timeout"]:
                            print("shard %d/%d of %s ran out of its %d s at case %s (which finishes alone): no answer" % (i, n, ps["harness"], tmo, o["at"])); print(o["log"][-1500:]); sys.exit(2)
                        # depends on earlier cases of the shard: run the shard again
                        o2 = part.run_one(i, n, tmo, tag="d")
                        if o2["res"] is not None:
                            print("shard died once and passed on repetition; accepting the repetition"); results.append((pi, o2["res"]))
                            for v in o2["res"]["violations"]: violations.append((pi, part, v, i, n))
                            continue
                        violations.append((pi, part, dict(key="crash:" + o["at"], what=what + " (after the earlier cases of the shard)", id=o["at"], confirmed=True), i, n))
                    else:
                        violations.append((pi, part, dict(key="crash:" + o["at"], what=what, id=o["at"], confirmed=True), i, n))
                else:
                    print("shard %d of %s gave no result (exit %s, timeout %s)\n%s" % (i, ps["harness"], o["rc"], o["timeout"], o["log"][-3000:])); sys.exit(2)
        # known findings / replay / report
        seen, real = set(), []
        for pi, part, v, i, n in violations:
            k = next((f for f in known if f.get("key") == v["key"] and f.get("status", "open") == "open"), None)
            if k: knowns.add(k["key"]); continue
            if v["key"] in seen: continue
            seen.add(v["key"]); real.append((pi, part, v, i, n))
        for k in known:
            if k.get("status", "open") == "open" and k["key"] in knowns:
                print("KNOWN-FINDING: property=%s %s" % (a.prop, k["what"]))
        reported = 0
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        for pi, part, v, i, n in real[:10]:
            if reported and tier == "quick" and time.time() - t0 > 400: break
            ok = v.get("confirmed", False)
            how = "alone"
            if not ok:
                r2 = part.run_one(0, 1, max(120, part.spec.get("case_timeout", 60)), only=v["id"], tag="v")
                ok = r2["res"] is None or any(x["key"] == v["key"] for x in r2["res"]["violations"])
                if not ok:
                    how = "shard"
                    r3 = part.run_one(i, n, tmo, tag="w")
                    ok = r3["res"] is None or any(x["key"] == v["key"] for x in r3["res"]["violations"])
            if not ok:
                print("not reproduced, not reported: %s %s" % (v["key"], v["what"])); continue
            rp = os.path.join(VERIF, "replays", "%s-%d.json" % (a.prop, reported))
            json.dump(dict(property=a.prop, part=pi, case=v["id"], key=v["key"], what=v["what"], replay="python3 run.py %s --replay %s" % (a.prop, rp), needs=how), open(rp, "w"), indent=1)
            print("VIOLATION property=%s replay=%s" % (a.prop, rp)); print("  " + v["key"] + ": " + v["what"][:1500])
            reported += 1
        tot = lambda k: sum(r[k] for _, r in results)
        extra = {}
        for _, r in results:
            for k, x in r.get("extra", {}).items():
                extra[k] = max(extra.get(k, 0), x) if k.startswith("max_") else extra.get(k, 0) + x
        samples = []
        for pi in sorted(set(p for p, _ in results)):
            samples += [s for p, r in results if p == pi for s in r["samples"]][:5]
        cov = {}
        lvl = spec["level"]
        if lvl == "model_checking":
            cov.update(states=tot("states"), transitions=tot("transitions"), traces_validated_against_impl=tot("traces"), executions=tot("cases"))
        else:
            cov.update(evaluations=tot("cases"), distinct_nontrivial=tot("distinct"), rule=spec["rule"], checks_evaluated=tot("transitions"))
        cov["samples"] = samples or ["none"]
        cov["exhaustive"] = all(r["exhaustive"] for _, r in results) and not violations
        cov["bounds"] = spec["bounds"][tier]
        cov.update({k: v for k, v in extra.items()})
        ev = dict(property=a.prop, tier=tier, seed=seed, level=lvl, coverage=cov, assumptions=spec.get("assumptions", []),
                  wall_s=round(time.time() - t0, 2), violations=reported)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", a.prop + ".json"), "w"), indent=1)
        print("%s %s: executions=%d states=%d transitions=%d distinct=%d violations=%d known=%d wall=%.1fs" % (a.prop, tier, tot("cases"), tot("states"), tot("transitions"), tot("distinct"), reported, len(knowns), time.time() - t0))
        sys.exit(1 if reported else 0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

if __name__ == "__main__":
    main()
