#!/usr/bin/env python3
"""Developer helper: makes seeded/ID from a description (edits as old/new text pairs, demo source)."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def mk(id, prop, edits, demo, needs, breaks, np=1, flags="", from_source=False, extra=()):
    d = f"{V}/seeded/{id}"; os.makedirs(d, exist_ok=True)
    assert not subprocess.run("git -C /repo status --porcelain", shell=True, capture_output=True, text=True).stdout.strip()
    try:
        for f, old, new in edits:
            p = "/repo/" + f; s = open(p).read(); assert s.count(old) == 1, (id, f, s.count(old), old); open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True, text=True).stdout
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
    open(d + "/patch.diff", "w").write(diff)
    for f in ("demo.sh", "demo.hpp", "shim.h", "shim.cpp"): shutil.copy(f"{V}/tools/demo/{f}", d)
    open(d + "/demo.cpp", "w").write(demo)
    conf = (f"NP={np}\n" if np != 1 else "") + (f'FLAGS="{flags}"\n' if flags else "") + ("FROM_SOURCE=1\n" if from_source else "")
    if conf: open(d + "/demo.conf", "w").write(conf)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    # lines the patch removes must be original ones
    base = "09d4936"
    for f, old, new in edits:
        o = subprocess.run(["git", "-C", "/repo", "show", f"{base}:{f}"], capture_output=True, text=True).stdout
        if not all(l.strip() in o for l in old.splitlines() if l.strip()): print("note: not all lines original:", id, f)
