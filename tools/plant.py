#!/usr/bin/env python3
"""Verifies planted changes: plant.py ID... : apply to /repo, build, test, demo must fail, checks named must report; undo.
   plant.py new ID PROPERTY FILE <<< python dict: not used by any check."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)
def build():
    return sh("bash /opt/vp/build.sh").returncode == 0
def stable():
    sh("bash /opt/vp/test.sh /tmp/plant-out.json")
    try:
        return len(json.load(open("/tmp/plant-out.json"))["passed"])
    except Exception:
        return -1
def one(i):
    d = f"{V}/seeded/{i}"
    meta = json.load(open(d + "/meta.json"))
    assert sh("git -C /repo status --porcelain").stdout == "", "repo not clean"
    built0 = build()
    r0 = sh(f"bash {d}/demo.sh", cwd="/repo")
    if sh(f"git -C /repo apply {d}/patch.diff").returncode:
        return print(i, "patch does not apply")
    try:
        b, t = build(), stable()
        r1 = sh(f"bash {d}/demo.sh", cwd="/repo")
        c = sh(f"python3 harness/check.py {meta['property']}", cwd=V)
        last = [l for l in c.stdout.splitlines() if l.startswith(("VIOLATION", "FAILED"))]
        rp = V + "/tools/plant_results.json"
        res = json.load(open(rp)) if os.path.exists(rp) else {}
        sub = last[0].split(":")[0].replace("FAILED sub-property ", "") if last else ""
        res[i] = f"caught by {meta['property']} ({sub})" if c.returncode == 1 else "missed"
        json.dump(res, open(rp, "w"), indent=1, sort_keys=True)
        print(f"{i} [{meta['property']}]: build {b}, tests {t}, demo clean {r0.returncode}, demo patched {r1.returncode}, check {c.returncode}: {(last or c.stdout.splitlines()[-1:] or [c.stderr[-300:]])[0][:300]}", flush=True)
        if r0.returncode or not r1.returncode:
            print("  demo clean:", (r0.stdout + r0.stderr)[-600:], "\n  demo patched:", (r1.stdout + r1.stderr)[-600:])
        if c.returncode not in (0, 1):
            print(c.stdout[-600:])
    finally:
        sh("git -C /repo checkout -- .")
        build()
for i in sys.argv[1:]:
    one(i)
