#!/usr/bin/env python3
"""Builds every check from /repo's working tree, so that the checks themselves only rebuild what changed."""
import os
import sys
import time
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check

t0 = time.time()
ids = sorted(f[:-4] for f in os.listdir(os.path.join(check.HARNESS, "checks")) if f.endswith(".cpp"))
if len(sys.argv) > 1:
    ids = [i for i in ids if i in sys.argv[1:]]
# Compile everything, one flag set at a time, then link.
groups = {}
for pid in ids:
    path, spec = check.read_spec(pid)
    groups.setdefault((spec["opt"],) + tuple(spec["flags"]), []).append((pid, path, spec))
bad = 0
allsrc = [os.path.join(check.REPO, s) for s in check.engine_sources()]
for flags, members in groups.items():
    b = check.Builder(list(flags))
    want = allsrc if any(sp["sources"] == ["ALL"] for _, _, sp in members) or len(members) > 3 else []
    _, errors = b.build([p for _, p, _ in members] + want)
    for src, e in errors.items():
        print(src, check.errlines(e)[:3])
with ThreadPoolExecutor(4) as ex:
    for pid, exe in zip(ids, ex.map(check.build, ids)):
        if exe is None:
            print(pid, "does not build")
            bad += 1
print(f"built {len(ids) - bad} of {len(ids)} checks in {time.time() - t0:.0f} s")
sys.exit(0)
