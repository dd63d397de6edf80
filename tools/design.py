"""Fills the generated sections of DESIGN.md from catalog, known_findings and seeded/."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/harness")
from catalog import PROPS, NOT_APPLICABLE
t = open(V + "/tools/DESIGN.in.md").read()
rows = []
for p in PROPS:
    subs = []
    f = f"{V}/harness/checks/{p['id']}.cpp"
    if os.path.exists(f):
        for m in re.finditer(r'\{ "(\w+)", (\d+), (\d+), "([^"]*)"', open(f).read()):
            subs.append(f"  - `{m.group(1)}` ({int(m.group(2)):,} / {int(m.group(3)):,} cases): {m.group(4)}")
    rows.append(f"### {p['id']} {p['title']}\n\n{p['statement']}\n\n*Decided by:* {p['note']}\n\n*Why tests cannot:* {p['why']}\n\n*Sub-properties (quick / thorough cases; generator; what is non-trivial):*\n\n" + "\n".join(subs) + "\n")
if NOT_APPLICABLE:
    rows.append("### Not applicable\n\n" + "\n".join(f"* {n['property']}: {n['reason']}" for n in NOT_APPLICABLE))
finds = "\n".join("* " + l.strip() for l in open(V + "/known_findings.txt") if l.startswith(("fixed:", "finding:")))
seeds = []
res = {}
try:
    res = json.load(open(V + "/tools/plant_results.json"))
except OSError:
    pass
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{i}/meta.json"))
    seeds.append(f"* `{i}` ({m['property']}): {m['what_it_breaks']}. Needs: {m['needs']} — {res.get(i, 'not run yet')}")
t = t.replace("@TABLE@", "\n".join(rows)).replace("@FINDINGS@", finds).replace("@SEEDED@", "\n".join(seeds))
open(V + "/DESIGN.md", "w").write(t)
