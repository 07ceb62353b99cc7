#!/usr/bin/env python3
"""Fills the two generated tables of DESIGN.md: properties (from contracts/checks.json and the overlays) and planted bugs
(from seeded/*/meta.json and tools/seed_results.json, which records what each run reported)."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = json.load(open(V + "/contracts/checks.json"))
props = {p["id"]: p for p in map(json.loads, open(V + "/properties.jsonl"))}
own = {}
for f in sorted(glob.glob(V + "/contracts/*.vc")):
    fn = None
    for l in open(f):
        if l.startswith("@fn "): fn = l[4:].strip()
        elif l.startswith("@@props") and fn:
            for p in l.split()[1:]: own.setdefault(p, []).append(fn)
def short(k): return "`" + k.split("::", 1)[-1] + "`"
t = ["| id | level | statement | owned functions | deps | how it is decided |", "|---|---|---|---|---|---|"]
for i in sorted(props):
    c = checks.get(i, {})
    fs = own.get(i, [])
    names = ", ".join(short(k) for k in fs[:6]) + (f" and {len(fs) - 6} more" if len(fs) > 6 else "")
    t.append(f"| {i} | {c.get('level', 'proof')} | {props[i]['title']} | {names} | {' '.join(c.get('deps', []))} | {c.get('explanation', '')} |".replace("||", "\\|\\|"))
r = json.load(open(V + "/tools/seed_results.json"))
s = ["| bug | what it breaks | needs | verifier | reported functions |", "|---|---|---|---|---|"]
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{d}/meta.json"))
    x = r.get(d, {})
    s.append(f"| {d} | {m['what_it_breaks']} | {m['needs']} | {x.get('v', '?')} | {', '.join(x.get('fns', []))} |")
def fill(txt, tag, lines): return re.sub(rf"(<!-- {tag}:begin[^\n]*-->\n).*?(<!-- {tag}:end -->)", lambda k: k.group(1) + "\n".join(lines) + "\n" + k.group(2), txt, flags=re.S)
p = V + "/DESIGN.md"
o = open(p).read()
o = fill(fill(o, "table", t), "seeds", s)
open(p, "w").write(o)
print(len(t) - 2, "properties,", len(s) - 2, "bugs")
