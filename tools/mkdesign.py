#!/usr/bin/env python3
"""Regenerates the tables of DESIGN.md (between the marker lines) from the laws, the seeded changes and tools/caught.json."""
import glob, json, os, re
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
laws = {}
for f in sorted(glob.glob(os.path.join(V, "laws/src/*.rs"))):
    for m in re.finditer(r"pub fn (p\d\d)_(\w+)", open(f).read()):
        laws.setdefault(m[1].upper(), []).append(m[2])
    if os.path.basename(f) == "sc.rs":
        pass
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
t1 = ["| id | title | laws |", "|---|---|---|"]
for p in props:
    l = laws.get(p["id"], [])
    t1.append(f"| {p['id']} | {p['title']} | {len(l) or '–'} |")
caught = {}
cp = os.path.join(V, "tools/caught.json")
if os.path.exists(cp):
    caught = json.load(open(cp))
t2 = ["| change | property | what it breaks | caught by |", "|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(V, "seeded/*/meta.json"))):
    i = f.split("/")[-2]
    m = json.load(open(f))
    t2.append(f"| {i} | {m['property']} | {m['what_it_breaks']} | {caught.get(i, '?')} |")
d = os.path.join(V, "DESIGN.md")
s = open(d).read()
for name, t in (("laws", t1), ("seeded", t2)):
    s = re.sub(rf"(<!-- {name} -->\n).*?(<!-- end {name} -->)", lambda m: m[1] + "\n".join(t) + "\n" + m[2], s, flags=re.S)
open(d, "w").write(s)
