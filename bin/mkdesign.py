#!/usr/bin/env python3
"""Rewrites the generated parts of DESIGN.md (between <!-- begin X --> and <!-- end X -->): findings and planted bugs."""
import json, os, re
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
def part(t, name, body):
    return re.sub(rf"(<!-- begin {name} -->\n).*?(<!-- end {name} -->)", lambda m: m[1] + body + m[2], t, flags=re.S)
k = json.load(open(f"{R}/KNOWN_FINDINGS.json"))
f = "".join(f"* **{x['property']}** `{x['key']}`: {x['what']}\n" for x in k["findings"])
fx = ""
for x in k["fixed"]:
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", x)
    fx += f"* **{m[1]}** {m[2][:7]}: {m[3]}\n"
s = "| planted bug | property | needs | breaks |\n|----|----|----|----|\n"
d = f"{R}/seeded"
for i in sorted(os.listdir(d), key=lambda i: (json.load(open(f"{d}/{i}/meta.json"))["property"], i)):
    m = json.load(open(f"{d}/{i}/meta.json"))
    s += f"| {i} | {m['property']}{'' if m.get('caught', True) else ' (missed)'} | {m['needs']} | {m['what_it_breaks']} |\n"
p = f"{R}/DESIGN.md"
t = open(p).read()
t = part(part(part(t, "findings", f), "fixed", fx), "seeded", s)
open(p, "w").write(t)
