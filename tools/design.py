"""Writes DESIGN.md from design_head.md, design_props.py, the findings, the planted bugs and design_tail.md."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(ROOT)
ns = {}
exec(open("tools/design_props.py").read(), ns)
D = ns["D"]
props = [json.loads(x) for x in open("properties.jsonl")]
man = {c["property"]: c for c in json.load(open("MANIFEST.json"))["checks"]}
known, fixed = {}, {}
for line in open("KNOWN_FINDINGS.txt"):
    if line.startswith(("known: ", "fixed: ")):
        kind, p, rest = line.split(None, 2)
        (known if kind == "known:" else fixed).setdefault(p.split("=")[1], []).append(rest.strip())
seeded = {}
for d in sorted(os.listdir("seeded")):
    m = json.load(open(f"seeded/{d}/meta.json"))
    seeded.setdefault(m["property"], []).append((d, m))
out = [open("tools/design_head.md").read(), "## Properties\n"]
for p in props:
    i = p["id"]
    d = D[i]
    out.append(f"### {i}: {p['title']}\n")
    out.append(f"*Decided by*: {man[i]['technique']}.\n")
    out.append(d["how"] + "\n")
    out.append("*Beyond tests*: " + p["why_tests_cant"] + "\n")
    if d.get("bounds"):
        out.append("*Bounds*: " + d["bounds"] + "\n")
    if d.get("not_claimed"):
        out.append("*Not claimed*: " + d["not_claimed"] + "\n")
    if fixed.get(i):
        out.append("*Defects repaired*: " + "; ".join(f"{x.split(None, 1)[1]} ({x.split()[0]})" for x in fixed[i]) + ".\n")
    if known.get(i):
        out.append("*Known findings*: " + "; ".join(x.split()[0].split("=")[1] for x in known[i]) + ".\n")
out.append("## Planted bugs and what catches them\n")
out.append("All were confirmed to pass the stable tests and to be shown by their demo.\n")
out.append("| bug | property | needs | caught by (keys) |\n|---|---|---|---|")
caught = json.load(open("tools/caught.json")) if os.path.exists("tools/caught.json") else {}
for p in props:
    for d, m in seeded.get(p["id"], []):
        out.append(f"| {d} | {m['property']} | {m['needs']} | {caught.get(d, '?')} |")
out.append("")
if os.path.exists("tools/design_tail.md"):
    out.append(open("tools/design_tail.md").read())
open("DESIGN.md", "w").write("\n".join(out))
