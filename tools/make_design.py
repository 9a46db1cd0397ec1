#!/usr/bin/env python3
"""Development tool: assemble DESIGN.md from tools/design_head.md, the property modules, known_findings.txt and seeded/. Run by hand."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from pbt import env
try: env.setup()
except Exception: pass
out = [open(os.path.join(V, "tools", "design_head.md")).read().rstrip(), ""]
props = {json.loads(l)["id"]: json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))}
notes = {}
cur = None
for l in open(os.path.join(V, "tools", "design_notes.md")):
    if l.startswith("## "):
        cur = l[3:].strip(); notes[cur] = ""
    elif cur:
        notes[cur] += l
seeded = {}
for i in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", i, "meta.json")))
    seeded.setdefault(m["property"], []).append((i, m["what_it_breaks"]))
out.append("## Per property\n")
for pid, p in props.items():
    m = importlib.import_module("pbt.props." + pid.lower())
    out.append(f"### {pid} {p['title']}\n")
    out.append(notes.get(pid, "").strip() + "\n")
    out.append("Searches (sub-check, cases at quick; thorough runs twelve times as many):\n")
    for s in m.SUBS:
        out.append(f"- `{s.name}` ({s.quick}): {s.desc}")
    out.append("\nWhat a non-trivial case is: " + m.RULE + "\n")
    out.append("Bounds and assumptions: " + "; ".join(m.ASSUMPTIONS) + ".\n")
    out.append("Beyond the tests: " + p["why_tests_cant"] + "\n")
    if pid in seeded:
        out.append("Planted changes (all caught by this check unless marked): " + ", ".join(f"`{i}` ({b})" for i, b in seeded[pid]) + ".\n")
out.append(open(os.path.join(V, "tools", "design_tail.md")).read().rstrip())
out.append("\n## Findings file\n\nVerbatim from known_findings.txt:\n")
for l in open(os.path.join(V, "known_findings.txt")):
    if not l.startswith("#"):
        out.append("- " + l.strip())
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out) + "\n")
