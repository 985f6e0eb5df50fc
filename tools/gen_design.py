"""DESIGN.md = head + one section per property (records, laws) + tail + table of planted bugs (catch.json)."""
import glob, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vp import boot
boot.boot()
from vp import run, core
run.load()
T = os.path.join(V, "tools")
notes = json.load(open(os.path.join(T, "design_notes.json")))
out = [open(os.path.join(T, "design_head.md")).read(), "\n## The properties\n"]
man = {c["property"]: c for c in json.load(open(os.path.join(V, "MANIFEST.json")))["checks"]}
for l in open(os.path.join(V, "properties.jsonl")):
    d = json.loads(l)
    i = d["id"]
    out.append(f"### {i} {d['title']}\n")
    out.append(f"Over: {d['quantifier']['text']}. Anchors: {', '.join(d['anchors']['files'])}.")
    out.append(f"Oracle: {man[i]['technique'].split('generated inputs against ')[-1]}. Beyond the tests: {d['why_tests_cant']}")
    for w in core.LAWS[i]:
        out.append(f"* `{w.name}` ({w.quick} cases quick, {w.thorough} thorough): {w.rule}")
    if i in notes:
        out.append(notes[i])
    out.append("")
out.append(open(os.path.join(T, "design_tail.md")).read())
catch = json.load(open(os.path.join(T, "catch.json"))) if os.path.exists(os.path.join(T, "catch.json")) else {}
out.append("## Planted bugs\n\nEach is a patch under `seeded/<id>` with a demonstration; all compile and pass the 66 tests.\n")
out.append("| bug | property | what it breaks | needs | caught by |\n|---|---|---|---|---|")
for m in sorted(glob.glob(os.path.join(V, "seeded/*/meta.json"))):
    b = os.path.basename(os.path.dirname(m))
    d = json.load(open(m))
    out.append(f"| {b} | {d['property']} | {d['what_it_breaks']} | {d['needs']} | {catch.get(b, '?')} |")
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out) + "\n")
