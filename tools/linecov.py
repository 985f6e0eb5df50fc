"""Which lines of robpy the checks execute: python tools/linecov.py PROP OUT.json [scale]; python tools/linecov.py --report DIR"""
import json, os, sys, glob, ast
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
if sys.argv[1] == "--report":
    hit = {}
    for f in glob.glob(sys.argv[2] + "/*.json"):
        for k, v in json.load(open(f)).items():
            hit.setdefault(k, set()).update(v)
    for k in sorted(hit):
        lines = open(k).read().split("\n")
        c = compile(open(k).read(), k, "exec")
        allv, todo = set(), [c]
        while todo:
            x = todo.pop()
            if x.co_name != "<module>" or True:
                allv |= {l for _, _, l in x.co_lines() if l}
            todo += [y for y in x.co_consts if hasattr(y, "co_code")]
        miss = sorted(l for l in allv - hit[k] if lines[l - 1].strip() and not lines[l - 1].strip().startswith(("def ", "class ", "import", "from", '"""', "@")))
        if miss:
            print(os.path.relpath(k, "/repo"), len(miss), "of", len(allv))
            for l in miss:
                print(f"   {l}: {lines[l-1]}")
    sys.exit()
from vp import boot
m = sys.monitoring
T = 3
m.use_tool_id(T, "linecov")
hits = {}
R = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "robpy")
def line(code, n):
    if code.co_filename.startswith(R):
        hits.setdefault(code.co_filename, set()).add(n)
    return m.DISABLE
m.register_callback(T, m.events.LINE, line)
m.set_events(T, m.events.LINE)
boot.boot()
from vp import run, core
run.load()
i, out, sc = sys.argv[1], sys.argv[2], float((sys.argv[3:] or [0.1])[0])
for k, lw in enumerate(core.LAWS[i]):
    core.run_shard(i, k, 0, 1, max(5, int(lw.quick * sc)), 1)
json.dump({k: sorted(v) for k, v in hits.items()}, open(out, "w"))
