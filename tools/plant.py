"""Build and judge planted bugs: python3 tools/plant.py SPEC.py [id ...]

SPEC.py holds BUGS = [dict(id, prop, file, old, new, demo, needs, breaks)]; old/new may be lists.
Each bug is made in a scratch copy of /repo, tested, demonstrated, and judged by its property's check.
Kept under seeded/<id> when tests pass and the demonstration separates the trees.
"""
import json, os, re, shutil, subprocess, sys, textwrap, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "11f085f"
ENV = dict(os.environ, PATH="/usr/local/bin:/usr/bin:/bin", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", MPLCONFIGDIR="/opt/vp/mplconfig", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1")
DEMO_SH = '#!/bin/bash\n# exit 0: behaves as it should; run in the repository root\nhere=$(cd "$(dirname "$0")" && pwd)\nexport PYTHONPATH="$PWD" MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1\nexec /opt/venv/bin/python -W ignore "$here/demo.py"\n'


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, text=True, capture_output=True, **k)


def original(work, diff):
    """True when every line the patch removes (or the line before an insertion) is from the original."""
    f, old, prev_minus, ok = None, 0, False, True
    base_removed = False
    for l in diff.splitlines():
        if l.startswith("--- "):
            f = l[6:]
            blame = sh(f"git blame -s -l HEAD -- {f}", cwd=work).stdout.splitlines()
        elif l.startswith("@@"):
            old = int(re.match(r"@@ -(\d+)", l).group(1))
        elif l.startswith("-"):
            c = blame[old - 1].split()[0]
            anc = sh(f"git merge-base --is-ancestor {c.lstrip('^')} {BASE}", cwd=work).returncode == 0
            base_removed |= anc
            ok &= anc
            old += 1
        elif l.startswith("+"):
            pass
        elif l.startswith(" "):
            old += 1
    return ok, base_removed


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    pick = set(sys.argv[2:])
    for b in ns["BUGS"]:
        if pick and b["id"] not in pick:
            continue
        work = f"/tmp/plant/{b['id']}"
        if os.path.isdir(work):
            shutil.rmtree(work)
        os.makedirs("/tmp/plant", exist_ok=True)
        sh(f"cp -a /repo {work}")
        edits = b["edits"] if "edits" in b else [(b["file"], b["old"], b["new"])]
        bad = None
        for f, o, n in edits:
            p = os.path.join(work, "robpy", f)
            s = open(p).read()
            if s.count(o) != 1:
                bad = f"{f}: old text occurs {s.count(o)} times"
                break
            open(p, "w").write(s.replace(o, n))
        if bad:
            print(f"{b['id']}: BAD {bad}")
            shutil.rmtree(work)
            continue
        diff = sh("git diff", cwd=work).stdout
        ok, rem = original(work, diff)
        d = os.path.join(VERIF, "seeded", b["id"])
        os.makedirs(d, exist_ok=True)
        open(f"{d}/patch.diff", "w").write(diff)
        open(f"{d}/demo.sh", "w").write(DEMO_SH)
        os.chmod(f"{d}/demo.sh", 0o755)
        open(f"{d}/demo.py", "w").write(textwrap.dedent(b["demo"]).lstrip())
        json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]), open(f"{d}/meta.json", "w"), indent=1)
        t = sh("/opt/venv/bin/python -m pytest tests -q -p no:cacheprovider -x", cwd=work, env=dict(ENV, PYTHONPATH=work))
        tests = "66 passed" in t.stdout and "failed" not in t.stdout
        c = sh(f"bash {d}/demo.sh", cwd="/repo", env=ENV)
        m = sh(f"timeout 280 bash {d}/demo.sh", cwd=work, env=ENV)
        good = tests and c.returncode == 0 and m.returncode != 0 and (ok or rem)
        t0 = time.time()
        props = b.get("checks", [b["prop"]])
        res = []
        for q in props:
            k = sh(f"timeout 900 bash {VERIF}/run.sh {q}", env=dict(ENV, VERIF_REPO=work, VERIF_SEED="1"))
            res.append((q, k.returncode, [x for x in k.stdout.splitlines() if x.startswith(q + "/")]))
        caught = any(r[1] == 1 and f"{r[0]}/" in "".join(r[2]) for r in res)
        print(f"{b['id']} [{b['prop']}]: {'kept' if good else 'REJECTED'} (tests {tests}, clean {c.returncode}, patched {m.returncode}, original {ok}/{rem}) -> {'CAUGHT' if caught else 'MISSED'} {time.time()-t0:.0f}s", " | ".join(x[:200] for r in res for x in r[2])[:400], flush=True)
        if not good:
            print("   ", t.stdout[-300:] if not tests else "", c.stderr[-300:], m.stdout[-200:], m.stderr[-200:])
            shutil.rmtree(d)
        shutil.rmtree(work)


main()
