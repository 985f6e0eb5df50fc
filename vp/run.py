"""Command line: run one property's check, replay a saved case, or list the laws."""
from __future__ import annotations

import argparse
import importlib
import json
import os
import pkgutil
import sys
import time
import traceback
from collections import Counter
from concurrent.futures import ProcessPoolExecutor, as_completed
import multiprocessing as mp

from vp import boot

OUT = sys.stdout


def load(prop=None):
    import vp.props as pkg

    for m in sorted(x.name for x in pkgutil.iter_modules(pkg.__path__)):
        try:
            importlib.import_module(f"vp.props.{m}")
        except Exception:  # matters only to the properties of that module
            BROKEN[m] = traceback.format_exc()


BROKEN = {}


def known_findings(prop):
    from vp.boot import VERIF

    out = []
    with open(os.path.join(VERIF, "known_findings.jsonl")) as f:
        for line in f:
            line = line.strip()
            if line and not line.startswith(("#", "fixed:")):
                d = json.loads(line)
                if d["status"] == "open" and d["property"] == prop:
                    out.append(d)
    return out


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--law")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")

    boot.boot()
    load()
    from vp import core
    from vp.boot import VERIF

    prop = a.property
    laws = core.LAWS.get(prop)
    if not laws and BROKEN:
        print("\n".join(BROKEN.values()), file=sys.stderr)
        return 2
    if not laws:
        print(f"unknown property {prop}; known: {' '.join(sorted(core.LAWS))}", file=sys.stderr)
        return 2

    if a.replay:
        with open(a.replay) as f:
            rec = json.load(f)
        lw = next(x for x in laws if x.name == rec["law"])
        try:
            res = core.run_case(lw, rec["case"], core.Cx())
        except (core.Violation, core.Hang) as v:
            print(f"{prop}/{lw.name}: {v}")
            print(f"VIOLATION property={prop} replay={a.replay}")
            return 1
        print(f"{prop}/{lw.name}: {res}")
        return 0

    t0 = time.time()
    tasks = []
    for i, lw in enumerate(laws):
        if a.law and a.law != lw.name:
            continue
        total = max(1, int((lw.quick if a.tier == "quick" else lw.thorough) * a.scale))
        shards = max(1, min(lw.shards, total))
        if a.tier == "thorough":
            shards = max(shards, min(8, total))
        for s in range(shards):
            n = total // shards + (1 if s < total % shards else 0)
            tasks.append((prop, i, s, shards, n, seed))
    # long laws first
    results = []
    jobs = max(1, min(a.jobs, len(tasks)))
    if jobs == 1:
        results = [core.run_shard(*t) for t in tasks]
    else:
        with ProcessPoolExecutor(jobs, mp_context=mp.get_context("fork")) as ex:
            futs = [ex.submit(core.run_shard, *t) for t in tasks]
            for f in as_completed(futs):
                results.append(f.result())
    results.sort(key=lambda r: r["law"])

    per, evals, hashes, samples, errors, failures = {}, 0, set(), [], [], {}
    for r in results:
        d = per.setdefault(
            r["law"], dict(evaluations=0, distinct_nontrivial=set(), labels=Counter(), skips=Counter(), s=0.0)
        )
        d["evaluations"] += r["evaluations"]
        d["distinct_nontrivial"] |= r["hashes"]
        d["labels"].update(r["labels"])
        d["skips"].update(r["skips"])
        d["s"] += r["seconds"]
        evals += r["evaluations"]
        if r["error"]:
            errors.append((r["law"], r["error"]))
        if r["failure"] and (
            r["law"] not in failures
            or len(json.dumps(r["failure"]["case"], default=core._jsonable))
            < len(json.dumps(failures[r["law"]]["case"], default=core._jsonable))
        ):
            failures[r["law"]] = r["failure"]
    seen = set()
    for r in results:
        if r["samples"] and r["law"] not in seen:
            seen.add(r["law"])
            samples.append(dict(law=r["law"], case=r["samples"][0]))
    distinct = sum(len(d["distinct_nontrivial"]) for d in per.values())
    rules = {lw.name: lw.rule for lw in laws if lw.name in per}
    wall = time.time() - t0

    # known findings: replayed by their own committed case, reported, never a failure
    open_findings = known_findings(prop)
    for kf in open_findings:
        lw = next(x for x in laws if x.name == kf["law"])
        try:
            core.run_case(lw, kf["case"], core.Cx())
        except (core.Violation, core.Hang):
            print(f"KNOWN-FINDING: property={prop} {kf['what']}")

    ev = dict(
        property=prop, tier=a.tier, seed=seed, level="exploration",
        coverage=dict(
            evaluations=evals,
            distinct_nontrivial=distinct,
            rule="Hypothesis-generated cases, one law at a time; a case counts as non-trivial unless the "
            "law marks it trivial, and as distinct by the hash of its JSON. Per law: "
            + "; ".join(f"{k}: {v}" for k, v in rules.items()),
            samples=samples,
            per_law={
                k: dict(
                    evaluations=d["evaluations"], distinct_nontrivial=len(d["distinct_nontrivial"]),
                    classes=dict(d["labels"].most_common(40)), skipped=dict(d["skips"]),
                    cpu_s=round(d["s"], 2),
                )
                for k, d in per.items()
            },
        ),
        wall_s=round(wall, 3),
        violations=len(failures),
    )
    EVIDENCE = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence")
    core.write_json(os.path.join(EVIDENCE, f"{prop}.json"), ev)
    for k, d in per.items():
        if a.v:
            print(
                f"  {k}: {d['evaluations']} cases, {len(d['distinct_nontrivial'])} distinct non-trivial, "
                f"{d['s']:.1f}s cpu, skips {dict(d['skips'])}, {dict(d['labels'].most_common(12))}"
            )
    if failures:
        for name, f in failures.items():
            path = os.path.join(EVIDENCE, "replays", f"{prop}-{name}.json")
            core.write_json(path, dict(property=prop, law=name, message=f["message"], case=f["case"]))
            print(f"{prop}/{name}: {f['message']}")
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    if errors:
        for name, e in {n: (n, e) for n, e in errors}.values():
            print(f"error in {prop}/{name}:\n{e}", file=sys.stderr)
        return 2
    print(f"{prop}: held on {evals} cases ({distinct} distinct non-trivial) in {wall:.1f}s")
    return 0


if __name__ == "__main__":
    sys.exit(main())
