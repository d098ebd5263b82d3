"""Command line: run one property's check, or replay a counterexample."""
import faulthandler
import importlib
import json
import os
import signal
import sys
import time
from collections import Counter
from concurrent.futures import ProcessPoolExecutor, as_completed
from multiprocessing import get_context

from pbt import core

LIMIT = {"quick": 840, "thorough": 6 * 3600}


def load(prop):
    mod = importlib.import_module(f"pbt.checks.{prop.lower()}")
    return mod, mod.FACETS


def _task(args):
    prop, name, tier, shard, seed = args
    _, facets = load(prop)
    fct = next(f for f in facets if f.name == name)
    t0 = time.time()
    out = core.run_facet(prop, fct, tier, shard, seed)
    out["wall"] = time.time() - t0
    return out


def replay(prop, path):
    with open(path) as f:
        rec = json.load(f)
    _, facets = load(prop)
    fct = next(f for f in facets if f.name == rec["facet"])
    ctx, violation, finding = core.execute(
        prop, fct, rec["case"], core.load_findings()
    )
    if violation is not None:
        print(f"{fct.name}: {violation}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    print(f"{fct.name}: held on {path}", f"(finding {finding})" if finding else "")
    return 0


def main(argv):
    prop = argv[0].upper()
    if len(argv) > 2 and argv[1] == "replay":
        return replay(prop, argv[2])
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    only = argv[2:]  # facet names, for development
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    signal.alarm(LIMIT[tier])  # no answer: ends with SIGALRM, not a verdict
    faulthandler.enable()

    mod, facets = load(prop)
    if only:
        facets = [f for f in facets if f.name in only]
    tasks = [
        (prop, f.name, tier, s, seed) for f in facets for s in range(f.shards)
    ]
    workers = min(int(os.environ.get("VERIF_JOBS", "8")), len(tasks))
    results = []
    with ProcessPoolExecutor(workers, mp_context=get_context("fork")) as pool:
        for fut in as_completed([pool.submit(_task, t) for t in tasks]):
            results.append(fut.result())
    results.sort(key=lambda r: (r["facet"], r["shard"]))

    known = core.load_findings()
    evaluations = sum(r["evaluations"] for r in results)
    nontrivial = set()
    labels, findings = Counter(), Counter()
    samples, per_facet = [], {}
    for r in results:
        nontrivial.update(f"{r['facet']}/{h}" for h in r["nontrivial"])
        findings.update(r["findings"])
        for k, v in r["labels"].items():
            labels[f"{r['facet']}: {k}"] += v
        pf = per_facet.setdefault(
            r["facet"], {"evaluations": 0, "wall_s": 0.0}
        )
        pf["evaluations"] += r["evaluations"]
        pf["wall_s"] = round(pf["wall_s"] + r["wall"], 2)
        if r["shard"] == 0:
            samples += [
                {"facet": r["facet"], "case": c} for c in r["samples"][-2:]
            ]

    status = 0
    violations = []
    seen = set()
    for r in results:
        if r["failing"] is None or r["facet"] in seen:
            continue
        seen.add(r["facet"])
        os.makedirs(os.path.join(core.ROOT, "replays"), exist_ok=True)
        path = os.path.join("replays", f"{prop}-{r['facet']}.json")
        with open(os.path.join(core.ROOT, path), "w") as f:
            json.dump(
                {
                    "property": prop,
                    "facet": r["facet"],
                    "message": r["failing"]["message"],
                    "case": r["failing"]["case"],
                },
                f,
                indent=1,
            )
        print(f"{r['facet']}: {r['failing']['message']}")
        print(f"  case: {json.dumps(r['failing']['case'])[:2000]}")
        print(f"VIOLATION property={prop} replay={path}")
        violations.append(path)
        status = 1

    errors = [r for r in results if r["error"]]
    for r in errors:
        print(f"HARNESS ERROR in {r['facet']}:\n{r['error']}", file=sys.stderr)
    if errors and status == 0:
        status = 2

    for (p, key), text in sorted(known.items()):
        if p == prop and findings.get(key):
            print(
                f"KNOWN-FINDING: property={prop} {text} "
                f"[{findings[key]} generated cases hit it]"
            )

    wall = time.time() - t0
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(nontrivial),
            "rule": mod.RULE,
            "samples": samples,
            "per_facet": per_facet,
            "classes": dict(sorted(labels.items())),
            "cases_hitting_known_findings": dict(findings),
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(core.ROOT, "evidence"), exist_ok=True)
    if not only:
        with open(
            os.path.join(core.ROOT, "evidence", f"{prop}.json"), "w"
        ) as f:
            json.dump(evidence, f, indent=1)
    for name, pf in per_facet.items():
        print(f"  {name}: {pf['evaluations']} cases, {pf['wall_s']} s")
        if os.environ.get("VERIF_LABELS"):
            for k, v in sorted(labels.items()):
                if k.startswith(name + ": "):
                    print(f"      {k[len(name) + 2:]}: {v}")
    print(
        f"{prop} {tier} seed={seed}: {evaluations} cases, "
        f"{len(nontrivial)} distinct non-trivial, {wall:.1f} s"
    )
    return status


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
