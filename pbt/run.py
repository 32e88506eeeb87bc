"""Entry point: python -m pbt.run PROPERTY [--tier quick|thorough] [--replay FILE] [--only SUBTEST] [--scale X] [-j N]"""
from __future__ import annotations

import argparse
import importlib
import json
import logging
import multiprocessing as mp
import os
import sys
import time
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def quiet_repo():
    warnings.filterwarnings("ignore")
    logging.disable(logging.CRITICAL)


def load(prop):
    quiet_repo()
    import dg_commons

    repo = os.environ.get("VERIF_REPO", "/repo")
    if not dg_commons.__file__.startswith(repo + "/src/"):
        raise RuntimeError(f"dg_commons comes from {dg_commons.__file__}, not from {repo}")
    from pbt import core

    importlib.import_module(f"pbt.props.{prop.lower()}")
    quiet_repo()
    return core.REGISTRY[prop]


def known_findings(prop):
    with open(os.path.join(HERE, "known_findings.json")) as f:
        return [k for k in json.load(f)["known"] if k["property"] == prop]


def _work(q, out, prop, tests, tier, seed, known, scale):
    from pbt import core

    sys.stdout = open(os.devnull, "w")
    if not os.environ.get("VERIF_STDERR"):  # the library logs thousands of warnings
        os.dup2(os.open(os.devnull, os.O_WRONLY), 2)
    while True:
        i = q.get()
        if i is None:
            return
        try:
            out.put((i, core.run_subtest(tests[i], tier, seed, known, scale)))
        except BaseException as e:
            out.put((i, core.Result(tests[i].name, error=repr(e))))


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("tier_pos", nargs="?", default=None)
    ap.add_argument("--tier", default=None)
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--trace", action="store_true")
    ap.add_argument("-j", type=int, default=8)
    a = ap.parse_args(argv)
    prop = a.prop
    tier = a.tier or a.tier_pos or os.environ.get("VERIF_TIER") or "quick"
    os.environ["VERIF_TIER"] = tier
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    tests = load(prop)
    from pbt import core

    if a.replay:
        if not os.path.exists(a.replay):
            a.replay = os.path.join(os.environ.get("OLDPWD", "."), a.replay)
        with open(a.replay) as f:
            r = json.load(f)
        t = [t for t in tests if t.name == r["test"]][0]
        try:
            core.run_case(t, r["case"])
        except core.Violation as v:
            if a.trace:
                import traceback

                traceback.print_exc()
            print(f"  {t.name}: {v}")
            print(f"VIOLATION property={prop} replay={os.path.abspath(a.replay)}")
            return 1
        print("replay: the property holds on this case")
        return 0

    known = known_findings(prop)
    if a.only:
        tests = [t for t in tests if t.name.startswith(a.only)]
    ok_err = []
    for k in known:  # each listed finding is demonstrated on its own recorded input
        cand = [t for t in core.REGISTRY[prop] if t.name.split(".")[0] == k["test"].split(".")[0]]
        try:
            core.run_case(cand[0], k["case"])
        except core.Violation as v:
            if v.key == k["key"]:
                print(f"KNOWN-FINDING: property={prop} {k['id']} {k['what']}")

    ctx = mp.get_context("fork")
    q, out = ctx.Queue(), ctx.Queue()
    order = sorted(range(len(tests)), key=lambda i: -tests[i].cost)
    for i in order:
        q.put(i)
    n = max(1, min(a.j, len(tests)))
    for _ in range(n):
        q.put(None)
    procs = [ctx.Process(target=_work, args=(q, out, prop, tests, tier, seed, known, a.scale)) for _ in range(n)]
    for p in procs:
        p.start()
    results = {}
    while len(results) < len(tests):
        try:
            i, r = out.get(timeout=2)
            results[i] = r
            if r.failure and os.environ.get("VERIF_FAST"):  # mutation campaigns: the first failure is enough (tools/mutate.py)
                for p in procs:
                    p.kill()
                print(f"{prop}: {r.name}: {r.failure['msg'][:300]}")
                return 1
        except Exception:
            if not any(p.is_alive() for p in procs) and out.empty():
                for i in range(len(tests)):
                    if i not in results:
                        results[i] = core.Result(tests[i].name, error="worker died (killed or crashed)")
    for p in procs:
        p.join(timeout=5)
        if p.is_alive():
            p.terminate()
    rs = [results[i] for i in range(len(tests))]

    if tier == "quick" and a.scale >= 1 and not any(r.failure or r.error for r in rs):
        for base in dict.fromkeys(t.name.split(".")[0] for t in tests):  # labels the generators must be able to produce
            group = [(t, r) for t, r in zip(tests, rs) if t.name.split(".")[0] == base]
            missing = [l for l in group[0][0].need if not any(r.labels.get(l) for _, r in group)]
            if missing:
                group[0][1].error = f"generator of {base} produced no case labelled {missing}"
    failures = [r for r in rs if r.failure]
    errors = [r for r in rs if r.error]
    samples = [s for r in rs for s in r.samples[:2]][:12]
    with open(os.path.join(HERE, "properties.jsonl")) as f:
        assumptions = getattr(sys.modules[f"pbt.props.{prop.lower()}"], "ASSUMPTIONS", [])
    rule = getattr(sys.modules[f"pbt.props.{prop.lower()}"], "RULE", "see the labels of each sub-test")
    ev = dict(
        property=prop, tier=tier, seed=seed, level="exploration",
        coverage=dict(
            evaluations=sum(r.evaluations for r in rs), distinct_nontrivial=sum(r.nontrivial for r in rs), rule=rule,
            samples=samples,
            subtests=[dict(name=r.name, evaluations=r.evaluations, distinct=r.distinct, distinct_nontrivial=r.nontrivial,
                           labels=r.labels, known=r.known, wall_s=round(r.wall_s, 2)) for r in rs],
        ),
        assumptions=list(assumptions), wall_s=round(time.time() - t0, 2), violations=len(failures),
    )
    evdir = os.environ.get("VERIF_EVDIR") or os.path.join(HERE, "evidence")
    os.makedirs(evdir, exist_ok=True)
    with open(os.path.join(evdir, f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    for r in sorted(rs, key=lambda r: -r.wall_s):
        print(f"  {r.name:45s} n={r.evaluations:6d} nontrivial={r.nontrivial:6d} {r.wall_s:6.1f}s {dict(sorted(r.labels.items()))}"
              + (f" known={r.known}" if r.known else ""))
    print(f"{prop}: {ev['coverage']['evaluations']} cases, {ev['coverage']['distinct_nontrivial']} distinct non-trivial, {ev['wall_s']} s")
    if failures:
        rdir = os.path.join(evdir, "replays")
        os.makedirs(rdir, exist_ok=True)
        for r in failures:
            path = os.path.join(rdir, f"{prop}_{r.name}.json")
            with open(path, "w") as f:
                json.dump(dict(property=prop, test=r.name, **r.failure), f, indent=1)
            print(f"  FAILED {r.name}: {r.failure['msg'][:1200]}")
            print(f"         key={r.failure['key']} case={json.dumps(r.failure['case'])[:800]}")
            if a.trace:
                print(r.failure["trace"])
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    if errors:
        for r in errors:
            print(f"  ERROR in {r.name}: {r.error}", file=sys.stderr)
        return 2
    return 0


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
