"""Small framework: a property check is a set of sub-tests; a sub-test is (strategy of plain JSON-able cases, check function).

The check function gets one case (plain data), drives the real code with it and compares it against an oracle; it raises
(`fail`/`ensure`/any exception) when the property is broken and returns the labels which make the case non-trivial.
Because cases are plain data, a shrunk failing case is saved as JSON and replayed by calling the check function directly,
without hypothesis.
"""
from __future__ import annotations

import hashlib
import json
import math
import os
import signal
import sys
import time
import traceback
from collections import Counter
from dataclasses import dataclass, field
from typing import Any, Callable, Optional

from . import vendor

vendor.install()

import hypothesis  # noqa: E402
from hypothesis import HealthCheck, Phase, settings  # noqa: E402
import hypothesis.strategies as st  # noqa: E402
import hypothesis.internal.conjecture.engine as _engine  # noqa: E402

_engine.MAX_SHRINKING_SECONDS = 45

TIER = os.environ.get("VERIF_TIER", "quick")
CPU_LIMIT_S = 90  # CPU seconds for a single case (they normally take milliseconds)


class Violation(AssertionError):
    """The property is broken. `key` names the specific predicate / call site (used for known findings)."""

    def __init__(self, msg: str, key: str = ""):
        super().__init__(msg)
        self.key = key


class HarnessError(Exception):
    """Something is wrong with the check itself."""


def ensure(cond, msg="", key="", **info):
    if not cond:
        fail(msg, key=key, **info)


def fail(msg, key="", **info):
    if info:
        msg = f"{msg} :: " + ", ".join(f"{k}={v!r}" for k, v in info.items())
    raise Violation(msg, key=key)


def close(a, b, rtol=1e-9, atol=1e-9) -> bool:
    a, b = float(a), float(b)
    if math.isnan(a) or math.isnan(b):
        return False
    if a == b:
        return True
    return abs(a - b) <= atol + rtol * max(abs(a), abs(b))


def ensure_close(a, b, msg="", key="", rtol=1e-9, atol=1e-9, **info):
    import numpy as np

    aa, bb = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if aa.shape != bb.shape:
        fail(f"{msg}: shapes differ", key=key, got=aa.tolist(), expected=bb.tolist(), **info)
    if not np.all(np.abs(aa - bb) <= atol + rtol * np.maximum(np.abs(aa), np.abs(bb))):
        fail(f"{msg}: values differ", key=key, got=aa.tolist(), expected=bb.tolist(), **info)


def ensure_raises(f: Callable, exc=Exception, msg="", key="", **info):
    try:
        r = f()
    except exc as e:
        return e
    fail(f"{msg}: expected {exc} but got a result", key=key, result=repr(r)[:300], **info)


class CpuTimeout(Exception):
    pass


def _on_cpu(signum, frame):
    raise CpuTimeout()


@dataclass
class SubTest:
    prop: str
    name: str
    strategy: Callable[[], Any]
    check: Callable[[Any], Any]
    quick: int
    thorough: int
    need: tuple = ()  # labels which must occur (otherwise the generator is broken: harness error)
    cost: float = 1.0
    examples: tuple = ()  # explicit regression cases, run first
    cpu: float = CPU_LIMIT_S


REGISTRY: dict[str, list[SubTest]] = {}


def subtest(prop, strategy, quick=200, thorough=None, need=(), name=None, examples=(), shards=1, cpu=CPU_LIMIT_S):
    """`shards`: split the examples in that many independently seeded sub-tests (run in parallel)."""

    def deco(f):
        th = thorough if thorough is not None else quick * 12
        base = name or f.__name__
        for s in range(shards):
            nm = base if shards == 1 else f"{base}.{s}"
            REGISTRY.setdefault(prop, []).append(
                SubTest(prop, nm, strategy, f, max(1, quick // shards), max(1, th // shards), tuple(need),
                        examples=tuple(examples) if s == 0 else (), cpu=cpu)
            )
        return f

    return deco


def case_hash(case) -> str:
    return hashlib.sha1(json.dumps(case, sort_keys=True, default=str).encode()).hexdigest()


def jsonable(case):
    """Cases have to survive a trip through JSON: this is what makes a replay file complete."""
    return json.loads(json.dumps(case))


@dataclass
class Result:
    name: str
    evaluations: int = 0
    distinct: int = 0
    nontrivial: int = 0
    labels: dict = field(default_factory=dict)
    samples: list = field(default_factory=list)
    failure: Optional[dict] = None  # {case,msg,key,trace}
    known: dict = field(default_factory=dict)  # finding id -> count
    error: Optional[str] = None
    wall_s: float = 0.0


def run_case(test: SubTest, case):
    """One case under a CPU time limit. Returns labels or raises Violation."""
    old = signal.signal(signal.SIGVTALRM, _on_cpu)
    signal.setitimer(signal.ITIMER_VIRTUAL, test.cpu)
    try:
        return test.check(case)
    except (HarnessError, hypothesis.errors.HypothesisException, MemoryError):
        raise
    except Violation:
        raise
    except CpuTimeout:
        raise Violation(f"no answer after {test.cpu} CPU seconds", key="no_termination") from None
    except RecursionError as e:
        raise Violation(f"RecursionError: {str(e)[:200]}", key="exc:RecursionError") from e
    except Exception as e:  # the code under test raised where the property says it must not
        tb = traceback.extract_tb(e.__traceback__)
        where = [f"{os.path.basename(fr.filename)}:{fr.name}" for fr in tb if "dg_commons" in fr.filename]
        raise Violation(
            f"unexpected {type(e).__name__}: {str(e)[:300]} at {where[-1] if where else tb[-1].name + ':' + str(tb[-1].lineno)}",
            key=f"exc:{type(e).__name__}@{where[-1] if where else 'harness'}",
        ) from e
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)


def run_subtest(test: SubTest, tier: str, seed: int, known: list[dict], scale: float = 1.0) -> Result:
    res = Result(test.name)
    t0 = time.time()
    n = max(1, int((test.quick if tier == "quick" else test.thorough) * scale))
    seen: set[str] = set()
    nontriv: set[str] = set()
    labels: Counter = Counter()
    last_fail: list = []
    known_keys = {k["key"]: k["id"] for k in known if k["test"] == test.name.split(".")[0] or k["test"] == "*"}

    def one(case):
        case = jsonable(case)
        res.evaluations += 1
        h = case_hash(case)
        seen.add(h)
        try:
            lab = run_case(test, case)
        except Violation as v:
            if v.key in known_keys:
                res.known[known_keys[v.key]] = res.known.get(known_keys[v.key], 0) + 1
                return
            last_fail[:] = [dict(case=case, msg=str(v)[:2000], key=v.key, trace=traceback.format_exc()[-4000:])]
            raise
        if lab is None:
            lab = ()
        elif isinstance(lab, str):
            lab = (lab,)
        elif lab is True:
            lab = ("nontrivial",)
        lab = set(lab)
        labels.update(lab)
        if lab and h not in nontriv:
            nontriv.add(h)
            if len(res.samples) < 3 and len(nontriv) % max(1, n // 4) == 1:
                res.samples.append({"test": test.name, "case": _short(case), "labels": sorted(lab)})

    sub_seed = int.from_bytes(hashlib.sha256(f"{seed}/{test.prop}/{test.name}".encode()).digest()[:6], "big")
    try:
        for ex in test.examples:
            one(ex)
        strat = test.strategy() if callable(test.strategy) else test.strategy

        @hypothesis.seed(sub_seed)
        @settings(
            max_examples=n, deadline=None, database=None, derandomize=False, report_multiple_bugs=False,
            suppress_health_check=[HealthCheck.too_slow, HealthCheck.large_base_example, HealthCheck.data_too_large],
            phases=[Phase.generate] if os.environ.get("VERIF_FAST") else [Phase.generate, Phase.shrink], print_blob=False, verbosity=hypothesis.Verbosity.quiet,
        )
        @hypothesis.given(strat)
        def prop(case):
            one(case)

        prop()
    except Violation:
        res.failure = last_fail[0]
    except hypothesis.errors.Flaky:
        res.failure = dict(last_fail[0], msg=last_fail[0]["msg"] + " [depends on earlier cases of this run]")
    except BaseException as e:  # noqa: the check itself is broken
        if last_fail and not isinstance(e, (HarnessError, KeyboardInterrupt)):
            res.failure = last_fail[0]
        else:
            res.error = f"{type(e).__name__}: {e}\n{traceback.format_exc()[-3000:]}"
    res.distinct = len(seen)
    res.nontrivial = len(nontriv)
    res.labels = dict(labels)
    res.wall_s = time.time() - t0
    return res


def _short(case, limit=1500):
    s = json.dumps(case)
    return case if len(s) <= limit else s[:limit] + "..."
