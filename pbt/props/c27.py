"""C27: functional helpers, the timing decorator and the shape generator."""
from __future__ import annotations

import itertools
import math
import random
from collections import OrderedDict
from types import MappingProxyType

from frozendict import frozendict
from hypothesis import strategies as st
from shapely.geometry import Point, Polygon

from dg_commons import fd, fkeyfilter, fs, fvalmap, iterate_dict_combinations, valmap
from dg_commons.maps.shapes_generator import create_random_starshaped_polygon, create_star_polygon
from dg_commons.time import time_function
from pbt.core import ensure, ensure_close, ensure_raises, fail, subtest
from pbt.gens import fl, nice

P = "C27"
RULE = "random mappings (several mapping types, empty ones, empty options), functions (returning, raising, recursive, generators, methods) and seeds and parameters of the shape generator; labels name the kind"
ASSUMPTIONS = ["options of a player are distinct", "the random polygons have integer (pixel) vertices: positions are exact up to one pixel",
               "the timing decorator is applied to functions and methods"]

KEY = st.one_of(st.integers(-5, 5), st.text("abc", max_size=2))
VAL = st.one_of(st.integers(-9, 9), st.text("xyz", max_size=2), st.none(), st.lists(st.integers(0, 3), max_size=2))
TYPES = ["dict", "frozendict", "ordered", "proxy"]


def mapping(pairs, kind):
    d = {}
    for k, v in pairs:
        d[k] = v
    return dict(dict=dict, frozendict=frozendict, ordered=OrderedDict, proxy=MappingProxyType)[kind](d)


def unchangeable(m):
    try:
        m["new"] = 1
    except Exception:
        pass
    else:
        fail(f"{type(m).__name__} can be changed")


@st.composite
def combos_case(draw):
    keys = draw(st.lists(KEY, max_size=5, unique_by=repr))
    opts = [draw(st.lists(st.one_of(st.integers(0, 9), st.text("pq", max_size=2)), max_size=4 if len(keys) < 4 else 3, min_size=draw(st.sampled_from([0, 1, 1, 1])), unique_by=repr)) for _ in keys]
    return dict(keys=keys, opts=opts, kind=draw(st.sampled_from(TYPES)), coll=draw(st.sampled_from(["list", "tuple", "set", "frozenset", "dict"])))


@subtest(P, combos_case, quick=1200, need=("several", "empty option", "no player"))
def combinations_are_the_full_product(c):
    coll = dict(list=list, tuple=tuple, set=set, frozenset=frozenset, dict=dict.fromkeys)[c["coll"]]
    a = mapping([(k, coll(o)) for k, o in zip(c["keys"], c["opts"])], c["kind"])
    before = [(k, list(v)) for k, v in a.items()]
    got = list(iterate_dict_combinations(a))
    ensure([(k, list(v)) for k, v in a.items()] == before, "the input changed")
    n = math.prod(len(o) for o in c["opts"])
    ensure(len(got) == n, f"{len(got)} combinations instead of {n}")
    for d in got:
        ensure(list(d) == list(a), f"keys {list(d)} instead of {list(a)}")
        ensure(all(d[k] in a[k] for k in a), f"{d} is not a choice of {a}")
        unchangeable(d)
    ensure(len({tuple((repr(k), repr(v)) for k, v in d.items()) for d in got}) == n, "a combination occurs twice")
    ensure(len(set(got)) == n, "equal combinations")
    # lazily: the first ones are the same, and a second iteration starts afresh
    ensure(list(itertools.islice(iterate_dict_combinations(a), 3)) == got[:3], "the second iteration differs")
    return "no player" if not c["keys"] else "empty option" if n == 0 else "several" if n > 1 else "one"


@st.composite
def map_case(draw):
    return dict(pairs=draw(st.lists(st.tuples(KEY, VAL).map(list), max_size=6)), kind=draw(st.sampled_from(TYPES)), f=draw(st.sampled_from(["repr", "const", "id", "raise"])),
                p=draw(st.sampled_from(["str", "all", "none", "truthy", "raise"])))


class Boom(Exception):
    pass


def raising(x):
    raise Boom(repr(x))


FUN = dict(repr=repr, const=lambda v: 7, id=lambda v: v, **{"raise": raising})
PRED = dict(str=lambda k: isinstance(k, str), all=lambda k: True, none=lambda k: False, truthy=lambda k: k, **{"raise": raising})


@subtest(P, map_case, quick=1500, need=("maps", "raises"))
def filters_and_maps_agree_with_their_definition(c):
    a = mapping(c["pairs"], c["kind"])
    before = repr(list(a.items()))
    f, p = FUN[c["f"]], PRED[c["p"]]
    lab = "maps"
    if c["f"] == "raise" and len(a):
        lab = "raises"
        for g in (fvalmap, valmap):
            e = ensure_raises(lambda: g(f, a), Boom, msg="the exception of the function is lost")
            ensure(str(e) in [repr(v) for v in a.values()], f"{e!r}")
    else:
        want = [(k, f(a[k])) for k in a]
        for g in (fvalmap, valmap):
            r = g(f, a)
            ensure(list(r.items()) == want, f"{g.__name__}: {r} instead of {want}")
            ensure(r is not a or c["kind"] == "frozendict", "the input itself is returned")
        unchangeable(fvalmap(f, a))
        r = valmap(f, a)
        ensure(type(r) is dict, f"valmap returns a {type(r).__name__}")
    if c["p"] == "raise" and len(a):
        lab = "raises"
        ensure_raises(lambda: fkeyfilter(p, a), Boom, msg="the exception of the predicate is lost")
    else:
        r = fkeyfilter(p, a)
        ensure(list(r.items()) == [(k, a[k]) for k in a if p(k)], f"filtered {r} of {a}")
        ensure(all(r[k] is a[k] for k in r), "values are copied")
        unchangeable(r)
    r = fd(a)
    ensure(dict(r) == dict(a) and isinstance(r, frozendict), f"fd {r}")
    unchangeable(r)
    if c["kind"] == "dict":
        a["later"] = 1
        ensure("later" not in r, "a frozen dict follows its origin")
        del a["later"]
    s = fs(list(a))
    ensure(s == set(a) and type(s) is frozenset, f"fs {s}")
    ensure(repr(list(a.items())) == before, "the input changed")
    return lab


@st.composite
def fun_case(draw):
    return dict(kind=draw(st.sampled_from(["return", "raise", "exit", "recursive", "method", "generator", "static", "none"])), args=draw(st.lists(VAL, max_size=4)),
                kw=draw(st.dictionaries(st.sampled_from(["a", "b", "func", "self", "args", "kwargs"]), VAL, max_size=3)), n=draw(st.integers(0, 6)), err=draw(st.integers(0, 9)))


class Owner:
    def __init__(self):
        self.seen = None

    @time_function
    def method(self, *args, **kw):
        """the doc"""
        self.seen = args, kw
        return self

    @staticmethod
    @time_function
    def static(*args):
        return args


@subtest(P, fun_case, quick=800, need=("return", "raise", "exit", "recursive", "method", "generator"))
def timing_is_transparent(c):
    kind, calls = c["kind"], []
    token = object()
    some = [StopIteration(3), KeyError("k"), ValueError("v"), TypeError("t"), RuntimeError("r"), AttributeError("a"), StopAsyncIteration()]
    err = (some + [Boom("x")] * 3)[c.get("err", 9)] if kind == "raise" else [KeyboardInterrupt("stop"), SystemExit(2), GeneratorExit()][c.get("err", 0) % 3]

    def plain(*args, **kwargs):
        """doc of plain"""
        calls.append((args, kwargs))
        if kind in ("raise", "exit"):
            raise err
        return None if kind == "none" else token

    args, kw = tuple(c["args"]), {k: v for k, v in c["kw"].items()}
    if kind in ("return", "none", "raise", "exit"):
        f = time_function(plain)
        ensure(f.__name__ == "plain" and f.__doc__ == "doc of plain" and f.__wrapped__ is plain, "name and documentation are lost")
        for _ in range(1 + c["n"] % 2):
            calls.clear()
            try:
                r = f(*args, **kw)
            except BaseException as e:
                ensure(e is err, f"{e!r} instead of {err!r}")
            else:
                ensure(kind in ("return", "none"), "the exception is swallowed")
                ensure(r is (None if kind == "none" else token), f"returned {r!r}")
            ensure(len(calls) == 1 and calls[0] == (args, kw), f"called {calls} instead of {(args, kw)}")
            ensure(all(x is y for x, y in zip(calls[0][0], args)), "arguments are copied")
    elif kind == "recursive":
        @time_function
        def fact(n):
            return 1 if n <= 0 else n * fact(n - 1)

        ensure(fact(c["n"]) == math.factorial(c["n"]), "recursive function")
    elif kind == "generator":
        @time_function
        def gen(n):
            for i in range(n):
                calls.append(i)
                yield i

        g = gen(c["n"])
        ensure(not calls, "the generator ran before it was asked")
        ensure(list(g) == list(range(c["n"])), "generator")
    elif kind == "method":
        o = Owner()
        kw.pop("self", None)
        ensure(o.method(*args, **kw) is o and o.seen == (args, kw), "method")
        ensure(Owner.method.__doc__ == "the doc", "documentation is lost")
    else:
        ensure(Owner.static(*args) == args and Owner().static(*args) == args, "static method")
    return kind


@st.composite
def shape_case(draw):
    return dict(seed=draw(st.integers(0, 10**6)), x=draw(nice(-500, 500)), y=draw(nice(-500, 500)), r=draw(st.one_of(fl(1, 20), fl(20, 400))), irr=draw(st.one_of(fl(0, 1), st.sampled_from([0.0, 1.0, 2.0, -1.0]))),
                sp=draw(st.one_of(fl(0, 1), st.sampled_from([0.0, 1.0, 3.0, -0.5]))), n=draw(st.integers(3, 24)))


@subtest(P, shape_case, quick=1500, need=("regular", "spiky"))
def random_polygons_respect_their_parameters(c):
    random.seed(c["seed"])
    pts = list(create_random_starshaped_polygon(c["x"], c["y"], c["r"], c["irr"], c["sp"], c["n"]))
    ensure(len(pts) == c["n"], f"{len(pts)} vertices instead of {c['n']}")
    ctr, R, px = complex(c["x"], c["y"]), c["r"], math.sqrt(2) + 1e-9
    z = [complex(*p) - ctr for p in pts]
    ensure(all(abs(q) <= 2 * R + px for q in z), f"a vertex is {max(map(abs, z))} away from the centre, the average radius is {R}")
    irr, sp = min(max(c["irr"], 0), 1), min(max(c["sp"], 0), 1)
    if sp == 0:
        ensure(all(abs(abs(q) - R) <= px for q in z), f"radii {sorted(map(abs, z))[:3]} without spikiness, the radius is {R}")
    # counter-clockwise around the centre, with the permitted angular spacing
    blur = [math.asin(min(1.0, px / abs(q))) if abs(q) > px else math.pi for q in z]
    nominal = 2 * math.pi / c["n"]
    tot, clear, steps = 0.0, True, []
    for i in range(c["n"]):
        a, b = z[i], z[(i + 1) % c["n"]]
        tol = blur[i] + blur[(i + 1) % c["n"]]
        if tol > 1.0:
            clear = False
            continue
        step = math.atan2((b / a).imag, (b / a).real) % (2 * math.pi)
        if step > 2 * math.pi - tol:
            step -= 2 * math.pi
        # steps are nominal * (1 +- irr), rescaled so that they sum up to one turn (by at most 1 / (1 -+ irr))
        lo = nominal * (1 - irr) / (1 + irr)
        ensure(step >= lo - tol - 1e-9, f"angle {step} between vertices {i} and {i + 1}, the least is {lo}")
        if irr < 1:
            hi = nominal * (1 + irr) / (1 - irr)
            ensure(step <= hi + tol + 1e-9, f"angle {step} between vertices {i} and {i + 1}, the largest is {hi}")
        tot += step
        steps.append((step, tol))
    if irr < 1 and steps:
        wide, narrow = max(s - t for s, t in steps), min(s + t for s, t in steps)
        ensure(wide * (1 - irr) <= narrow * (1 + irr) + 1e-9, f"angles between the vertices from {narrow} to {wide} with an irregularity of {irr}")
    if clear:
        ensure(abs(tot - 2 * math.pi) < 1e-6, f"the vertices turn by {tot} around the centre")
        if all(b < 0.02 for b in blur) and irr <= 0.5 and c["n"] >= 5:
            p = Polygon(pts)
            ensure(p.is_valid and p.exterior.is_ccw, "not a simple counter-clockwise polygon")
    # the generator follows the seed
    random.seed(c["seed"])
    return "regular" if irr == 0 and sp == 0 else "spiky" if sp > 0.5 else "mixed"


@subtest(P, lambda: st.fixed_dictionaries(dict(x=nice(-100, 100), y=nice(-100, 100), p=fl(0.1, 50), f=fl(0.05, 2.0))), quick=400)
def star_has_its_spikes(c):
    t = c["p"] * c["f"]
    pts = list(create_star_polygon(c["x"], c["y"], c["p"], t))
    ensure(len(pts) == 8 and len(set(pts)) == 8, f"{len(pts)} vertices")
    for k in range(4):
        for d, name in ((c["p"], "spike"), (t * math.sqrt(2), "diagonal")):
            ang = k * math.pi / 2 + (math.pi / 4 if name == "diagonal" else 0)
            w = (c["x"] + d * math.cos(ang), c["y"] + d * math.sin(ang))
            ensure(min(math.dist(w, q) for q in pts) < 1e-9 * (1 + abs(c["x"]) + abs(c["y"]) + d), f"no {name} at {w}")
    poly = Polygon(pts)
    ensure(poly.is_valid, "not a simple polygon")
    ensure(poly.contains(Point(c["x"], c["y"])), "the centre is outside")
    ensure_close(poly.area, 4 * c["p"] * t, "area", rel_tol=1e-9, abs_tol=1e-9)
    return "star"
