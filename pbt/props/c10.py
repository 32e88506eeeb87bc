from __future__ import annotations

import copy
import math

import numpy as np
from hypothesis import strategies as st
from shapely import affinity
from shapely.geometry import LinearRing, LineString, MultiLineString, MultiPolygon, Point, Polygon
from shapely.geometry import box as shp_box

from dg_commons.sim.collision import impact_locations_from_polygons
from dg_commons.sim.collision_structures import CollisionReport, CollisionReportPlayer, combine_collision_reports, IMPACT_BACK, IMPACT_FRONT, IMPACT_LEFT, IMPACT_RIGHT
from dg_commons.sim.collision_utils import CollisionException, check_who_is_at_fault, compute_impact_geometry
from pbt.core import ensure, ensure_close, ensure_raises, fail, subtest
from pbt.gens import ANGLE, fl, nice
from pbt.zoo import FAMILIES, mk_model, model_case

P = "C10"
RULE = ("random convex / star-shaped / lattice polygons, lines and model footprints in random relative position; contact geometry compared with boundary "
        "crossings computed by own segment arithmetic; non-trivial = the shapes overlap or touch")
ASSUMPTIONS = ["the code documents which contacts it supports (two boundary crossings, or the second body inside the first); for others it must say so with a "
               "CollisionException (or give a unit normal), nothing else",
               "a normal flips under exchange only when the centroids lie on opposite sides of the contact line (its orientation is by the first body's centroid)"]


def rot(a, v):
    c, s = math.cos(a), math.sin(a)
    return np.array([c * v[0] - s * v[1], s * v[0] + c * v[1]])


@st.composite
def blob(draw, span=3.0, kinds=("convex", "star", "rect", "tri")):
    kind = draw(st.sampled_from(kinds))
    n = {"rect": 4, "tri": 3}.get(kind) or draw(st.integers(4, 8))
    if kind == "rect":
        w, h = draw(fl(0.3, 3)), draw(fl(0.3, 2))
        pts = [(-w, -h), (w, -h), (w, h), (-w, h)]
    else:
        ang = [2 * math.pi * (k + draw(fl(-0.35, 0.35))) / n for k in range(n)]
        r = [draw(fl(0.5, 2.5)) if kind == "star" else 1.0 for _ in ang]
        sx, sy = draw(fl(0.4, 2.5)), draw(fl(0.4, 2.5))
        pts = [(sx * q * math.cos(a), sy * q * math.sin(a)) for a, q in zip(ang, r)]
    th, c = draw(ANGLE), (draw(fl(-span, span)), draw(fl(-span, span)))
    return [(rot(th, p) + np.array(c)).tolist() for p in pts]


def crossings(pa, pb):
    """Proper crossings of the two closed polylines; None when some vertex lies (almost) on the other boundary."""
    out = []
    for i in range(len(pa)):
        p, r = np.array(pa[i]), np.array(pa[(i + 1) % len(pa)]) - np.array(pa[i])
        for j in range(len(pb)):
            q, s = np.array(pb[j]), np.array(pb[(j + 1) % len(pb)]) - np.array(pb[j])
            den = r[0] * s[1] - r[1] * s[0]
            if abs(den) < 1e-6 * np.hypot(*r) * np.hypot(*s):
                den = 0.0
            w = q - p
            if den == 0.0:
                # parallel: only fine when clearly apart
                if LineString([p, p + r]).distance(LineString([q, q + s])) < 1e-4:
                    return None
                continue
            t, u = (w[0] * s[1] - w[1] * s[0]) / den, (w[0] * r[1] - w[1] * r[0]) / den
            if -1e-6 <= t <= 1 + 1e-6 and -1e-6 <= u <= 1 + 1e-6:
                if min(t, 1 - t, u, 1 - u) < 1e-6:
                    return None
                out.append(p + t * r)
    return out


@st.composite
def shapes(draw):
    return dict(a=draw(blob(1.5)), b=draw(blob(3.0)), scale=draw(st.sampled_from([1.0, 1.0, 0.3])), tf=[draw(nice(-40, 40)), draw(nice(-40, 40)), draw(ANGLE)])


@subtest(P, shapes, quick=4000, shards=4, need=("two_crossings", "contains", "unsupported", "swap", "moved"))
def normal_and_contact_point(case):
    a = Polygon(case["a"])
    b = affinity.scale(Polygon(case["b"]), case["scale"], case["scale"], origin="centroid")
    if not (a.is_valid and b.is_valid and a.intersects(b)):
        return None
    xs = crossings(list(a.exterior.coords[:-1]), list(b.exterior.coords[:-1]))
    if xs is None:
        return None
    wa, wb = a.wkt, b.wkt
    try:
        n, pt = compute_impact_geometry(a, b)
    except CollisionException:
        if len(xs) == 0 and b.within(a):
            ensure(a.centroid.distance(b.centroid) < 1.1e-9, "a body inside the other is a supported contact", key="contained")
        ensure(len(xs) != 2, "two crossings of the boundaries are a supported contact", key="two_crossings", crossings=[x.tolist() for x in xs])
        return "unsupported"
    ensure(a.wkt == wa and b.wkt == wb, "the shapes were altered")
    n = np.asarray(n, dtype=float)
    p = np.array(pt.coords[0])
    ca, cb = np.array(a.centroid.coords[0]), np.array(b.centroid.coords[0])
    ensure_close(float(np.hypot(*n)), 1.0, "the normal is not a unit vector")
    if len(xs) == 0:
        ensure(b.within(a), "no boundary crossing: only a contained body is supported")
        ensure_close(p, cb, "contact point of a contained body", atol=1e-9)
        ensure_close(n * np.hypot(*(cb - ca)), cb - ca, "normal for a contained body", atol=1e-9)
        return "contains"
    if len(xs) != 2:
        return None
    x0, x1 = xs
    chord = x1 - x0
    ln = float(np.hypot(*chord))
    if ln < 1e-4:
        return None
    labels = ["two_crossings"]
    ensure_close(p, (x0 + x1) / 2, "the contact point is not the middle of the contact line", atol=1e-7)
    ensure(abs(float(n @ chord)) <= 1e-6 * max(1.0, ln), "the normal is not perpendicular to the contact line", n=n.tolist(), chord=chord.tolist())
    ensure(float(n @ (p - ca)) >= -1e-7, "the normal points into the first body", n=n.tolist())
    sa, sb = float(n @ (ca - p)), float(n @ (cb - p))
    if sa < -1e-4 and sb > 1e-4:
        n2, pt2 = compute_impact_geometry(b, a)
        ensure_close(n2, -n, "exchanging the bodies does not just flip the normal", atol=1e-6)
        ensure_close(np.array(pt2.coords[0]), p, "exchanging the bodies moves the contact point", atol=1e-6)
        labels.append("swap")
    if sa < -1e-4 and ln > 1e-2:
        tx, ty, th = case["tf"]
        mv = lambda g: affinity.translate(affinity.rotate(g, th, origin=(0, 0), use_radians=True), tx, ty)  # noqa: E731
        n3, pt3 = compute_impact_geometry(mv(a), mv(b))
        ensure_close(n3, rot(th, n), "the normal does not move with the scene", atol=1e-6)
        ensure_close(np.array(pt3.coords[0]), rot(th, p) + np.array([tx, ty]), "the contact point does not move with the scene", atol=1e-6)
        labels.append("moved")
    return labels


@st.composite
def lattice(draw):
    def rect():
        x, y, w, h = draw(st.integers(-4, 3)), draw(st.integers(-4, 3)), draw(st.integers(1, 4)), draw(st.integers(1, 4))
        k = draw(st.sampled_from(["rect", "rect", "tri", "ell"]))
        pts = {"rect": [(x, y), (x + w, y), (x + w, y + h), (x, y + h)], "tri": [(x, y), (x + w, y), (x, y + h)],
               "ell": [(x, y), (x + 2 * w, y), (x + 2 * w, y + h), (x + w, y + h), (x + w, y + 2 * h), (x, y + 2 * h)]}[k]
        return dict(k=k, pts=[list(q) for q in pts])

    a = rect()
    kind = draw(st.sampled_from(["poly", "poly", "poly", "line", "multi", "same"]))
    if kind == "line":
        pts = draw(st.lists(st.tuples(st.integers(-4, 4), st.integers(-4, 4)).map(list), min_size=2, max_size=4))
        b = dict(k="line", pts=pts)
    elif kind == "multi":
        b = dict(k="multi", parts=[rect()["pts"], rect()["pts"]])
    elif kind == "same":
        b = copy.deepcopy(a)
    else:
        b = rect()
    return dict(a=a, b=b, cell=draw(st.sampled_from([0.5, 1.0, 0.1])), tf=[draw(st.sampled_from([0.0, 7.3])), draw(st.sampled_from([0.0, -2.1])), draw(st.sampled_from([0.0, 0.0, math.pi / 2, 0.4]))])


@subtest(P, lattice, quick=4000, shards=2, need=("touching", "overlap", "line", "multi", "unsupported", "resolved", "side_by_side"))
def degenerate_contacts_never_crash(case):
    def mk(d):
        if d["k"] == "line":
            return LineString(d["pts"]) if len({tuple(q) for q in d["pts"]}) > 1 else None
        if d["k"] == "multi":
            return MultiPolygon([Polygon(q) for q in d["parts"]])
        return Polygon(d["pts"])

    tx, ty, th = case["tf"]
    a, b = mk(case["a"]), mk(case["b"])
    if b is None or not b.is_valid:
        return None
    a, b = (affinity.translate(affinity.rotate(affinity.scale(g, case["cell"], case["cell"], origin=(0, 0)), th, origin=(0, 0), use_radians=True), tx, ty) for g in (a, b))
    if not a.intersects(b):
        return None
    out = ["touching" if a.touches(b) else "overlap", case["b"]["k"]]
    try:
        n, pt = compute_impact_geometry(a, b)
    except CollisionException:
        return out + ["unsupported"]
    n = np.asarray(n, dtype=float)
    ensure(np.all(np.isfinite(n)), "the normal is not a number", n=n.tolist())
    ensure_close(float(np.hypot(*n)), 1.0, "the normal is not a unit vector")
    ensure(isinstance(pt, Point) and not pt.is_empty, "no contact point")
    if case["a"]["k"] in ("rect", "tri") and case["b"]["k"] in ("rect", "tri"):
        ensure(a.distance(pt) < 1e-6 and b.distance(pt) < 1e-6, "the contact point is not on both bodies", pt=pt.wkt)
        ensure(float(n @ (np.array(pt.coords[0]) - np.array(a.centroid.coords[0]))) >= -1e-7, "the normal points into the first body")
    side = a.intersection(b)
    if a.touches(b) and side.geom_type == "LineString" and len(side.coords) == 2 and side.length > 1e-3:  # side by side
        d = np.array(side.coords[1]) - np.array(side.coords[0])
        ensure(abs(float(n @ d)) <= 1e-6 * max(1.0, side.length), "the normal is not perpendicular to the contact line", n=n.tolist(), line=side.wkt)
        ensure(pt.distance(side.interpolate(0.5, normalized=True)) < 1e-6, "the contact point is not the middle of the contact line", pt=pt.wkt)
        out.append("side_by_side")
    return out + ["resolved"]


@st.composite
def almost(draw):
    k = draw(st.sampled_from(["rect", "line", "tri"]))
    return dict(k=k, n=draw(st.sampled_from([0, 2, 5, 8, 11, 13, 16, 60, 150, 162, 200, 300, 313, 320])), m=draw(fl(0.5, 9)), th=draw(ANGLE), r=draw(fl(0.05, 0.8)),
                c=draw(st.sampled_from([[0.0, 0.0], [0.0, 0.0], [12.5, -3.25]])))


@subtest(P, almost, quick=400, need=("apart", "concentric"))
def bodies_around_the_same_centre(case):
    """A small body (almost) in the middle of another one: a unit normal along the line between the centres, or an explicit refusal."""
    d, (cx, cy), r = case["m"] * 10.0 ** -case["n"] / 10.0, case["c"], case["r"]
    dx, dy = d * math.cos(case["th"]), d * math.sin(case["th"])
    a = shp_box(cx - 2, cy - 2, cx + 2, cy + 2)
    b = {"rect": lambda: Polygon([(cx + sx * r + dx, cy + sy * r + dy) for sx, sy in ((-1, -1), (1, -1), (1, 1), (-1, 1))]),
         "line": lambda: LineString([(cx - r + dx, cy + dy), (cx + r + dx, cy + dy)]),
         "tri": lambda: Polygon([(cx + r + dx, cy + dy), (cx - r / 2 + dx, cy + r * 0.75 ** 0.5 + dy), (cx - r / 2 + dx, cy - r * 0.75 ** 0.5 + dy)])}[case["k"]]()
    if not a.contains(b):
        return None
    off = np.array(b.centroid.coords[0]) - np.array(a.centroid.coords[0])
    dist = math.hypot(*off)
    try:
        n, pt = compute_impact_geometry(a, b)
    except CollisionException:
        ensure(dist < 1.1e-9, "a body inside the other is a supported contact", apart=dist)
        return "concentric"
    n = np.asarray(n, dtype=float)
    ensure(bool(np.all(np.isfinite(n))), "the normal is not a number", n=n.tolist(), apart=dist)
    ensure_close(float(np.hypot(*n)), 1.0, "the normal is not a unit vector", apart=dist)
    ensure(pt.distance(b.centroid) < 1e-9, "contact point of a contained body")
    if dist > 1e-6:
        ensure_close(n, off / dist, "normal for a contained body", atol=1e-7)
        return "apart"
    return "close"


@st.composite
def loc_case(draw):
    c = draw(model_case(span=5.0))
    c["b"] = draw(blob(6.0))
    c["line"] = draw(st.booleans())
    return c


@subtest(P, loc_case, quick=2000, shards=2, need=("hit", "partial", "none") + tuple(FAMILIES))
def impact_locations_are_the_regions_hit(case):
    m = mk_model(case)
    b = LineString(case["b"]) if case["line"] else Polygon(case["b"])
    if not b.is_valid:
        return None
    b = affinity.translate(b, case["x"]["x"] * 0.9, case["x"]["y"] * 0.9) if abs(case["x"]["x"]) > 3 else b
    mesh = m.get_mesh()
    want = [(k, s) for k, s in mesh.items() if s.intersects(b)]
    if not want:
        ensure_raises(lambda: impact_locations_from_polygons(m, b), CollisionException, "nothing is hit")
        return "none"
    if any(abs(s.distance(b)) < 1e-9 and not s.buffer(-1e-9).intersects(b) for _, s in mesh.items()):
        return None
    got = impact_locations_from_polygons(m, b)
    ensure([k for k, _ in got] == [k for k, _ in want] and all(s1.equals(s2) for (_, s1), (_, s2) in zip(got, want)), "impact locations",
           got=[k for k, _ in got], expected=[k for k, _ in want])
    return ["hit", case["fam"], "partial" if len(want) < len(mesh) else "all"]


LOCS = [IMPACT_FRONT, IMPACT_BACK, IMPACT_LEFT, IMPACT_RIGHT]


@st.composite
def reports(draw):
    names = draw(st.lists(st.sampled_from(["P1", "P2", "Ego", "Env"]), min_size=2, max_size=2, unique=True))

    def rep(t, other):
        pl = {}
        for k in names if not other else ["P1", "Zed"]:
            pl[k] = None if draw(st.integers(0, 9)) == 0 else dict(loc=draw(st.lists(st.integers(0, 3), min_size=1, max_size=3)), fault=draw(st.booleans()), x=draw(nice(-9, 9)),
                                                                   v=[draw(fl(-9, 9)), draw(fl(-9, 9)), draw(fl(-2, 2))], va=[draw(fl(-9, 9)), draw(fl(-9, 9)), draw(fl(-2, 2))], e=draw(fl(-1e4, 0)))
        return dict(t=t, pl=pl, n=draw(ANGLE), rev=draw(st.booleans()))

    k = draw(st.integers(2, 4))
    ts = draw(st.lists(st.integers(0, 50), min_size=k, max_size=k, unique=draw(st.booleans())))
    if draw(st.integers(0, 5)) == 0:  # two contacts at the same time: the first report given counts as the first
        ts[1] = ts[0]
    other = draw(st.integers(0, 9)) == 0
    return dict(reps=[rep(t, other and i == 1) for i, t in enumerate(ts)], tk=draw(st.sampled_from(["D", "f", "i", "ms"])))


def mk_report(r, tk):
    from decimal import Decimal as D

    sq = Polygon([(0, 0), (1, 0), (1, 1), (0, 1)])
    t = {"D": lambda q: D(q) / 10, "f": lambda q: q / 10, "i": int, "ms": lambda q: D(q) / 1000}[tk](r["t"])
    pl = {}
    for k in (reversed(list(r["pl"])) if r["rev"] else r["pl"]):
        d = r["pl"][k]
        pl[k] = None if d is None else CollisionReportPlayer(locations=[(LOCS[i], sq) for i in d["loc"]], at_fault=d["fault"], footprint=affinity.translate(sq, d["x"]),
                                                             velocity=(np.array(d["v"][:2]), d["v"][2]), velocity_after=(np.array(d["va"][:2]), d["va"][2]), energy_delta=d["e"])
    return CollisionReport(players=pl, impact_point=Point(r["t"], 1), impact_normal=np.array([math.cos(r["n"]), math.sin(r["n"])]), at_time=t)


@subtest(P, reports, quick=800, need=("merged", "mismatch", "late_first", "unresolved", "same_time"))
def merging_reports(case):
    rs = [mk_report(r, case["tk"]) for r in case["reps"]]
    if len({frozenset(r.players) for r in rs[:2]}) > 1:
        ensure_raises(lambda: combine_collision_reports(rs[0], rs[1]), ValueError, "reports about different players merged")
        return "mismatch"
    if len({frozenset(r.players) for r in rs}) > 1:
        return None
    snap = copy.deepcopy(rs)
    out = rs[0]
    for r in rs[1:]:
        out = combine_collision_reports(out, r)
    first_t = min(r.at_time for r in rs)
    first = next(r for r in rs if r.at_time == first_t)
    ensure(out.at_time == first_t and out.impact_point.equals(first.impact_point) and np.array_equal(out.impact_normal, first.impact_normal), "contact data is not the earliest")
    ensure(set(out.players) == set(first.players), "participants")
    labels = ["merged"]
    two = [rs[0], rs[1]] if len(rs) == 2 else sorted(rs, key=lambda r: r.at_time)
    if rs[0].at_time > first_t:
        labels.append("late_first")
    if len({r.at_time for r in rs}) < len(rs):
        labels.append("same_time")
    if len(rs) > 2 and [r.at_time for r in rs] != sorted(r.at_time for r in rs):
        return labels  # a merged report only remembers its start: data after is defined for reports merged in order
    two = sorted(two, key=lambda r: r.at_time)
    for k in first.players:
        data = [r.players[k] for r in two if r.players[k] is not None]
        got = out.players[k]
        if len(data) < len(two):
            labels.append("unresolved")
        if not data:
            ensure(got is None, "data about an unresolved contact")
            continue
        ensure(got is not None, "data lost")
        ensure(got.at_fault == data[0].at_fault and got.footprint.equals(data[0].footprint), f"{k}: fault/footprint are not the earliest")
        ensure(np.array_equal(got.velocity[0], data[0].velocity[0]) and got.velocity[1] == data[0].velocity[1], f"{k}: velocity before is not the earliest")
        ensure(np.array_equal(got.velocity_after[0], data[-1].velocity_after[0]) and got.velocity_after[1] == data[-1].velocity_after[1], f"{k}: velocity after is not the latest")
        ensure([q for q, _ in got.locations] == [q for d in data for q, _ in d.locations], f"{k}: impact regions")
        ensure_close(got.energy_delta, sum(d.energy_delta for d in data), f"{k}: energy")
    for r, s in zip(rs, snap):  # inputs untouched
        for k in r.players:
            if s.players[k] is not None:
                ensure(len(r.players[k].locations) == len(s.players[k].locations) and r.players[k].energy_delta == s.players[k].energy_delta, "merging altered its arguments")
    return labels


@st.composite
def fault_case(draw):
    lanes = [dict(c=[draw(fl(-6, 6)), draw(fl(-6, 6))], h=draw(ANGLE), L=draw(fl(10, 60)), w=draw(fl(1.0, 3.0)), n=draw(st.integers(2, 6)))
             for _ in range(draw(st.integers(1, 4)))]
    q = st.tuples(st.integers(0, 3), fl(-0.2, 1.2), fl(-2.0, 2.0), st.one_of(fl(-0.4, 0.4), ANGLE)).map(list)
    return dict(lanes=lanes, impact=draw(q), players=draw(st.lists(q, min_size=1, max_size=3)))


def network_of(lanes):
    from commonroad.scenario.lanelet import Lanelet, LaneletNetwork

    net = LaneletNetwork()
    for i, ln in enumerate(lanes):
        xs = np.linspace(-ln["L"] / 2, ln["L"] / 2, ln["n"])
        mv = lambda y: np.array([rot(ln["h"], [x, y]) + np.array(ln["c"]) for x in xs])  # noqa: E731
        net.add_lanelet(Lanelet(left_vertices=mv(ln["w"]), center_vertices=mv(0.0), right_vertices=mv(-ln["w"]), lanelet_id=i + 1))
    return net


def lane_inside(ln, xy):
    """True / False / None (too close to tell)."""
    u = rot(-ln["h"], np.array(xy) - np.array(ln["c"]))
    mx, my = ln["L"] / 2 - abs(u[0]), ln["w"] - abs(u[1])
    if min(mx, my) > 2e-2:
        return True
    return False if min(mx, my) < -2e-2 else None


def at_fault(lanes, ip, xy, h):
    """True / False / None (too close to tell)."""
    at = [lane_inside(ln, ip) for ln in lanes]
    if None in at:
        return None
    legal = []
    for ln, hit in zip(lanes, at):
        if hit:
            d = abs((h - ln["h"] + math.pi) % (2 * math.pi) - math.pi)
            ins = lane_inside(ln, xy)
            legal.append(None if ins is None or abs(d - math.pi / 2) < 1e-3 else ins and d < math.pi / 2)
    return None if None in legal else not any(legal)


@st.composite
def crash_case(draw):
    lanes = [dict(c=[draw(fl(-3, 3)), draw(fl(-3, 3))], h=draw(ANGLE), L=draw(fl(10, 60)), w=draw(fl(1.0, 3.0)), n=draw(st.integers(2, 6)))
             for _ in range(draw(st.integers(0, 3)))]
    a, b = draw(model_case(span=2.0)), draw(model_case(span=2.0))
    if draw(st.integers(0, 2)) == 0:  # a body with a notch
        a = draw(model_case(fams=("dyn_obstacle",), span=2.0))
        b = draw(model_case(fams=("vehicle", "vehicle_dyn", "spaceship", "rocket"), span=2.0))
        k = draw(fl(0.8, 3.0))
        a["g"] = dict(m=400.0, Iz=300.0, shape=[[-1.5 * k, -k], [1.5 * k, -k], [1.5 * k, k], [draw(fl(-1, 1)) * k, draw(fl(-0.8, 0.5)) * k], [-1.5 * k, k]])
    return dict(lanes=lanes, a=a, b=b, t=draw(st.sampled_from(["0", "0.1", "0.7", "3", "25"])), swap=draw(st.booleans()), off=[draw(fl(-2.5, 2.5)), draw(fl(-2.5, 2.5))])


def energy_matches_velocities(rp, m, who):
    v0, v1 = np.asarray(rp.velocity[0], dtype=float), np.asarray(rp.velocity_after[0], dtype=float)
    ensure_close(rp.energy_delta, 0.5 * m * (float(v1 @ v1) - float(v0 @ v0)), f"the energy reported for {who} is not the one of the velocities reported", rtol=1e-9,
                 atol=1e-9 * m * (1 + float(v0 @ v0) + float(v1 @ v1)))


@st.composite
def obstacle_crash(draw):
    a = draw(model_case(span=2.0))
    kind = draw(st.sampled_from(["poly", "multi", "line", "ring", "lines"]))
    th, r = draw(ANGLE), draw(fl(0.3, 2.0))
    return dict(a=a, kind=kind, th=th, r=r, tilt=draw(fl(-1, 1)), far=[draw(fl(20, 30)), draw(fl(-5, 5))], t=draw(st.sampled_from(["0", "0.1", "3"])))


@subtest(P, obstacle_crash, quick=800, shards=2, need=("poly", "multi", "line", "resolved"))
def reports_of_crashes_with_obstacles(case):
    """The report names the regions of the player hit, the obstacle as it is, and velocities and energies which belong together."""
    from decimal import Decimal as D

    from dg_commons.sim.collision import EnvPlayer, resolve_collision_with_environment
    from dg_commons.sim.models.obstacles import StaticObstacle

    m = mk_model(case["a"])
    foot, mesh = m.get_footprint(), m.get_mesh()
    x = case["a"]["x"]
    far = np.array(case["far"])
    box = Polygon([(0, -4), (3, -4), (3, 4), (0, 4)])
    base = {
        "poly": box,
        "multi": MultiPolygon([box, affinity.translate(box, *far)]),
        "line": LineString([(0, -5), (0, 5)]),
        "ring": LinearRing([(0, -5), (0, 5), (9, 5), (9, -5)]),
        "lines": MultiLineString([[(0, -5), (0, 5)], [tuple(far), tuple(far + 3)]]),
    }[case["kind"]]
    shape_ = affinity.rotate(base, case["tilt"], origin=(0, 0), use_radians=True)
    shape_ = affinity.translate(affinity.rotate(affinity.translate(shape_, case["r"], 0), case["th"], origin=(0, 0), use_radians=True), x["x"], x["y"])
    if not foot.intersects(shape_):
        return None
    v0 = m.get_velocity(in_model_frame=False)
    geometry_known = True
    try:
        compute_impact_geometry(foot, shape_)
    except CollisionException:
        geometry_known = False
    try:
        r = resolve_collision_with_environment("A", m, StaticObstacle(shape_), D(case["t"]))
    except CollisionException:
        ensure(not geometry_known, "a contact whose geometry is known is not resolved")
        return "unsupported"
    ensure(geometry_known, "resolved without a contact geometry")
    if r is None:
        return "separating"
    ensure(r.at_time == D(case["t"]) and set(r.players) == {"A", EnvPlayer}, "time or participants")
    rp, re_ = r.players["A"], r.players[EnvPlayer]
    ensure(rp.footprint.equals(foot), "footprint of the player")
    sure = {l for l, s in mesh.items() if s.buffer(-1e-6).intersects(shape_)}
    poss = {l for l, s in mesh.items() if s.buffer(1e-6).intersects(shape_)}
    got = [l for l, _ in rp.locations]
    ensure(sure <= set(got) <= poss and len(set(got)) == len(got), "regions which were hit", got=got, expected=sorted(sure))
    ensure_close(np.asarray(rp.velocity[0], dtype=float), v0[0], "velocity before", atol=1e-12)
    ensure_close(float(rp.velocity[1]), v0[1], "yaw rate before", atol=1e-12)
    energy_matches_velocities(rp, m.model_geometry.m, "the player")
    ensure(re_.energy_delta == 0 and re_.at_fault is False and rp.at_fault is True, "the environment stands still and is not at fault")
    if case["kind"] in ("poly", "multi"):
        ensure(re_.footprint.equals(shape_), "the footprint of the environment is not the obstacle", got=re_.footprint.wkt[:200])
    else:
        ensure(re_.footprint.buffer(1e-6).contains(shape_) and shape_.buffer(0.05).contains(re_.footprint), "the footprint of the environment is not close to the obstacle")
    return "resolved", case["kind"]


@subtest(P, crash_case, quick=1600, shards=4, need=("fault", "no_fault", "road", "no_road", "partial"))
def reports_of_crashes_on_roads(case):
    """The report names the regions hit, the footprints and who was at fault, at whatever time the collision happens."""
    from decimal import Decimal as D

    from commonroad.scenario.scenario import Scenario

    from dg_commons import DgSampledSequence
    from dg_commons.sim.agents.agent import NPAgent
    from dg_commons.sim.collision import resolve_collision
    from dg_commons.sim.scenarios.structures import DgScenario
    from dg_commons.sim.simulator import SimContext
    from dg_commons.sim.simulator_structures import SimParameters

    lanes = case["lanes"]
    scen = None
    if lanes:
        scen = Scenario(dt=0.1)
        scen.add_objects(network_of(lanes))
    bm = copy.deepcopy(case["b"])
    bm["x"]["x"], bm["x"]["y"] = case["a"]["x"]["x"] + case["off"][0], case["a"]["x"]["y"] + case["off"][1]
    models = {"A": mk_model(case["a"]), "B": mk_model(bm)}
    specs = {"A": case["a"], "B": bm}
    foot = {k: m.get_footprint() for k, m in models.items()}
    if not foot["A"].intersects(foot["B"]):
        return None
    mesh = {k: m.get_mesh() for k, m in models.items()}
    ag = NPAgent(DgSampledSequence([0], [None]))
    ctx = SimContext(dg_scenario=DgScenario(scen), models=models, players={k: ag for k in models}, param=SimParameters())
    ctx.time = D(case["t"])
    first, second = ("B", "A") if case["swap"] else ("A", "B")
    try:
        r = resolve_collision(first, second, ctx)
    except CollisionException:
        return None
    if r is None:
        return None
    ensure(r.at_time == D(case["t"]) and set(r.players) == {"A", "B"}, "time or participants")
    labels = {"road" if lanes else "no_road"}
    ip = np.array(r.impact_point.coords[0])
    for k, o in (("A", "B"), ("B", "A")):
        rp = r.players[k]
        ensure(rp.footprint.equals(foot[k]), f"footprint of {k}")
        sure = {l for l, s in mesh[k].items() if s.buffer(-1e-6).intersects(foot[o])}
        poss = {l for l, s in mesh[k].items() if s.buffer(1e-6).intersects(foot[o])}
        got = [l for l, _ in rp.locations]
        ensure(sure <= set(got) <= poss and len(set(got)) == len(got), f"regions of {k} which were hit", got=got, expected=sorted(sure))
        ensure(all(s.equals(mesh[k][l]) for l, s in rp.locations), f"shapes of the regions of {k}")
        energy_matches_velocities(rp, models[k].model_geometry.m, k)
        if len(got) < len(mesh[k]):
            labels.add("partial")
        if not lanes:
            ensure(rp.at_fault is False, "somebody is at fault without any road")
            continue
        x = specs[k]["x"]
        want = at_fault(lanes, ip, [x["x"], x["y"]], x["psi"])
        if want is not None:
            ensure(bool(rp.at_fault) == want, f"{k} at fault in the report", got=rp.at_fault, expected=want)
            labels.add("fault" if want else "no_fault")
    return tuple(sorted(labels))


@subtest(P, fault_case, quick=600, thorough=6000, need=("fault", "no_fault", "no_lane"))
def fault_by_legal_lane_pose(case):
    """At fault exactly when the pose is on none of the lanes through the contact point, inside it and in its direction."""
    from geometry import SE2_from_xytheta

    lanes = case["lanes"]
    net, inside = network_of(lanes), lane_inside

    def pose(q):
        ln = lanes[q[0] % len(lanes)]
        return rot(ln["h"], [(q[1] - 0.5) * ln["L"], q[2] * ln["w"]]) + np.array(ln["c"]), ln["h"] + q[3]

    ip, _ = pose(case["impact"])
    at = [inside(ln, ip) for ln in lanes]
    if None in at:
        return None
    poses, want = {}, {}
    for i, q in enumerate(case["players"]):
        xy, h = pose(q)
        poses[f"P{i}"] = SE2_from_xytheta([xy[0], xy[1], h])
        legal = []
        for ln, hit in zip(lanes, at):
            if hit:
                d = abs((h - ln["h"] + math.pi) % (2 * math.pi) - math.pi)
                ins = inside(ln, xy)
                legal.append(None if ins is None or abs(d - math.pi / 2) < 1e-3 else ins and d < math.pi / 2)
        want[f"P{i}"] = None if None in legal else not any(legal)
    got = check_who_is_at_fault(poses, Point(*ip), net)
    ensure(set(got) == set(poses), "players of the verdict")
    out = [] if any(at) else ["no_lane"]
    for k, w in want.items():
        if w is not None:
            ensure(bool(got[k]) == w, f"{k} at fault", got=got[k], expected=w)
            out.append("fault" if w else "no_fault")
    return out
