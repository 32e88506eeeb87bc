from __future__ import annotations

from pbt import crshim  # noqa: F401 (first)
import math

import numpy as np
from geometry import SE2_from_xytheta, xytheta_from_SE2
from hypothesis import strategies as st
from shapely import LinearRing, affinity
from shapely.geometry import LineString, MultiPoint, MultiPolygon, Point, Polygon

from commonroad_dc.pycrcc import Circle as CRCircle
from dg_commons import PoseState, SE2Transform
from dg_commons.geo import (SE2_apply_T2, SE2_interpolate, apply_SE2_to_shapely_geo, get_distance_SE2, norm_between_SE2value,
                            relative_pose, shapely2crPolygons, transform_xy)
from dg_commons.planning import Trajectory
from dg_commons.sim.models.vehicle import VehicleState
from pbt.core import ensure, ensure_close, ensure_raises, subtest
from pbt.gens import BIG_ANGLE, fl, nice, se2, seqs, ts_decode, wrap

P = "C04"
RULE = ("random poses (translations up to 50 m, angles up to +-30 rad with multiples of pi/2), points, polygons (also concave), "
        "lines, trajectories; every case is non-trivial unless its pose is the identity; labels name the case class")


def M(p):
    return SE2_from_xytheta(p)


def ref(p, pt):
    z = complex(pt[0], pt[1]) * complex(math.cos(p[2]), math.sin(p[2])) + complex(p[0], p[1])
    return z.real, z.imag


def comp(a, b):
    x, y = ref(a, b[:2])
    return [x, y, a[2] + b[2]]


def inv(a):
    z = -complex(a[0], a[1]) * complex(math.cos(a[2]), -math.sin(a[2]))
    return [z.real, z.imag, -a[2]]


def _twist(p0, p1, sign=0):
    """(v, w): body twist which takes p0 to p1 in unit time (shortest rotation; at pi the sign is chosen)."""
    r = comp(inv(p0), p1)
    w = wrap(r[2])
    if sign:
        w = math.copysign(abs(w), sign)
    if abs(w) < 1e-7:
        return complex(r[0], r[1]), w
    # d = V v,  V = (sin w + i (1 - cos w)) / w
    V = complex(math.sin(w), 2 * math.sin(w / 2) ** 2) / w
    return complex(r[0], r[1]) / V, w


def _follow(p0, v, w, a):
    if abs(w) < 1e-7:
        d, th = v * a, w * a
    else:
        th = w * a
        d = v * complex(math.sin(th), 2 * math.sin(th / 2) ** 2) / w
    return comp(p0, [d.real, d.imag, th])


def same_pose(q, p, tol=1e-6):
    e = M(p)
    return bool(np.all(np.abs(np.asarray(q) - e) <= tol * (1 + abs(p[0]) + abs(p[1]))))


@st.composite
def pair(draw):
    p0 = draw(se2(big=True))
    p1 = draw(se2(big=True))
    mode = draw(st.sampled_from(["free", "same_angle", "same_place", "opposite", "small"]))
    if mode == "same_angle":
        p1[2] = p0[2]
    elif mode == "same_place":
        p1[:2] = p0[:2]
    elif mode == "opposite":
        p1[2] = p0[2] + math.pi
    elif mode == "small":
        p1 = [p0[0] + draw(fl(-0.5, 0.5)), p0[1] + draw(fl(-0.5, 0.5)), p0[2] + draw(fl(-0.05, 0.05))]
    return dict(p0=p0, p1=p1, a=draw(st.one_of(fl(0, 1), st.sampled_from([0.0, 0.5, 1.0]), fl(-1, 2), fl(-150, 150))), b=draw(fl(0, 1)),
                f=draw(se2(big=True)), mode=mode)


@subtest(P, pair, quick=2000, need=("free", "opposite", "same_angle"), shards=2)
def interpolation_is_a_constant_twist(c):
    p0, p1, a = c["p0"], c["p1"], c["a"]
    q0, q1 = M(p0), M(p1)
    k0, k1 = q0.copy(), q1.copy()
    q = SE2_interpolate(q0, q1, a)
    ensure(np.array_equal(q0, k0) and np.array_equal(q1, k1), "the given poses were changed")
    w = abs(wrap(p1[2] - p0[2]))
    near_pi = w > math.pi - 1e-5
    tol = 1e-6 if w < math.pi - 1e-3 else 1e-4
    cands = [_follow(p0, *_twist(p0, p1), a)] + ([_follow(p0, *_twist(p0, p1, s), a) for s in (1, -1)] if near_pi else [])
    if abs(a) > 2:
        if w > 3:
            return None
        tol *= abs(a)
    ensure(any(same_pose(q, x, tol) for x in cands), "not on the constant twist motion", got=q.tolist(), expected=cands)
    ensure(same_pose(SE2_interpolate(q0, q1, 0), p0), "does not start at the first pose")
    ensure(same_pose(SE2_interpolate(q0, q1, 1), p1, tol), "does not end at the second pose")
    if not near_pi and abs(a) <= 2:
        g = M(c["f"])
        lhs = SE2_interpolate(g @ q0, g @ q1, a)
        ensure_close(lhs, g @ q, "depends on the reference frame", rtol=1e-5, atol=1e-4)
        # two steps along the motion are one step
        if 0 <= a <= 1:
            ensure_close(SE2_interpolate(q0, q, c["b"]), SE2_interpolate(q0, q1, a * c["b"]), "partial motions do not add up", rtol=1e-5, atol=1e-4)
        # symmetry
        ensure_close(SE2_interpolate(q1, q0, 1 - a), q, "the reversed motion differs", rtol=1e-5, atol=1e-4)
        v, _ = _twist(p0, p1)
        ensure_close(get_distance_SE2(q0, q1), abs(v), "distance is not the length of the constant twist motion", rtol=1e-5, atol=1e-5)
    for o, e in ((None, math.hypot(p1[0] - p0[0], p1[1] - p0[1])), (1, abs(p1[0] - p0[0]) + abs(p1[1] - p0[1])),
                 (np.inf, max(abs(p1[0] - p0[0]), abs(p1[1] - p0[1])))):
        ensure_close(norm_between_SE2value(q0, q1, o), e, f"norm {o} between poses")
    ensure_close(norm_between_SE2value(q0, q1), norm_between_SE2value(q1, q0), "norm is not symmetric")
    return c["mode"]


@subtest(P, pair, quick=1500)
def relative_poses_and_conversions(c):
    p0, p1 = c["p0"], c["p1"]
    r = relative_pose(M(p0), M(p1))
    ensure_close(M(p0) @ r, M(p1), "base composed with the relative pose is not the pose", atol=1e-7)
    e = comp(inv(p0), p1)
    ensure(same_pose(r, e, 1e-8), "relative pose", got=np.asarray(r).tolist(), expected=e)
    g = M(c["f"])
    ensure_close(relative_pose(g @ M(p0), g @ M(p1)), r, "relative pose depends on the reference frame", atol=1e-7)
    t = SE2Transform(p0[:2], p0[2])
    ensure_close(t.as_SE2(), M(p0), "as_SE2", atol=1e-12)
    src = [p0[0], p0[1]]
    t2 = SE2Transform(src, p0[2])
    src[0] += 1
    arr = np.array(p0[:2])
    t3 = SE2Transform(arr, p0[2])
    arr[0] += 1
    ensure(t2.p[0] == p0[0] and t3.p[0] == p0[0], "the transform follows later changes of the caller's data")
    b = SE2Transform.from_SE2(t.as_SE2())
    ensure_close(b.p, p0[:2], "position after a trip through a matrix", atol=1e-12)
    ensure_close(wrap(b.theta - p0[2]), 0, "angle after a trip through a matrix", atol=1e-9)
    s = SE2Transform.from_PoseState(PoseState(*p0))
    ensure(list(s.p) == p0[:2] and s.theta == p0[2], "from_PoseState", got=repr(s))
    i = SE2Transform.identity()
    ensure(np.array_equal(i.as_SE2(), np.eye(3)), "identity")
    return c["mode"]


PT = st.tuples(nice(-30, 30), nice(-30, 30)).map(list)


@st.composite
def points(draw):
    return dict(p=draw(se2(big=True)), q=draw(se2(big=True)), pts=draw(st.lists(PT, min_size=1, max_size=8)),
                as_=draw(st.sampled_from(["list", "tuple", "array"])))


@subtest(P, points, quick=1500)
def points_move_rigidly(c):
    p, q, pts = c["p"], c["q"], c["pts"]
    exp = [ref(p, x) for x in pts]
    conv = dict(list=list, tuple=tuple, array=np.array)[c["as_"]]
    one = [SE2_apply_T2(M(p), conv(x)) for x in pts]
    ensure_close(one, exp, "SE2_apply_T2", atol=1e-9)
    data = [tuple(x) for x in pts] if c["as_"] != "array" else np.array(pts)
    many = transform_xy(M(p), data)
    ensure(isinstance(many, tuple) and len(many) == len(pts), "transform_xy keeps the number of points")
    ensure_close(np.array(many), exp, "transform_xy", atol=1e-9)
    ensure_close(np.array(transform_xy(M(q), many)), np.array(transform_xy(M(q) @ M(p), data)), "composition", atol=1e-8)
    g = apply_SE2_to_shapely_geo(MultiPoint(pts), M(p))
    ensure_close([(a.x, a.y) for a in g.geoms], exp, "shapely points", atol=1e-9)
    for i in range(1, len(pts)):
        d0 = math.dist(pts[0], pts[i])
        ensure_close(math.dist(one[0], one[i]), d0, "distance changed", atol=1e-8)
    return "points"


@st.composite
def star(draw, big=10):
    """A simple (star-shaped around its origin, mostly concave) polygon with optional hole."""
    n = draw(st.integers(3, 9))
    w = draw(st.lists(fl(0.15, 1), min_size=n, max_size=n))
    r = draw(st.lists(fl(0.4, big), min_size=n, max_size=n))
    return dict(w=w, r=r, at=draw(se2()), hole=draw(st.sampled_from([0, 0, 0.3])))


def mk_star(s):
    tot = sum(s["w"])
    a, pts = 0.0, []
    n = len(s["w"])
    if max(s["w"]) / tot > 0.45:  # keep the origin inside
        s = dict(s, w=[1.0] * n)
        tot = n
    for w, r in zip(s["w"], s["r"]):
        pts.append(ref(s["at"], (r * math.cos(a), r * math.sin(a))))
        a += 2 * math.pi * w / tot
    h = []
    if s["hole"]:
        c = s["at"][:2]
        h = [[(c[0] + s["hole"] * (x - c[0]), c[1] + s["hole"] * (y - c[1])) for x, y in pts]]
    return Polygon(pts, h)


@st.composite
def shapes(draw):
    return dict(p=draw(se2(big=True)), q=draw(se2(big=True)), s=draw(star()), line=draw(st.lists(PT, min_size=2, max_size=6)))


@subtest(P, shapes, quick=800)
def shapes_move_rigidly(c):
    p, q = c["p"], c["q"]
    poly, line, pt = mk_star(c["s"]), LineString(c["line"]), Point(c["line"][0])
    ring = LinearRing(poly.exterior.coords)
    lab = []
    for g in (poly, line, pt, ring, MultiPolygon([poly])):
        m = apply_SE2_to_shapely_geo(g, M(p))
        ensure(m.geom_type == g.geom_type, "kind of geometry changed", got=m.geom_type)
        ex = affinity.translate(affinity.rotate(g, p[2], origin=(0, 0), use_radians=True), p[0], p[1])
        ensure(m.equals_exact(ex, 1e-7), "not the rigid motion", geom=g.geom_type)
        ensure_close(m.length, g.length, "length changed", rtol=1e-8)
        ensure_close(m.area, g.area, "area changed", rtol=1e-7)
        if g.geom_type == "Polygon":
            ensure(len(m.interiors) == len(g.interiors), "holes changed")
            ensure(LinearRing(m.exterior.coords).is_ccw == LinearRing(g.exterior.coords).is_ccw, "orientation flipped")
        two = apply_SE2_to_shapely_geo(m, M(q))
        ensure(two.equals_exact(apply_SE2_to_shapely_geo(g, M(q) @ M(p)), 1e-6), "composition of poses is not successive application")
        back = apply_SE2_to_shapely_geo(m, np.linalg.inv(M(p)))
        ensure(back.equals_exact(g, 1e-6), "the inverse pose does not undo the motion")
    return "hole" if c["s"]["hole"] else "plain"


@st.composite
def trajs(draw):
    s = draw(seqs(1, 6, values=st.lists(fl(-20, 20), min_size=5, max_size=5)))
    s["p"] = draw(se2(big=True))
    s["q"] = draw(se2(big=True))
    return s


@subtest(P, trajs, quick=600)
def trajectories_move_rigidly(c):
    ts = ts_decode(c["kind"], c["ts"])
    xs = [VehicleState(x=v[0], y=v[1], psi=v[2], vx=v[3], delta=v[4] / 20) for v in c["vals"]]
    tr = Trajectory(ts, xs)
    p, q = c["p"], c["q"]
    out = tr.apply_SE2transform(SE2Transform(p[:2], p[2]))
    ensure(isinstance(out, DgSeq), "not a sequence", got=type(out).__name__)
    ensure(list(out.timestamps) == ts, "timestamps changed")
    ensure(list(tr.values) == xs, "the input trajectory changed")
    for x, y in zip(xs, out.values):
        ex = comp(p, [x.x, x.y, x.psi])
        ensure_close([y.x, y.y], ex[:2], "position", atol=1e-8)
        ensure_close(wrap(y.psi - ex[2]), 0, "heading does not turn by the angle of the pose", atol=1e-8)
        ensure(y.vx == x.vx and y.delta == x.delta, "speed or steering changed")
    for pose, x in zip(tr.as_path(), xs):
        ensure(tuple(pose.p) == (x.x, x.y) and pose.theta == x.psi, "as_path")
    ensure(len(tr.as_path()) == len(xs), "as_path length")
    a = Trajectory(out.timestamps, out.values).apply_SE2transform(SE2Transform(q[:2], q[2]))
    b = tr.apply_SE2transform(SE2Transform.from_SE2(M(q) @ M(p)))
    for x, y in zip(a.values, b.values):
        ensure_close([x.x, x.y], [y.x, y.y], "composition", atol=1e-7)
        ensure_close(wrap(x.psi - y.psi), 0, "composition of headings", atol=1e-7)
    return "several" if len(xs) > 1 else "one"


from dg_commons import DgSampledSequence as DgSeq  # noqa: E402


@st.composite
def cr_case(draw):
    kind = draw(st.sampled_from(["polygon", "line", "ring"]))
    c = dict(kind=kind, n=draw(st.integers(0, 2**31)))
    if kind == "line":
        c["line"] = draw(st.lists(PT, min_size=2, max_size=5))
    else:
        c["s"] = draw(star())
        c["s"]["hole"] = 0  # holes are not represented by the collision library
    return c


@subtest(P, cr_case, quick=800, need=("polygon:in", "polygon:out", "line:in", "ring:in"))
def collision_library_shapes_cover_the_same_points(c):
    rng = np.random.default_rng(c["n"])
    if c["kind"] == "line":
        g = LineString(c["line"])
        if g.length < 1e-3 or any(math.dist(a, b) < 1e-3 for a, b in zip(c["line"], c["line"][1:])):
            return None
    else:
        poly = mk_star(c["s"])
        g = poly if c["kind"] == "polygon" else LinearRing(poly.exterior.coords)
    crs = shapely2crPolygons(g)
    ensure(isinstance(crs, list) and len(crs) >= 1, "a list of shapes")
    r = 0.02
    fat = 0.0 if c["kind"] == "polygon" else 0.01
    minx, miny, maxx, maxy = g.bounds
    labels = set()
    pts = rng.uniform([minx - 1, miny - 1], [maxx + 1, maxy + 1], size=(12, 2)).tolist()
    bd = g.exterior if c["kind"] == "polygon" else g
    for f in rng.uniform(0, 1, 8):  # points near the boundary
        b = bd.interpolate(f, normalized=True)
        d = rng.normal(size=2)
        d = d / np.linalg.norm(d) * rng.choice([0.0, 0.005, 0.05, 0.1])
        pts.append([b.x + d[0], b.y + d[1]])
    for x, y in pts:
        d = g.distance(Point(x, y))
        hit = any(k.collide(CRCircle(r, x, y)) for k in crs)
        if d <= fat * 0.9 + r - 1e-3:
            ensure(hit, "a covered point is not covered in the collision library", at=(x, y), dist=d)
            labels.add(c["kind"] + ":in")
        elif d >= fat + r + 1e-3:
            ensure(not hit, "an uncovered point is covered in the collision library", at=(x, y), dist=d)
            labels.add(c["kind"] + ":out")
    ensure_raises(lambda: shapely2crPolygons(Point(0, 0)), ValueError, "points have no representation")
    return labels
