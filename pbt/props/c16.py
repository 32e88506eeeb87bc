from __future__ import annotations

import math

import numpy as np
from commonroad.scenario.lanelet import Lanelet, LaneletNetwork
from geometry import SE2_from_xytheta, xytheta_from_SE2
from hypothesis import strategies as st
from shapely.geometry import Point, Polygon

from dg_commons import SE2Transform
from dg_commons.maps.lanes import DgLanelet, LaneCtrPoint
from pbt.core import ensure, ensure_close, subtest
from pbt.gens import BIG_ANGLE, fl, nice, se2, wrap
from pbt.lanes import RefLane, comp, lane_points, mk_lane, ref_lane, rel, rot, smooth_lane, vertices

P = "C16"
RULE = ("random lanes (2-12 control points; straight, arcs, wavy with continuous tangents; also rough polylines with arbitrary headings "
        "and spacing), poses placed by lane coordinates or freely around; labels: position class (inside/outside/before/after), seam = "
        "a heading across +-pi")
ASSUMPTIONS = [
    "the closest-point search is documented as local: closeness is required for lanes which turn at most 1.2 rad with the point nearer than 0.6 radius of curvature; other laws hold for every lane",
    "at exactly the lane's end (along = length) the inside/after flags are not judged",
]


@st.composite
def rough_lane(draw):
    n = draw(st.integers(2, 9))
    pts = [[draw(fl(-50, 50)), draw(fl(-50, 50)), draw(BIG_ANGLE)]]
    for _ in range(n - 1):
        d = draw(st.one_of(fl(0.2, 8), fl(0.2, 8), fl(0.02, 0.2)))
        b = pts[-1][2] + draw(fl(-0.8, 0.8))
        pts.append([pts[-1][0] + d * math.cos(b), pts[-1][1] + d * math.sin(b), pts[-1][2] + draw(fl(-2.5, 2.5))])
    return dict(pts=pts, r=draw(st.lists(fl(0.1, 4), min_size=n, max_size=n)), raw=draw(st.booleans()))


def mk_rough(s):
    return DgLanelet([LaneCtrPoint(SE2Transform(p[:2], p[2] if s["raw"] else wrap(p[2])), r) for p, r in zip(s["pts"], s["r"])]), RefLane(s["pts"], s["r"])


@st.composite
def any_lane(draw):
    return draw(st.one_of(smooth_lane(max_turn=9, kmax=0.3), rough_lane(), rough_lane(), smooth_lane(max_turn=9, kmax=0.3), smooth_lane(nmax=30, seg=(0.02, 0.3))))


def both(s):
    return mk_rough(s) if "pts" in s else (mk_lane(s), ref_lane(s))


def where(ref, u):
    """A parameter value from a number in [-0.5, 1.5] (0..1 is the lane)."""
    n = ref.n - 1
    if u < 0:
        return u * 8
    if u > 1:
        return n + (u - 1) * 8
    return u * n


U = st.one_of(fl(-0.5, 1.5), fl(0, 1), fl(0, 1), st.sampled_from([0.0, 1.0, 0.5]))


@st.composite
def coord_case(draw):
    return dict(lane=draw(any_lane()), u=draw(st.lists(st.one_of(U, st.sampled_from([-7.0, -15.0, 8.0, 16.5]), st.integers(0, 12).map(lambda i: ["i", i])), min_size=1, max_size=6)), first=draw(st.integers(0, 2)))


@subtest(P, coord_case, quick=1500, need=("inside", "before", "after", "node"), shards=2)
def coordinates_follow_the_control_points(c):
    lane, ref = both(c["lane"])
    n = ref.n - 1
    labels = set()
    if c["first"] == 1:
        lane.lane_profile()
    elif c["first"] == 2:
        lane.get_lane_length()
    ensure_close(lane.get_lane_length(), ref.L, "lane length", atol=1e-6, rtol=1e-7)
    ls = lane.get_lane_lengths()
    ensure_close(ls, ref.len, "segment lengths", atol=1e-6, rtol=1e-7)
    for i, cp in enumerate(lane.get_control_points()):
        ensure_close(cp.q.p, ref.q[i][:2], "control points")
    prev = []
    for u in c["u"]:
        beta = min(u[1], n) if isinstance(u, list) else where(ref, u)
        node = float(beta).is_integer()
        labels.add("node" if node and 0 <= beta <= n else ("before" if beta < 0 else "after" if beta > n else "inside"))
        q = lane.center_point(beta)
        ex = ref.center(beta)
        ensure_close(q, SE2_from_xytheta(ex), "centre point", atol=2e-5, rtol=1e-7, beta=beta)
        ensure_close(lane.radius(beta), ref.radius(beta), "radius", beta=beta)
        a = lane.along_lane_from_beta(beta)
        ensure_close(a, ref.along(beta), "distance along the lane", atol=1e-5, rtol=1e-7, beta=beta)
        ensure_close(lane.beta_from_along_lane(a), beta, "beta and along are not mutually inverse", atol=1e-6, beta=beta)
        a2 = ref.along(beta)
        ensure_close(lane.along_lane_from_beta(lane.beta_from_along_lane(a2)), a2, "along and beta are not mutually inverse", atol=1e-6)
        prev.append((beta, a))
        # the fast variant: straight between the points, headings turn the short way
        f = lane.center_point_fast_SE2Transform(beta)
        if 0 <= beta <= n and not node:
            i, al = ref.split(beta)
            q0, q1 = ref.q[i], ref.q[i + 1]
            ensure_close(f.p, [q0[0] * (1 - al) + q1[0] * al, q0[1] * (1 - al) + q1[1] * al], "fast centre point")
            th = q0[2] + al * wrap(q1[2] - q0[2])
            if abs(wrap(q0[2])) < 3.15 and abs(wrap(q0[2]) + wrap(q1[2] - q0[2])) > math.pi:
                labels.add("seam")
        else:
            ensure_close(f.p, ex[:2], "fast centre point", atol=2e-5)
            th = ex[2]
        ensure_close(wrap(f.theta - th), 0, "heading of the fast centre point", key="fast_heading", atol=1e-6, beta=beta)
    prev.sort()
    for (b0, a0), (b1, a1) in zip(prev, prev[1:]):
        ensure(a1 >= a0 - 1e-9 and (a1 > a0 or b1 - b0 < 1e-6), "the distance along the lane is not increasing", betas=(b0, b1), along=(a0, a1))
    return labels


@st.composite
def pose_case(draw):
    lane = draw(st.one_of(smooth_lane(), smooth_lane(), smooth_lane(), smooth_lane(nmax=30, seg=(0.05, 0.5))))
    return dict(lane=lane, u=draw(U), lat=draw(st.one_of(fl(-1, 1), fl(-2, 2), st.sampled_from([0.0, 0.99, -0.99, 1.01]))), hd=draw(BIG_ANGLE),
                move=draw(se2(big=True)), tol=draw(st.sampled_from([None, 1e-4, 1e-6])))


def _kmax(spec):
    return max([abs(k) for _, k in spec["segs"]] + [1e-9])


@subtest(P, pose_case, quick=1200, need=("inside", "before", "after", "outside_left", "outside_right", "wrong_way"), shards=4)
def poses_are_located_and_rebuilt(c):
    spec = c["lane"]
    lane, ref = mk_lane(spec), ref_lane(spec)
    beta = where(ref, c["u"])
    lat = c["lat"] * ref.radius(beta)
    lat = max(-0.6 / _kmax(spec), min(0.6 / _kmax(spec), lat))
    base = ref.center(beta)
    pose = comp(base, [0, lat, c["hd"]])
    q = SE2_from_xytheta(pose)
    along = ref.along(beta)
    kw = {} if c["tol"] is None else dict(tol=c["tol"])
    tol = c["tol"] or 1e-3
    lp = lane.lane_pose_from_SE2_generic(q, **kw)
    lp2 = lane.lane_pose_from_SE2Transform(SE2Transform(pose[:2], pose[2]), **kw)
    # slack of the search: tolerance on beta times the length of a segment
    slack = 2 * tol * (abs(beta) + 1) * max(ref.len + [1.0]) + 1e-5
    ensure_close(lp2.along_lane, lp.along_lane, "the two entry points differ", atol=slack)
    _near = dict(along=lp.along_lane, expected=along, lateral=lp.lateral, expected_lateral=lat)
    ensure(abs(lp.along_lane - along) <= slack * 2.5, "coordinate along the lane", key="along", **_near)
    ensure(abs(lp.lateral - lat) <= slack * slack + slack * (0.01 + _kmax(spec) * (abs(lat) + slack)) + 1e-6, "lateral offset", **_near)
    ensure(abs(wrap(lp.relative_heading - c["hd"])) <= 2.5 * slack * _kmax(spec) + 1e-6, "relative heading", got=lp.relative_heading, expected=c["hd"])
    # rebuild the pose from the numbers
    reb = comp(ref.center(ref.beta(lp.along_lane)), [0, lp.lateral, lp.relative_heading])
    ensure(math.dist(reb[:2], pose[:2]) <= 2.5 * slack, "coordinates do not rebuild the position", got=reb, expected=pose)
    ensure(abs(wrap(reb[2] - pose[2])) <= 1e-6, "coordinates do not rebuild the heading", got=reb, expected=pose)
    labels = _flags(lp, ref)
    # the scalar entry points
    p = np.array(pose[:2])
    for fast in (False, True):
        a = lane.along_lane_from_T2value(p, tol=1e-5, fast=fast)
        chord = max((l * l * abs(k) / 8 for l, k in spec["segs"]), default=0)
        ensure(abs(a - along) <= 0.02 + 1e-3 * ref.L + (3 * (chord + _kmax(spec) * max(ref.len) * (abs(lat) + chord)) if fast else 0), "along_lane_from_T2value",
               key=f"along_fast_{fast}", got=a, expected=along)
    b, cq = lane.find_along_lane_closest_point(p, tol=1e-6)
    ensure_close(cq, SE2_from_xytheta(ref.center(b)), "closest point is not the centre point of its parameter", atol=1e-4)
    b, cq = lane.find_along_lane_closest_point_fast(p, tol=1e-6)
    f = lane.center_point_fast_SE2Transform(b)
    ensure_close(xytheta_from_SE2(cq)[:2], f.p, "fast closest point is not the fast centre point of its parameter", atol=1e-6)
    chord = max((l * l * abs(k) / 8 for l, k in spec["segs"]), default=0)
    m = 0.03 + chord * 1.1
    r = ref.radius(beta)
    if abs(lat) < r - m and 0.02 * ref.L + 0.05 < along < ref.L * 0.98 - 0.05:
        ensure(bool(lane.is_inside_from_T2value(p)), "a point of the lane is not inside", lat=lat, r=r, along=along)
    elif abs(lat) > max(ref.r) + m or along < -0.1 or along > ref.L + 0.1:
        ensure(not lane.is_inside_from_T2value(p), "a point off the lane is inside", lat=lat, r=r, along=along, L=ref.L)
    # moving everything rigidly changes nothing but coordinates
    lm = mk_lane(spec, c["move"]).lane_pose_from_SE2_generic(SE2_from_xytheta(comp(c["move"], pose)), tol=1e-6)
    l0 = lane.lane_pose_from_SE2_generic(q, tol=1e-6)
    ensure(abs(lm.along_lane - l0.along_lane) < 1e-3 * (1 + ref.L) + 1e-3, "depends on the reference frame (along)", a=lm.along_lane, b=l0.along_lane)
    ensure(abs(lm.lateral - l0.lateral) < 2e-3 and abs(wrap(lm.relative_heading - l0.relative_heading)) < 2e-3, "depends on the reference frame (lateral)")
    mv = comp(c["move"], [*l0.center_point.p, l0.center_point.theta])
    ensure(math.dist(lm.center_point.p, mv[:2]) < 2e-3 * (1 + ref.L) and abs(wrap(lm.center_point.theta - mv[2])) < 2e-3, "centre point does not move along")
    return labels


def _flags(lp, ref):
    """Flags and distances agree with along/lateral/heading."""
    r = ref.radius(ref.beta(lp.along_lane))
    labels = set()
    e = 1e-6
    ensure_close(lp.lateral_left, r, "left boundary", atol=1e-5)
    ensure_close(lp.lateral_right, -r, "right boundary", atol=1e-5)
    ensure_close(lp.distance_from_left, abs(r - lp.lateral), "distance from left", atol=1e-5)
    ensure_close(lp.distance_from_right, abs(-r - lp.lateral), "distance from right", atol=1e-5)
    ensure_close(lp.distance_from_center, abs(lp.lateral), "distance from centre", atol=1e-9)
    if abs(abs(lp.lateral) - r) > 1e-5:
        ensure(bool(lp.outside_left) == (lp.lateral > r) and bool(lp.outside_right) == (lp.lateral < -r), "outside left/right", lateral=lp.lateral, r=r)
        ensure(bool(lp.lateral_inside) == (abs(lp.lateral) <= r), "lateral_inside", lateral=lp.lateral, r=r)
        labels.add("outside_left" if lp.lateral > r else "outside_right" if lp.lateral < -r else "lateral_inside")
    if (abs(lp.along_lane) > e or lp.along_lane == 0) and abs(lp.along_lane - ref.L) > 1e-5:
        ensure(bool(lp.along_inside) == (0 <= lp.along_lane < ref.L), "along_inside", along=lp.along_lane, L=ref.L)
        ensure(bool(lp.along_before) == (lp.along_lane < 0), "along_before", along=lp.along_lane, L=ref.L)
        ensure(bool(lp.along_after) == (lp.along_lane > ref.L), "along_after", along=lp.along_lane, L=ref.L)
        labels.add("before" if lp.along_lane < 0 else "after" if lp.along_lane > ref.L else "inside")
    ensure(bool(lp.inside) == (bool(lp.lateral_inside) and bool(lp.along_inside)), "inside flag")
    if abs(abs(wrap(lp.relative_heading)) - math.pi / 2) > 1e-6:
        ensure(bool(lp.correct_direction) == (abs(wrap(lp.relative_heading)) < math.pi / 2), "correct_direction", rel=lp.relative_heading)
        if not lp.correct_direction:
            labels.add("wrong_way")
    ensure_close([*lp.center_point.p], ref.center(ref.beta(lp.along_lane))[:2], "centre point", atol=1e-4)
    ensure(abs(wrap(lp.center_point.theta - ref.center(ref.beta(lp.along_lane))[2])) < 1e-4, "heading of the centre point")
    return labels


@st.composite
def direct_case(draw):
    return dict(lane=draw(any_lane()), u=draw(U), lat=draw(st.one_of(fl(-5, 5), st.just(0.0))), hd=draw(fl(-math.pi, math.pi)), zero=draw(st.integers(0, 9)) == 0)


@subtest(P, direct_case, quick=1000, need=("inside", "before", "after", "outside_left", "outside_right", "wrong_way"))
def lane_poses_agree_with_their_numbers(c):
    lane, ref = both(c["lane"])
    along = 0.0 if c.get("zero") else ref.along(where(ref, c["u"]))
    lp = lane.lane_pose(along_lane=along, relative_heading=c["hd"], lateral=c["lat"])
    ensure(lp.along_lane == along and lp.lateral == c["lat"] and lp.relative_heading == c["hd"], "the given numbers are changed")
    return _flags(lp, ref)


@st.composite
def search_case(draw):
    return dict(lane=draw(smooth_lane()), u=draw(U), off=[draw(fl(-6, 6)), draw(fl(-6, 6))])


@subtest(P, search_case, quick=700, need=("inside",), shards=2)
def no_centre_point_is_closer(c):
    spec = c["lane"]
    lane, ref = mk_lane(spec), ref_lane(spec)
    base = ref.center(where(ref, c["u"]))
    z = rot(base, complex(*c["off"]))
    p = np.array([z.real, z.imag])
    sam = ref.samples()
    best_s, best = min(((s, math.dist(q[:2], p)) for s, q in sam), key=lambda x: x[1])
    if best > 0.6 / _kmax(spec) or abs(best_s) >= 59 or best_s - ref.L > 59:
        return None
    b, q = lane.find_along_lane_closest_point(p, tol=1e-6)
    d = math.dist(xytheta_from_SE2(q)[:2], p)
    ensure(d <= best + 1e-3, "a centre point is closer than the one found", found=d, other=best, along=ref.along(b), other_along=best_s)
    b, q = lane.find_along_lane_closest_point_fast(p, tol=1e-6)
    d = math.dist(xytheta_from_SE2(q)[:2], p)
    chord = max((l * l * abs(k) / 8 for l, k in spec["segs"]), default=0)
    ensure(d <= best + 1e-3 + chord * 1.1, "a centre point is closer than the one found fast", key="fast_search", found=d, other=best)
    return "inside" if 0 < best_s < ref.L else "outside"


@st.composite
def vert_case(draw):
    s = draw(smooth_lane(max_turn=9, kmax=0.15))
    return dict(lane=s, id=draw(st.integers(1, 1000)), pps=draw(st.sampled_from([5, 5, 2, 10])), skew=draw(st.one_of(st.just(0.0), st.just(0.0), fl(-0.3, 0.3))))


@subtest(P, vert_case, quick=500)
def lanes_from_vertices_have_the_given_borders(c):
    spec = c["lane"]
    left, right, center = vertices(spec)
    ref = ref_lane(spec)
    lane = DgLanelet.from_vertices(left, right, center)
    lane2 = DgLanelet.from_commonroad_lanelet(Lanelet(left, center, right, c["id"]))
    if c["skew"]:  # a centre line which is not in the middle is still the one which was given
        off = np.array([[rot(q, 1j * c["skew"] * r).real, rot(q, 1j * c["skew"] * r).imag] for q, r in zip(ref.q, ref.r)])
        for ln in (DgLanelet.from_vertices(left, right, off), DgLanelet.from_commonroad_lanelet(Lanelet(left, off, right, c["id"]))):
            ensure_close([cp.q.p for cp in ln.control_points], off, "control points are not on the given centre line")
            ensure_close([cp.r for cp in ln.control_points], ref.r, "radius of the control points")
        return "skewed"
    keep = left.copy(), right.copy(), center.copy()
    for ln in (lane, lane2):
        ensure(len(ln.control_points) == ref.n, "number of control points")
        for cp, q, r in zip(ln.control_points, ref.q, ref.r):
            ensure_close(cp.q.p, q[:2], "position of the control points")
            ensure_close(wrap(cp.q.theta - q[2]), 0, "direction of the control points", atol=1e-7)
            ensure_close(cp.r, r, "radius of the control points")
    prof = lane.lane_profile(points_per_segment=c["pps"])
    ensure(len(prof) % 2 == 0, "left and right have as many points")
    h = len(prof) // 2
    ends = [prof[0], prof[h - 1], prof[h], prof[-1]]
    exp = [right[0], right[-1], left[-1], left[0]]
    ensure_close(np.array(ends), np.array(exp), "the profile does not start and end at the borders of the lane", atol=1e-4)
    pr, pl = np.array(prof[:h]), np.array(prof[h:])[::-1]
    mid = (pr + pl) / 2
    sam = np.array([q[:2] for s, q in ref.samples(ext=0.1, per=60)])
    for m, a, b in zip(mid, pr, pl):
        ensure(np.min(np.linalg.norm(sam - m, axis=1)) < 0.1, "profile is not centred on the lane")
    w = np.linalg.norm(pl - pr, axis=1)
    ensure(np.all(w <= 2 * max(ref.r) + 1e-6) and np.all(w >= 2 * min(ref.r) - 1e-6), "width of the profile")
    ensure(all(np.array_equal(a, b) for a, b in zip(keep, (left, right, center))), "the given vertices were changed")
    again = lane.lane_profile(points_per_segment=c["pps"])
    ensure_close(np.array(again), np.array(prof), "asking again gives another profile")
    other = lane.lane_profile(points_per_segment=c["pps"] + 3)
    ensure(len(other) > len(prof), "a finer profile of the lane has no more points", coarse=len(prof), fine=len(other))
    ensure_close(np.array([other[0], other[len(other) // 2 - 1], other[len(other) // 2], other[-1]]), np.array(exp), "the finer profile does not start and end at the borders", atol=1e-4)
    ensure_close(np.array(lane.lane_profile(points_per_segment=c["pps"])), np.array(prof), "asking again gives another profile")
    return "turning" if max(abs(k) for _, k in spec["segs"]) > 0.01 else "straight"


@st.composite
def net_case(draw):
    n = draw(st.integers(1, 4))
    return dict(lanes=draw(st.lists(smooth_lane(max_turn=0.6, nmax=6), min_size=n, max_size=n)), at=draw(st.lists(st.tuples(st.integers(0, n - 1), fl(0.02, 0.98), fl(-0.9, 0.9)), min_size=1, max_size=5)))


@subtest(P, net_case, quick=250)
def lanes_are_found_by_position(c):
    ls, pts, polys = [], [], {}
    for i, s in enumerate(c["lanes"]):
        s = dict(s, start=[s["start"][0] + 300 * i, s["start"][1], s["start"][2]])  # far apart
        l, r, m = vertices(s)
        ls.append(Lanelet(l, m, r, 10 + i))
        polys[i] = (s, Polygon(list(map(tuple, r)) + list(map(tuple, l[::-1]))))
    net = LaneletNetwork.create_from_lanelet_list(ls)
    want = []
    for i, u, lat in c["at"]:
        s, poly = polys[i]
        ref = ref_lane(s)
        b = where(ref, u)
        z = rot(ref.center(b), 1j * lat * ref.radius(b))
        if not poly.buffer(-0.02).contains(Point(z.real, z.imag)):
            continue
        pts.append(np.array([z.real, z.imag]))
        want.append(10 + i)
    if not pts:
        return None
    for _ in range(2):
        ensure([x.lanelet_id for x in DgLanelet.get_lanelets(net, pts)] == want, "not the lanes at these positions")
    return "found"
