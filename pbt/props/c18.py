from __future__ import annotations

import copy
import math

import numpy as np
from hypothesis import strategies as st
from shapely.geometry import LineString, Point, Polygon

from dg_commons import SE2Transform
from dg_commons.sim.goals import PlanningGoal, PolygonGoal, PoseGoal, RefLaneGoal
from dg_commons.sim.models.diff_drive import DiffDriveState
from dg_commons.sim.models.pedestrian import PedestrianState
from dg_commons.sim.models.vehicle import VehicleState
from pbt.core import ensure, ensure_close, subtest
from pbt.gens import BIG_ANGLE, fl, nice, se2, wrap
from pbt.lanes import comp, mk_lane, ref_lane, rot, smooth_lane

P = "C18"
RULE = ("random goals (star-shaped concave polygons, with holes; pose goals with tolerances 1e-7..4; lane goals on random lanes at every "
        "progress), states of three model types on, at the border of and off the region; labels: in/out/border and why")
ASSUMPTIONS = [
    "lane goals: the region is the lane's cross section at the required progress widened by 1 m, from that progress on; states within 2 cm of its border (search tolerance) are not judged",
    "polygon goals: positions exactly on the border count as outside (`contains`)",
]

STATES = dict(
    vehicle=lambda p, v: VehicleState(x=p[0], y=p[1], psi=p[2], vx=v, delta=0.1),
    pedestrian=lambda p, v: PedestrianState(x=p[0], y=p[1], psi=p[2], vx=v, dpsi=0.3),
    diff=lambda p, v: DiffDriveState(x=p[0], y=p[1], psi=p[2]),
)
MODEL = st.sampled_from(sorted(STATES))
AT = st.sampled_from([0, 0.0, 1.5, "1.5"])


def at(a):
    from decimal import Decimal

    return Decimal(a) if isinstance(a, str) else a


def judged(goal: PlanningGoal, c, pose):
    """Asks twice, with and without a time; nothing may change."""
    s = STATES[c["m"]](pose, 1.0)
    keep = copy.deepcopy(s)
    r = bool(goal.is_fulfilled(s))
    ensure(bool(goal.is_fulfilled(s, at(c["at"]))) == r and bool(goal.is_fulfilled(s, at=at(c["at"]))) == r, "the answer of a static goal depends on the time")
    ensure(s == keep, "the state was changed")
    cp = copy.deepcopy(goal)
    ensure(bool(cp.is_fulfilled(s)) == r, "a copy of the goal judges differently")
    ensure(goal.is_static is True, "static")
    return r


def drawn(goal, c):
    g = goal.get_plottable_geometry()
    ensure(g.geom_type == "Polygon" and g.is_valid and g.area > 0, "the plottable geometry is no shape", got=repr(g)[:100])
    ensure(goal.get_plottable_geometry(at=at(c["at"])).equals(g), "plottable geometry depends on the time")
    return g


@st.composite
def poly_case(draw):
    n = draw(st.integers(3, 8))
    r, u = draw(st.lists(fl(0.5, 10), min_size=n, max_size=n)), draw(fl(0, 1))
    if draw(st.integers(0, 5)) == 0:  # almost convex: one shallow dent, looked at closely
        size, u = draw(st.sampled_from([5.0, 1.0, 20.0])), draw(st.sampled_from([0.0, 0.003, 0.997]))
        r = [0.88 * size] + [size] * 15
    return dict(r=r, p=draw(se2()), hole=draw(st.booleans()), u=u, k=draw(st.one_of(fl(0, 2), st.sampled_from([0.0, 0.99, 1.01, 1.02, 0.2, 0.9999, 1.0001, 1.00001, 0.99999]))),
                hd=draw(BIG_ANGLE), m=draw(MODEL), at=draw(AT))


@subtest(P, poly_case, quick=1500, need=("in", "out", "hole"))
def polygon_goals(c):
    n = len(c["r"])
    pts = []
    for i, r in enumerate(c["r"]):
        z = rot(c["p"], r * complex(math.cos(2 * math.pi * i / n), math.sin(2 * math.pi * i / n)))
        pts.append((z.real, z.imag))
    ctr = c["p"][:2]
    hole = [[(ctr[0] + 0.3 * (x - ctr[0]), ctr[1] + 0.3 * (y - ctr[1])) for x, y in pts]] if c["hole"] else []
    poly = Polygon(pts, hole)
    goal = PolygonGoal(poly)
    # a point at the fraction k of the ray from the centre to the border (star shaped: inside iff k < 1)
    f = c["u"] * n
    i = int(f) % n
    b = [pts[i][j] + (f - int(f)) * (pts[(i + 1) % n][j] - pts[i][j]) for j in (0, 1)]
    x = [ctr[j] + c["k"] * (b[j] - ctr[j]) for j in (0, 1)]
    r = judged(goal, c, [*x, c["hd"]])
    ensure(drawn(goal, c).equals(poly), "the plottable geometry is not where the goal is")
    if abs(c["k"] - 1) < 1e-6 or (c["hole"] and abs(c["k"] - 0.3) < 1e-6):
        return None
    inside = c["k"] < 1 and not (c["hole"] and c["k"] < 0.3)
    ensure(r == inside, "fulfilled" if r else "not fulfilled", at=x, k=c["k"])
    return "in" if inside else ("hole" if c["k"] < 1 else "out")


@st.composite
def pose_case(draw):
    return dict(p=draw(se2(big=True)), tol=draw(st.one_of(st.none(), st.sampled_from([1e-7, 1e-3, 0.1, 1.0, 4.0]), fl(1e-6, 3))), f=draw(st.one_of(fl(0, 2), st.sampled_from([0.0, 0.999, 1.001]))),
                mix=draw(fl(0, 1)), dir=draw(fl(-math.pi, math.pi)), sg=draw(st.sampled_from([1, -1])), turns=draw(st.integers(-2, 2)), m=draw(MODEL), at=draw(AT))


@subtest(P, pose_case, quick=1500, need=("in", "out", "turned", "moved"))
def pose_goals(c):
    tol = 1e-7 if c["tol"] is None else c["tol"]
    goal = PoseGoal(SE2Transform(c["p"][:2], c["p"][2])) if c["tol"] is None else PoseGoal(SE2Transform(c["p"][:2], c["p"][2]), tol)
    # a state whose distance (position and rotation matrix) to the goal is f * tol
    d = c["f"] * tol
    drot = min(c["mix"] * d, 2.8)
    dpos = math.sqrt(max(d * d - drot * drot, 0))
    a = 2 * math.asin(min(drot / math.sqrt(8), 1))
    pose = [c["p"][0] + dpos * math.cos(c["dir"]), c["p"][1] + dpos * math.sin(c["dir"]), c["p"][2] + c["sg"] * a + 2 * math.pi * c["turns"]]
    r = judged(goal, c, pose)
    g = drawn(goal, c)
    ensure(g.intersects(Point(c["p"][:2]).buffer(1e-6)) and Point(c["p"][:2]).distance(g.centroid) < 1, "drawn elsewhere")
    tip = rot(c["p"], 0.8)
    ensure(g.distance(Point(tip.real, tip.imag)) < 1e-6 and g.area < 2, "drawn pose does not point where the goal points")
    err = 2e-14 * (1 + abs(c["p"][0]) + abs(c["p"][1]) + 30)
    if abs(d - tol) <= 1e-6 * tol + err:
        return None
    ensure(r == (d < tol), "pose goal " + ("fulfilled" if r else "not fulfilled"), dist=d, tol=tol, pose=pose)
    return ["in" if r else "out"] + (["turned"] if a > 1e-3 else []) + (["moved"] if dpos > 1e-3 else []) + (["whole_turns"] if c["turns"] else [])


@st.composite
def lane_case(draw):
    return dict(lane=draw(smooth_lane(max_turn=1.0, kmax=0.05)), g=draw(st.one_of(fl(0, 1), fl(-0.5, 2.0))), ds=draw(st.one_of(fl(-2, 2), fl(-0.9, 1.1), fl(-30, 30))), lat=draw(st.one_of(fl(-0.95, 0.95), fl(-3, 3))),
                hd=draw(BIG_ANGLE), m=draw(MODEL), at=draw(AT), first=draw(st.booleans()))


@subtest(P, lane_case, quick=1500, need=("in", "before", "beyond", "beside"), shards=2)
def reference_lane_goals(c):
    spec = c["lane"]
    lane, ref = mk_lane(spec), ref_lane(spec)
    prog = c["g"] * ref.L
    goal = RefLaneGoal(lane, prog)
    b = ref.beta(prog + c["ds"])
    lat = c["lat"] * ref.radius(b)
    z = rot(ref.center(b), 1j * lat)
    if c["first"]:
        drawn(goal, c)
    r = judged(goal, c, [z.real, z.imag, c["hd"]])
    g = drawn(goal, c)
    q, rad = ref.center(ref.beta(prog)), ref.radius(ref.beta(prog))
    cross = LineString([(rot(q, 1j * rad).real, rot(q, 1j * rad).imag), (rot(q, -1j * rad).real, rot(q, -1j * rad).imag)])
    ensure(g.symmetric_difference(cross.buffer(1.0)).area < 0.15, "the region is not at the required progress", key="region", centroid=list(g.centroid.coords), expected=q[:2])
    d = cross.distance(Point(z.real, z.imag))
    if abs(d - 1) < 0.02 or abs(c["ds"]) < 0.05 + 2e-3 * len(ref.q) * max(ref.len):
        return None
    exp = d < 1 and c["ds"] > 0
    ensure(r == exp, "lane goal " + ("fulfilled" if r else "not fulfilled"), ds=c["ds"], distance=d, lateral=lat)
    return "in" if exp else ("before" if c["ds"] < 0 and d < 1 else "beside" if abs(lat) > rad and abs(c["ds"]) < 1 else "beyond")


@st.composite
def end_case(draw):
    return dict(lane=draw(smooth_lane()), infl=draw(st.sampled_from([None, 1, 0.5, 0.15, 2.5])), at=0)


@subtest(P, end_case, quick=300)
def goals_from_lanes(c):
    spec = c["lane"]
    lane, ref = mk_lane(spec), ref_lane(spec)
    goal = PolygonGoal.from_DgLanelet(lane) if c["infl"] is None else PolygonGoal.from_DgLanelet(lane, inflation_radius=c["infl"])
    infl = c["infl"] or 1
    q, rad = ref.q[-1], ref.r[-1]
    cross = LineString([(rot(q, 1j * rad).real, rot(q, 1j * rad).imag), (rot(q, -1j * rad).real, rot(q, -1j * rad).imag)])
    # the end of the lane, possibly slightly beyond
    ensure(goal.goal.hausdorff_distance(cross.buffer(infl)) < 0.15, "not at the end of the lane", centroid=list(goal.goal.centroid.coords), expected=q[:2])
    ensure(bool(goal.is_fulfilled(VehicleState(x=q[0], y=q[1], psi=0, vx=0, delta=0))), "the end of the lane does not fulfil the goal")
    drawn(goal, c)
    return "end"
