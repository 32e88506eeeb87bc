"""C28: conversion of recorded (CommonRoad) obstacles and scenarios."""
from __future__ import annotations

from pbt import crshim  # noqa: F401  (first: see crshim)

import math
import os
import shutil
import tempfile
import warnings

import numpy as np
from commonroad.common.file_writer import CommonRoadFileWriter, OverwriteExistingFile
from commonroad.common.util import Interval
from commonroad.geometry.shape import Polygon as CrPolygon, Rectangle
from commonroad.planning.goal import GoalRegion
from commonroad.planning.planning_problem import PlanningProblem, PlanningProblemSet
from commonroad.prediction.prediction import TrajectoryPrediction
from commonroad.scenario.lanelet import Lanelet, LaneletNetwork
from commonroad.scenario.obstacle import DynamicObstacle, ObstacleType, StaticObstacle as CrStaticObstacle
from commonroad.scenario.scenario import Location, Scenario, Tag
from commonroad.scenario.state import CustomState, InitialState
from commonroad.scenario.trajectory import Trajectory as CrTrajectory
from hypothesis import strategies as st
from shapely.geometry import Point, Polygon

from dg_commons import PlayerName
from dg_commons.sim.models.obstacles import StaticObstacle
from dg_commons.sim.models.pedestrian import PedestrianModel
from dg_commons.sim.models.vehicle import VehicleModel
from dg_commons.sim.models.vehicle_structures import BICYCLE, CAR
from dg_commons.sim.scenarios import NotSupportedConversion, dglane_from_position, load_commonroad_scenario
from dg_commons.sim.scenarios.convert_from_commonroad import model_agent_from_dynamic_obstacle
from dg_commons.sim.scenarios.factory import get_scenario_commonroad_replica
from dg_commons.sim.scenarios.model_from_dyn_obstacle import infer_model_from_cr_dyn_obstacle
from dg_commons.sim.scenarios.utils_dyn_obstacle import infer_lane_from_dyn_obs, is_dyn_obstacle_static
from dg_commons.sim.sim_types import SimTime
from dg_commons.sim.simulator import SimContext, Simulator
from dg_commons.sim.simulator_structures import SimParameters
from pbt.core import ensure, ensure_close, ensure_raises, fail, subtest
from pbt.gens import ANGLE, fl, wrap
from pbt.lanes import comp
from pbt.nets import lane_polygon, lanelets, networks

P = "C28"
RULE = ("recordings of every CommonRoad obstacle type (size, start pose, speed profile, headings recorded with any multiple of a "
        "turn, standing and returning ones) on random lanelet networks with small, overlapping or large identifiers; random scenario "
        "files with static obstacles, moving obstacles and planning problems, written, loaded and converted; labels: "
        "vehicle/unsupported/on_route/off_route/ambiguous/parked/static/skipped")
ASSUMPTIONS = ["vehicles are recorded as rectangles", "the positions of scenario files are written with 10 decimals",
               "circular shapes are not compared (CommonRoad itself draws them with half their radius)"]

VEHICLES = ("CAR", "BICYCLE", "TRUCK", "BUS")
OTHERS = tuple(t.name for t in ObstacleType if t.name not in VEHICLES + ("PEDESTRIAN",))
CONFUSING = [11, 1, 112, 12, 2, 21, 121, 111, 212, 22, 211, 122, 1112, 2121, 3, 31, 13, 33, 313, 131]
warnings.filterwarnings("ignore")


@st.composite
def recording(draw, types=None, span=30.0):
    return dict(
        type=draw(types if types is not None else st.sampled_from(VEHICLES + VEHICLES + ("PEDESTRIAN",) + OTHERS)),
        size=[draw(fl(1.2, 14.0)), draw(fl(0.4, 3.0))],
        at=[draw(fl(-span, span)), draw(fl(-span, span)), draw(ANGLE)],
        v=draw(st.lists(st.one_of(st.sampled_from([0.0, 5.0, 10.0]), fl(0.0, 18.0)), min_size=1, max_size=12)),
        v0=draw(st.one_of(st.none(), fl(0.0, 18.0), fl(-5.0, 0.0))),  # the initial speed, that of the first step if None
        w=draw(st.one_of(st.just(0.0), fl(-0.6, 0.6))),
        turns=draw(st.lists(st.sampled_from([0, 0, 1, -1]), min_size=13, max_size=13)),
        t0=draw(st.sampled_from([0, 0, 5])),
    )


def orient(a, k):
    """the same heading, recorded with another multiple of a turn (CommonRoad admits [-2 pi, 2 pi])"""
    a = wrap(a)
    b = a + 2 * math.pi * k
    return b if abs(b) <= 2 * math.pi - 1e-6 else a


def start_speed(r):
    return r["v"][0] if r.get("v0") is None else r["v0"]


def path(r, dt=0.1):
    """poses and speeds at the recorded steps, the first is the initial one"""
    out = [(list(r["at"]), start_speed(r))]
    for v in r["v"]:
        p = out[-1][0]
        out.append(([p[0] + v * dt * math.cos(p[2]), p[1] + v * dt * math.sin(p[2]), p[2] + r["w"] * dt], v))
    return out


def mk_dyn(r, oid=1, pts=None):
    pts = path(r) if pts is None else pts
    shape = Rectangle(*r["size"])
    rec = [(p[:2], orient(p[2], r["turns"][i % len(r["turns"])]), v) for i, (p, v) in enumerate(pts)]
    p, a, v = rec[0]
    t0 = r["t0"]
    s0 = InitialState(position=np.array(p), orientation=a, velocity=v, time_step=t0, acceleration=0.0, yaw_rate=0.0, slip_angle=0.0)
    states = [CustomState(position=np.array(p), orientation=a, velocity=v, time_step=t0 + i + 1) for i, (p, a, v) in enumerate(rec[1:])]
    return DynamicObstacle(oid, ObstacleType[r["type"]], shape, s0, TrajectoryPrediction(CrTrajectory(t0 + 1, states), shape))


# ---------------------------------------------------------------- models
@subtest(P, recording, quick=1500, need=("vehicle", "pedestrian", "unsupported", "turning"))
def models_of_recorded_obstacles(r):
    obs = mk_dyn(r)
    if r["type"] in OTHERS:
        ensure_raises(lambda: infer_model_from_cr_dyn_obstacle(obs, "red"), NotSupportedConversion, msg="unsupported types are rejected")
        return "unsupported"
    model = infer_model_from_cr_dyn_obstacle(obs, "red")
    s = model.get_state()
    ensure_close([s.x, s.y], r["at"][:2], "initial position")
    ensure(abs(wrap(s.psi - r["at"][2])) < 1e-9, "initial heading", psi=s.psi, want=r["at"][2])
    ensure_close(s.vx, start_speed(r), "initial speed")
    if r["type"] == "PEDESTRIAN":
        ensure(isinstance(model, PedestrianModel), "pedestrians become pedestrian models", type=type(model))
        return "pedestrian"
    ensure(isinstance(model, VehicleModel), "vehicles become vehicle models", type=type(model))
    g = model.vg
    ensure(g.vehicle_type == (BICYCLE if r["type"] == "BICYCLE" else CAR), "kind of vehicle", type=g.vehicle_type)
    ensure(g.color == "red", "colour")
    L, W = r["size"]
    o = np.array(g.outline)
    length, width = o.max(0) - o.min(0)
    ensure(abs(width - W) <= 0.06 * W + 0.21, "recorded width", width=width, recorded=W)
    ensure(abs(length - L) <= 0.31 * L + 0.61, "recorded length", length=length, recorded=L)
    if r["type"] != "BICYCLE":
        ensure(abs(length - L) <= 0.13 * L + 0.61, "recorded length of a car", length=length, recorded=L)
    ensure(0 < g.wheelbase < L, "the axles are within the recorded length", wheelbase=g.wheelbase, recorded=L)
    ensure(0 < g.m < math.inf and 0 < g.Iz < math.inf, "mass and inertia", m=g.m, Iz=g.Iz)
    fp = model.get_footprint()
    ensure(fp.distance(Point(*r["at"][:2])) == 0, "the footprint is at the recorded position")
    ensure(abs(s.delta) <= model.vp.delta_max, "the initial steering is one the vehicle can have", delta=s.delta, limit=model.vp.delta_max)
    if r["w"] == 0:
        ensure(abs(s.delta) < 1e-9, "straight recordings start with straight wheels", delta=s.delta)
        return "vehicle"
    ensure(s.delta * r["w"] >= 0, "the wheels are turned to the side to which the recording turns", delta=s.delta, rate=r["w"])
    return "vehicle", "turning"


# ---------------------------------------------------------------- lanes
@st.composite
def lane_rec(draw):
    """a recording from one point of a network to another one"""
    def end():
        return dict(i=draw(st.integers(0, 30)), s=draw(fl(0.1, 0.9)), d=draw(fl(-0.8, 0.8)), off=draw(st.sampled_from([False] * 7 + [True])))
    return dict(net=draw(networks(1, 2)), id0=draw(st.sampled_from([1, 1, 7, 8, 90, 100, 1000])), a=end(), b=end(), psi=draw(st.sampled_from([0.0, 0.0, 3.0, 1.0])),
                dpsi=draw(fl(-0.2, 0.2)), mid=draw(st.one_of(st.integers(0, 4), st.integers(0, 4), st.integers(0, 4), st.integers(20, 130))), rec=draw(recording(types=st.sampled_from(VEHICLES))),
                rev=draw(st.booleans()))


def net_of(spec, id0, rev=False):
    ls = lanelets(spec)
    ids = {l[0]: i for i, l in enumerate(ls)}
    n = len(ls) - 1
    m = {k: id0 + (n - v if rev else v) for k, v in ids.items()}
    if id0 == 1 and n < len(CONFUSING):  # the digits of some are found within (sequences of) others
        m = {k: CONFUSING[n - v if rev else v] for k, v in ids.items()}
    return [[m[i], l, r, c, [m[x] for x in p], [m[x] for x in s]] for i, l, r, c, p, s in ls]


def network(ls):
    return LaneletNetwork.create_from_lanelet_list([Lanelet(l, c, r, i, p, s) for i, l, r, c, p, s in ls])


def point_on(lane, e):
    _, l, r, c, _, _ = lane
    k = min(int(e["s"] * (len(c) - 1)), len(c) - 2)
    f = e["s"] * (len(c) - 1) - k
    cc, ll = c[k] + f * (c[k + 1] - c[k]), l[k] + f * (l[k + 1] - l[k])
    p = cc + e["d"] * (ll - cc)
    t = c[k + 1] - c[k]
    if e["off"]:
        p = cc + 60.0 * (ll - cc) / max(np.linalg.norm(ll - cc), 1e-9)
    return p, math.atan2(t[1], t[0])


def routes(ls, start):
    """all maximal routes from a lanelet: lists of ids without repetition"""
    succ = {x[0]: x[5] for x in ls}
    out = []

    def go(r):
        nxt = [x for x in succ[r[-1]] if x not in r]
        if not nxt:
            out.append(r)
        for x in nxt:
            go(r + [x])
    go([start])
    return out


def centre(ls, route):
    by = {x[0]: x[3] for x in ls}
    pts = []
    for i in route:
        for p in by[i]:
            if not pts or np.linalg.norm(pts[-1] - p) > 1e-9:
                pts.append(p)
    return np.array(pts)


def heading_at(pts, p):
    """heading of a polyline at its point closest to p, None where it is not clear"""
    best = []
    for a, b in zip(pts, pts[1:]):
        d = b - a
        f = min(1, max(0, float(np.dot(p - a, d) / np.dot(d, d))))
        best.append((float(np.linalg.norm(a + f * d - p)), math.atan2(d[1], d[0])))
    m = min(best)[0]
    return [h for dist, h in best if dist <= m + 1e-6]


@subtest(P, lane_rec, quick=1200, need=("on_route", "off_route", "ambiguous"), shards=4)
def lanes_of_recorded_obstacles(c):
    ls = net_of(c["net"], c["id0"], c["rev"])
    polys = {x[0]: lane_polygon(x[1], x[2]) for x in ls}
    if not all(p.is_valid for p in polys.values()):
        return None
    net = network(ls)
    A, h = point_on(ls[c["a"]["i"] % len(ls)], c["a"])
    B, hb = point_on(ls[c["b"]["i"] % len(ls)], c["b"])
    psi = h + c["psi"] + c["dpsi"]
    if np.linalg.norm(A - B) < 0.3:
        return None

    def ids_at(p):
        pt = Point(*p)
        if any(abs(q.exterior.distance(pt)) < 1e-3 for q in polys.values()):
            return None
        return [i for i, q in polys.items() if q.contains(pt)]
    ia, ib = ids_at(A), ids_at(B)
    if ia is None or ib is None:
        return None
    n = c["mid"]
    pts = [([*(A + (B - A) * k / (n + 1)), psi], 5.0) for k in range(n + 2)]
    dyn = mk_dyn(c["rec"], pts=pts)
    lane = infer_lane_from_dyn_obs(dyn, net) if c["mid"] % 2 else model_agent_from_dynamic_obstacle(dyn, net)[1].ref_lane
    cps = np.array([q.q.p for q in lane.control_points])
    rs = [r for i in ia for r in routes(ls, i) if set(r) & set(ib)]
    if not rs:
        ensure(len(cps) == n + 1, "without a route the lane follows the recording", n=len(cps), recorded=n + 1)
        ensure_close(cps, [p[:2] for p, _ in pts[1:]], "without a route the lane follows the recording")
        for q in lane.control_points:
            ensure(abs(wrap(q.q.theta - psi)) < 1e-9, "without a route the lane follows the recorded heading")
        return "off_route"
    lines = [centre(ls, r) for r in rs]
    # rings: the library may stop before or after closing the ring: compare with the lane's own points
    match = [k for k, l in enumerate(lines) if len(l) == len(cps) and np.abs(l - cps).max() < 1e-6]
    ensure(match, "the lane is a route of the network from the recorded start through the recorded end", ids_start=ia, ids_end=ib, routes=rs, lane=cps[[0, -1]].tolist())
    if len(rs) == 1:
        return "on_route"
    errs = []
    for l in lines:
        hs = [abs(wrap(psi - h_)) for h_ in heading_at(l, A)]
        errs.append((min(hs), max(hs)))
    # lanes are smooth curves through the points: allow for the turn within a segment
    slack = 0.35
    mine = min(errs[k][0] for k in match)
    ensure(mine <= min(e[1] for e in errs) + slack, "among several routes, the lane is the one aligned with the recorded heading", mine=mine, errs=errs, routes=rs, chosen=match)
    return "on_route", "ambiguous"


@subtest(P, lane_rec, quick=500, need=("ok",))
def lane_at_a_position(c):
    ls = net_of(c["net"], c["id0"], c["rev"])
    polys = {x[0]: lane_polygon(x[1], x[2]) for x in ls}
    if not all(p.is_valid for p in polys.values()):
        return None
    net = network(ls)
    A, _ = point_on(ls[c["a"]["i"] % len(ls)], c["a"])
    if any(q.exterior.distance(Point(*A)) < 1e-3 for q in polys.values()):
        return None
    ia = [i for i, q in polys.items() if q.contains(Point(*A))]
    if not ia:
        ensure_raises(lambda: dglane_from_position(A, net), AssertionError, msg="no lane off the road")
        return "off"
    seen = []
    for k in range(len(ia)):
        lane = dglane_from_position(A, net, init_lane_selection=k)
        cps = np.array([q.q.p for q in lane.control_points])
        hit = {i for i in ia for r in routes(ls, i) for l in [centre(ls, r)] if len(l) == len(cps) and np.abs(l - cps).max() < 1e-6}
        ensure(hit, "the lane starts at a lanelet which contains the position and follows its successors", ids=ia)
        seen.append(hit)
    ensure(set().union(*seen) == set(ia), "every lanelet at the position can be selected", seen=seen, ids=ia)
    first = next(iter(seen[0]))
    rs = routes(ls, first)
    if len(seen[0]) == 1 and len(rs) > 1:
        got = []
        for j in range(len(rs)):
            lane = dglane_from_position(A, net, 0, j)
            cps = np.array([q.q.p for q in lane.control_points])
            got.append(next((n for n, r in enumerate(rs) for l in [centre(ls, r)] if len(l) == len(cps) and np.abs(l - cps).max() < 1e-6), None))
        ensure(sorted(got, key=str) == list(range(len(rs))), "every continuation can be selected", got=got, routes=rs)
        return "ok", "forks"
    return "ok"


@st.composite
def crossing(draw):
    n = draw(st.integers(2, 3))
    a0, gaps = draw(ANGLE), draw(st.lists(fl(0.8, 1.9), min_size=2, max_size=2))
    return dict(at=[draw(fl(-30, 30)), draw(fl(-30, 30))], angles=[wrap(a0 + sum(gaps[:k])) for k in range(n)], order=draw(st.permutations(range(n))),
                k=draw(st.integers(0, n - 1)), dev=draw(fl(-0.2, 0.2)), turn=draw(st.sampled_from([0, 0, 1, -1])), size=[4.5, 1.9])


@subtest(P, crossing, quick=300, need=("across_pi", "other_turn"))
def the_most_aligned_of_crossing_lanes(c):
    """Lanelets of clearly different directions cross where the recording starts, all lead to where it ends."""
    A, half = np.array(c["at"]), 1.5
    labels = set()
    ls = []
    end_id = 100
    for k in c["order"]:
        a = c["angles"][k]
        t, nrm = np.array([math.cos(a), math.sin(a)]), np.array([-math.sin(a), math.cos(a)])
        ctr = np.array([A + t * s for s in (-10.0, -5.0, 0.0, 5.0, 10.0)])
        ls.append([10 + k, ctr + half * nrm, ctr - half * nrm, ctr, [], [end_id]])
    E = A + 60.0
    ctr = np.array([E + [s, 0.0] for s in (0.0, 10.0, 20.0)])
    ls.append([end_id, ctr + [0, half], ctr - [0, half], ctr, [10 + k for k in c["order"]], []])
    psi = c["angles"][c["k"]] + c["dev"]
    rec = dict(type="CAR", size=c["size"], turns=[c["turn"]], t0=0)
    B = ctr[1]
    pts = [([*(A + (B - A) * f), psi], 5.0) for f in (0.0, 0.5, 1.0)]
    lane = infer_lane_from_dyn_obs(mk_dyn(rec, pts=pts), network(ls))
    cps = np.array([q.q.p for q in lane.control_points])
    want = centre(ls, [10 + c["k"], end_id])
    ensure(len(cps) == len(want) and np.abs(cps - want).max() < 1e-6, "among crossing lanes the one aligned with the recorded heading is followed", psi=psi, angles=c["angles"], chosen=cps[0].tolist(), want=want[0].tolist())
    if abs(wrap(psi)) > math.pi - 0.3:
        labels.add("across_pi")
    if abs(orient(psi, c["turn"])) > math.pi:
        labels.add("other_turn")
    return tuple(labels) or "plain"


# ---------------------------------------------------------------- parked or not
@st.composite
def moves(draw):
    r = draw(recording(types=st.just("CAR")))
    r["v"] = draw(st.lists(st.sampled_from([0.0, 0.0, 0.1, 0.5, -0.5, 4.0, -4.0]), min_size=1, max_size=12))
    return r


@subtest(P, moves, quick=800, need=("parked", "moving", "returns"))
def parked_obstacles(r):
    pts = path(r)
    obs = mk_dyn(r)
    d = max(math.hypot(p[0] - r["at"][0], p[1] - r["at"][1]) for p, _ in pts)
    end = math.hypot(pts[-1][0][0] - r["at"][0], pts[-1][0][1] - r["at"][1])
    if abs(d - 0.2) < 1e-6:
        return None
    got = is_dyn_obstacle_static(obs)
    ensure(bool(got) == (d < 0.2), "parked: never further than 0.2 m from the initial position", got=got, largest=d, end=end)
    return "parked" if got else ("returns" if end < 0.2 else "moving")


# ---------------------------------------------------------------- whole scenarios
@st.composite
def static_obs(draw):
    kind = draw(st.sampled_from(["rect", "rect", "poly"]))
    s = dict(kind=kind, at=[draw(fl(-40, 40)), draw(fl(-40, 40)), draw(ANGLE)],
             type=draw(st.sampled_from(["PARKED_VEHICLE", "CONSTRUCTION_ZONE", "ROAD_BOUNDARY", "UNKNOWN"])))
    if kind == "rect":
        s["size"] = [draw(fl(0.5, 6)), draw(fl(0.5, 6))]
        if draw(st.booleans()):  # drawn off the centre, turned
            s["off"] = [draw(st.sampled_from([1.5, -2.0, 0.0])), draw(st.sampled_from([0.0, 0.7, -3.0])), draw(st.sampled_from([0.0, 0.5, -1.2, 2.0]))]
    else:
        s["poly"] = draw(st.sampled_from([[[-1, -1], [2, -1], [0, 3]], [[0, 0], [3, 0], [3, 1], [0, 2]], [[2, 1], [4, 1], [4, 2]]]))
    return s


@st.composite
def scenario(draw):
    def on_net():
        return dict(i=draw(st.integers(0, 30)), s=draw(fl(0.05, 0.6)), d=draw(fl(-0.4, 0.4)), off=False)
    dyn = []
    for _ in range(draw(st.sampled_from([1, 2, 3, 0, 4]))):
        v = draw(st.sampled_from([8.0, 5.0, 12.0, 0.0, 3.0]))
        r = dict(type=draw(st.sampled_from(("CAR",) * 4 + ("BICYCLE", "TRUCK", "BUS", "PEDESTRIAN", "MOTORCYCLE"))),
                 size=draw(st.sampled_from([[4.5, 1.9], [1.8, 0.6], [10.0, 2.5], [3.5, 1.6]])),
                 at=[draw(fl(-30, 30)), draw(fl(-30, 30)), draw(ANGLE)], v=[v] * draw(st.integers(1, 8)), v0=draw(st.sampled_from([None, v + 1.5])),
                 w=draw(st.sampled_from([0.0, 0.3])), turns=draw(st.sampled_from([[0], [1, 0], [-1, 0], [0, 1]])), t0=0)
        dyn.append([r, on_net() if draw(st.sampled_from([False, True, True])) else None])
    return dict(net=draw(networks(1, 2)), stat=draw(st.lists(static_obs(), max_size=3)), dyn=dyn,
                pps=draw(st.lists(st.tuples(fl(-30, 30), fl(-30, 30), fl(-3, 3), fl(0, 10)).map(list), min_size=1, max_size=2)),
                ego=draw(st.one_of(st.none(), st.integers(0, 3), st.integers(0, 3), st.just(-1))), sub=draw(st.booleans()), xml=draw(st.booleans()), run=draw(st.booleans()),
                seed=draw(st.integers(0, 3)))


def write(c, ls, dyn, folder):
    sc = Scenario(dt=0.1)
    sc.add_objects(network(ls))
    oid = 5000
    for o in c["stat"]:
        off = o.get("off", [0.0, 0.0, 0.0])
        shape = Rectangle(*o["size"], np.array(off[:2]), off[2]) if o["kind"] == "rect" else CrPolygon(np.array(o["poly"], float))
        s0 = InitialState(position=np.array(o["at"][:2]), orientation=o["at"][2], velocity=0.0, time_step=0, acceleration=0.0, yaw_rate=0.0, slip_angle=0.0)
        sc.add_objects(CrStaticObstacle(oid, ObstacleType[o["type"]], shape, s0))
        oid += 1
    for r, pts in dyn:
        sc.add_objects(mk_dyn(r, oid, pts))
        oid += 1
    pps = []
    for x, y, a, v in c["pps"]:
        s0 = InitialState(position=np.array([x, y]), orientation=a, velocity=v, time_step=0, acceleration=0.0, yaw_rate=0.0, slip_angle=0.0)
        goal = GoalRegion([CustomState(position=Rectangle(2.0, 2.0, np.array([x + 10, y]), 0.0), time_step=Interval(0, 50))])
        pps.append(PlanningProblem(oid, s0, goal))
        oid += 1
    os.makedirs(folder, exist_ok=True)
    name = "ZZZ_Gen-1_1_T-1"
    CommonRoadFileWriter(sc, PlanningProblemSet(pps), "a", "b", "c", {Tag.URBAN}, decimal_precision=10, location=Location()).write_to_file(
        os.path.join(folder, name + ".xml"), OverwriteExistingFile.ALWAYS)
    return name


def placed(coords, pose):
    return Polygon([(z.real, z.imag) for z in (complex(*pose[:2]) + complex(*p) * complex(math.cos(pose[2]), math.sin(pose[2])) for p in coords)])


def same_shape(got, want, tol=1e-5):
    return got.symmetric_difference(want).area <= tol * (1 + want.area)


def rect(size):
    a, b = size[0] / 2, size[1] / 2
    return [(-a, -b), (a, -b), (a, b), (-a, b)]


@subtest(P, scenario, quick=350, need=("static", "moving", "parked", "skipped", "ran", "ego"), shards=6)
def replicas_of_scenarios(c):
    ls = net_of(c["net"], 100)
    if not all(lane_polygon(x[1], x[2]).is_valid for x in ls):
        return None
    c = dict(c, pps=[[round(x, 3) for x in p] for p in c["pps"]])
    dyn = []
    for r, on in c["dyn"]:
        r = dict(r)
        if on is not None:
            p, h = point_on(ls[on["i"] % len(ls)], on)
            r["at"] = [float(p[0]), float(p[1]), wrap(h)]
            r["w"] = 0.0
        pts = [([round(p[0], 9), round(p[1], 9), p[2]], v) for p, v in path(r)]
        dyn.append((r, pts))
    folder = tempfile.mkdtemp(prefix="c28_")
    try:
        name = write(c, ls, dyn, os.path.join(folder, "a", "b") if c["sub"] else folder)
        for other in (f"AAA_{name}.xml", f"{name}_2.xml", f"{name}.xml.bak"):  # scenarios with similar names lie beside it
            with open(os.path.join(folder, other), "w") as f:
                f.write("<nothing/>")
        name += ".xml" if c["xml"] else ""
        ensure_raises(lambda: load_commonroad_scenario(name.replace("Gen", "Other"), folder), FileNotFoundError, msg="missing scenarios")
        scen, pps = load_commonroad_scenario(name, folder)
        ensure(len(scen.lanelet_network.lanelets) == len(ls), "number of lanelets")
        got = sorted((*map(float, p.initial_state.position), float(p.initial_state.velocity)) for p in pps.planning_problem_dict.values())
        ensure_close(got, sorted((x, y, v) for x, y, _, v in c["pps"]), "planning problems", atol=1e-6)
        got = [p.initial_state.orientation for _, p in sorted(pps.planning_problem_dict.items())]  # numbered in the order written
        ensure(all(abs(wrap(g - a)) < 1e-6 for g, (_, _, a, _) in zip(got, c["pps"])), "headings of the planning problems", got=got)
        ego = None if c["ego"] is None else PlayerName(f"P{c['ego']}" if c["ego"] >= 0 else "P")
        ctx = get_scenario_commonroad_replica(name, folder, ego_player=ego, seed=c["seed"], description="d",
                                              sim_param=SimParameters(dt=SimTime("0.1"), dt_commands=SimTime("0.1"), max_sim_time=SimTime("0.5")))
    finally:
        shutil.rmtree(folder, ignore_errors=True)
    labels = set()
    ensure(isinstance(ctx, SimContext) and ctx.seed == c["seed"] and ctx.description == "d", "context")
    ensure(set(ctx.models) == set(ctx.players), "one agent per model", models=list(ctx.models), players=list(ctx.players))
    static = list(ctx.dg_scenario.static_obstacles)
    want_static, want_models = [], []
    for r, pts in dyn:
        d = max(math.hypot(p[0] - r["at"][0], p[1] - r["at"][1]) for p, _ in pts)
        if abs(d - 0.2) < 1e-6:
            return None
        if d < 0.2:
            want_static.append((placed(rect(r["size"]), pts[0][0]), r["type"]))
            labels.add("parked")
        elif r["type"] in VEHICLES:
            want_models.append((r, pts))
            labels.add("moving")
        else:
            labels.add("skipped")
    for o in c["stat"]:
        local = placed(rect(o["size"]), o.get("off", [0.0, 0.0, 0.0])).exterior.coords[:-1] if o["kind"] == "rect" else o["poly"]
        want_static.append((placed(local, o["at"]), o["type"]))
        labels.add("static")
    ensure(len(static) == len(want_static), "number of static obstacles", got=len(static), want=len(want_static))
    rest = list(static)
    for shape, typ in want_static:
        hit = next((s for s in rest if same_shape(s.shape, shape) and s.obstacle_type == ObstacleType[typ]), None)
        ensure(hit is not None, "static obstacles keep shape, pose and type", want=shape.wkt, type=typ, got=[(s.shape.wkt, s.obstacle_type.name) for s in rest])
        rest = [s for s in rest if s is not hit]
    skippable = sum(r["type"] == "PEDESTRIAN" for r, _ in dyn)
    ensure(len(want_models) <= len(ctx.models) <= len(want_models) + skippable, "number of players", got=len(ctx.models), want=len(want_models))
    for r, pts in want_models:
        hit = [n for n, m in ctx.models.items() if math.hypot(m.get_state().x - pts[0][0][0], m.get_state().y - pts[0][0][1]) < 1e-6
               and abs(wrap(m.get_state().psi - pts[0][0][2])) < 1e-6 and abs(m.get_state().vx - pts[0][1]) < 1e-6]
        ensure(len(hit) >= 1, "moving obstacles start with the recorded pose and speed", want=pts[0], got=[str(m.get_state()) for m in ctx.models.values()])
    if ego is not None:
        ensure(ego not in ctx.models, "the ego player is renamed", names=list(ctx.models))
        if PlayerName("Ego") in ctx.models:
            labels.add("ego")
            (ex, ey, _), _ = dyn[c["ego"]][1][0]
            es = ctx.models[PlayerName("Ego")].get_state()
            ensure(math.hypot(es.x - ex, es.y - ey) < 1e-6, "the ego player is the obstacle of the given number", got=[es.x, es.y], want=[ex, ey])
            ensure(ctx.models[PlayerName("Ego")].model_geometry.color == "firebrick", "the ego player is red")
    else:
        ensure(PlayerName("Ego") not in ctx.models, "no ego unless asked for")
    if c["run"] and ctx.models:
        starts = {n: m.get_state() for n, m in ctx.models.items()}
        starts = {n: (s.x, s.y) for n, s in starts.items()}
        Simulator().run(ctx)
        for n, xy in starts.items():
            s = ctx.log[n].states.at_interp(0)
            ensure_close([s.x, s.y], xy, "the log starts at the recorded position")
            ensure(float(ctx.log[n].states.get_end()) >= 0.1 - 1e-9, "players of a replica can be simulated")
            vp = ctx.models[n].model_params  # the agent drives the vehicle it is given: it asks for what that vehicle can do
            if isinstance(ctx.models[n], VehicleModel):
                for cmd in ctx.log[n].commands.values:
                    ensure(vp.acc_limits[0] - 1e-9 <= cmd.acc <= vp.acc_limits[1] + 1e-9 and abs(cmd.ddelta) <= vp.ddelta_max + 1e-9,
                           "the agent asks for more than the limits of its vehicle", cmd=str(cmd), kind=str(ctx.models[n].model_geometry.vehicle_type))
        labels.add("ran")
    return tuple(sorted(labels)) or None
