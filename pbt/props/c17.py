from __future__ import annotations

import copy
import math
from functools import lru_cache

import numpy as np
from hypothesis import strategies as st
from shapely.geometry import LinearRing, LineString, MultiPolygon, Point, Polygon, box
from shapely.ops import unary_union

from dg_commons.maps.road_bounds import build_road_boundary_obstacle
from dg_commons.sim.models.obstacles import ObstacleGeometry, StaticObstacle
from dg_commons.sim.scenarios import load_commonroad_scenario
from dg_commons.sim.scenarios.structures import DgScenario
from pbt.core import ensure, ensure_close, ensure_raises, subtest
from pbt.gens import fl, nice
from pbt.nets import lane_polygon, lanelets, mk_network, mk_scenario, networks

P = "C17"
RULE = ("random road networks (1-3 pieces: chains of 1-3 lanelets with forks, neighbours in both directions, closed rings, dead ends in "
        "rings, crossing anywhere) and the three shipped scenarios, with buffers 0-1 m; random sets of obstacles and queries; "
        "labels: gates/no_gates/interior/single_piece")
ASSUMPTIONS = ["rounded corners of the buffered border are polygons: positions are compared within 3 % of the buffer"]
XMLS = ["ESP_Barcelona-20_23_T-1", "USA_Lanker-1_1_T-1", "USA_Phoenix-51_10_T-1"]


@st.composite
def road_case(draw):
    return dict(net=draw(networks()), b=draw(st.one_of(st.sampled_from([0.1, 0.0, 0.5]), fl(0.02, 1.0))), dg=draw(st.booleans()))


@lru_cache(None)
def _xml(name):
    return load_commonroad_scenario(name)[0]


def describe(c):
    """scenario, lanes as (id, left, right, n_pred, n_succ)"""
    if "xml" in c:
        sc = _xml(c["xml"])
        return sc, [(x.lanelet_id, x.left_vertices, x.right_vertices, len(x.predecessor), len(x.successor)) for x in sc.lanelet_network.lanelets]
    ls = lanelets(c["net"])
    return mk_scenario(c["net"]), [(i, l, r, len(p), len(s)) for i, l, r, _, p, s in ls]


@subtest(P, road_case, quick=1200, need=("gates", "no_gates", "interior"), shards=6,
         examples=[dict(xml=x, b=b, dg=True) for x in XMLS for b in (0.1, 0.0)])
def boundaries_are_the_border_without_gates(c):
    scen, lanes = describe(c)
    b = c["b"]
    before = [(x.lanelet_id, x.left_vertices.copy(), x.right_vertices.copy(), list(x.predecessor), list(x.successor)) for x in scen.lanelet_network.lanelets]
    bounds, gates_out = build_road_boundary_obstacle(scen, buffer=b)
    polys = [lane_polygon(l, r) for _, l, r, _, _ in lanes]
    if not all(p.is_valid for p in polys):
        return None
    area = unary_union(polys)
    fat = unary_union([p.buffer(b) for p in polys])
    gates = []
    for _, l, r, np_, ns in lanes:
        if ns == 0:
            gates.append(LineString([r[-1], l[-1]]))
        if np_ == 0:
            gates.append(LineString([r[0], l[0]]))
    ensure(len(gates_out) == len(gates), "number of gates", got=len(gates_out), expected=len(gates))
    for g in gates:
        ensure(any(o.buffer(1e-9).covers(g) for o in gates_out), "a gate is not among those returned")
    labels = {"gates" if gates else "no_gates"}
    eps = 1e-6 + 0.03 * b
    total = sum(x.length for x in bounds)
    step = max(0.25, total / 600)
    border = fat.boundary
    for x in bounds:
        ensure(x.geom_type in ("LineString", "LinearRing") and x.length > 0, "a boundary is not a line", got=x.geom_type)
        ensure(border.buffer(1e-4 + eps).covers(x), "a boundary leaves the border of the road")
        if b > 0 or True:
            inner = area.buffer(-1e-4) if b == 0 else area
            ensure(not x.intersects(inner), "a boundary cuts across the drivable area")
    allb = unary_union(bounds) if bounds else LineString()
    # everything on the border but the gates is blocked
    G = unary_union(gates) if gates else None
    n = max(40, int(border.length / step))
    parts = list(border.geoms) if hasattr(border, "geoms") else [border]
    for part in parts:
        m = max(8, int(part.length / step))
        for i in range(m):
            pt = part.interpolate(i / m, normalized=True)
            if G is not None and pt.distance(G) <= 2 * b + 0.02 + eps:
                continue
            ensure(not allb.is_empty and pt.distance(allb) <= 0.01 + eps, "a stretch of the border is not blocked", at=(pt.x, pt.y), b=b)
    polys_ = list(fat.geoms) if hasattr(fat, "geoms") else [fat]
    if any(p.interiors for p in polys_):
        labels.add("interior")
    # gates on the outer border are open
    for g in gates:
        mid = g.interpolate(0.5, normalized=True)
        if not allb.is_empty:
            outer = min(mid.distance(p.exterior) for p in polys_)
            if outer <= b * 1.001 + 1e-9:
                ensure(g.distance(allb) > 0.9 * b, "a gate is blocked", key="gate_blocked", b=b, dist=g.distance(allb))
                labels.add("open_gate")
            elif any(mid.distance(LineString(h)) <= b * 1.001 + 1e-9 for p in polys_ for h in p.interiors):
                ensure(g.distance(allb) > 0.9 * b, "a gate is blocked", key="inner_gate_blocked", b=b, dist=g.distance(allb))
                labels.add("inner_gate")
    if len(bounds) == 1:
        labels.add("single_piece")
    after = [(x.lanelet_id, x.left_vertices, x.right_vertices, list(x.predecessor), list(x.successor)) for x in scen.lanelet_network.lanelets]
    ensure(all(p[0] == q[0] and np.array_equal(p[1], q[1]) and np.array_equal(p[2], q[2]) and p[3:] == q[3:] for p, q in zip(before, after)), "the scenario was changed")
    if c["dg"]:
        own = [StaticObstacle(box(0, 0, 1, 1)), StaticObstacle(Point(3, 3).buffer(1))]
        keep = list(own)
        s = DgScenario(scen, static_obstacles=own, use_road_boundaries=True, road_boundaries_buffer=b)
        ensure(own == keep and len(own) == 2, "the given list was changed")
        ensure(list(s.static_obstacles[:2]) == keep, "the given obstacles are not kept")
        ensure(len(s.static_obstacles) == 2 + len(bounds), "number of obstacles")
        for x, o in zip(bounds, s.static_obstacles[2:]):
            ensure(o.shape.equals(x), "obstacle is not the boundary")
        _index(s, [box(-2, -2, 5, 5), box(-30, -30, 30, 30)])
        ensure(s.lanelet_network is scen.lanelet_network and s.scenario is scen, "lanelet network")
        none = DgScenario(scen, static_obstacles=own)
        ensure(len(none.static_obstacles) == 2, "boundaries although none are wanted")
    return labels


def _index(s, queries):
    shapes = [o.shape for o in s.static_obstacles]
    tree = s.strtree_obstacles
    ensure(len(tree.geometries) == len(shapes), "the index has another number of obstacles")
    for i, g in enumerate(shapes):
        ensure(tree.geometries[i].equals(g), "the index holds another geometry", i=i)
    n = 0
    for q in queries:
        got = sorted(int(i) for i in tree.query(q, predicate="intersects"))
        exp = [i for i, g in enumerate(shapes) if q.intersects(g)]
        ensure(got == exp, "the index returns other obstacles than those there", got=got, expected=exp)
        n += len(exp)
    return n


GEO = st.fixed_dictionaries(dict(k=st.sampled_from(["box", "line", "ring", "point", "multi", "disc"]), x=nice(-10, 10), y=nice(-10, 10), s=nice(0.5, 6), t=nice(0.2, 4)))


def geo(g):
    x, y, s, t = g["x"], g["y"], g["s"], g["t"]
    return dict(box=lambda: box(x, y, x + s, y + t), line=lambda: LineString([(x, y), (x + s, y - t), (x + s, y + t)]),
                ring=lambda: LinearRing([(x, y), (x + s, y), (x, y + t)]), point=lambda: Point(x, y),
                multi=lambda: MultiPolygon([box(x, y, x + s, y + t), box(x + s + 1, y, x + s + 2, y + t)]), disc=lambda: Point(x, y).buffer(t))[g["k"]]()


@st.composite
def obst_case(draw):
    return dict(obst=draw(st.lists(GEO, max_size=12)), q=draw(st.lists(GEO, min_size=1, max_size=4)), as_=draw(st.sampled_from(["list", "tuple", "none"])),
                want=draw(st.booleans()), bad=draw(st.booleans()))


@subtest(P, obst_case, quick=500, need=("hit", "empty"))
def obstacles_and_index_agree(c):
    obst = [StaticObstacle(geo(g)) for g in c["obst"]]
    if c["as_"] == "none":
        obst = []
    arg = dict(list=list, tuple=tuple, none=lambda x: None)[c["as_"]](obst)
    s = DgScenario(static_obstacles=arg, use_road_boundaries=c["want"])  # without a scenario there are no boundaries
    ensure(len(s.static_obstacles) == len(obst) and all(a is b for a, b in zip(s.static_obstacles, obst)), "obstacles differ from those given")
    ensure(s.lanelet_network is None, "lanelet network without a scenario")
    n = _index(s, [geo(g) for g in c["q"]])
    if isinstance(arg, list):
        arg.append(StaticObstacle(box(0, 0, 1, 1)))
        ensure(len(s.static_obstacles) == len(obst), "the scenario follows later changes of the caller's list")
    other = DgScenario(static_obstacles=[StaticObstacle(box(50, 50, 51, 51))])
    ensure(len(s.static_obstacles) == len(obst) and len(other.static_obstacles) == 1 and len(DgScenario().static_obstacles) == 0, "scenarios share obstacles")
    if c["bad"]:
        ensure_raises(lambda: DgScenario(static_obstacles=[*obst, box(0, 0, 1, 1)]), Exception, "a bare shape is not an obstacle")
        ensure_raises(lambda: DgScenario(scenario="x"), Exception, "not a scenario")
        ensure_raises(lambda: DgScenario(scenario=_xml(XMLS[1]), use_road_boundaries=True, road_boundaries_buffer=-0.1), Exception, "negative buffer")
    return "hit" if n else ("empty" if not obst else "miss")
