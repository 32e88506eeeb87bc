from __future__ import annotations

from pbt import crshim  # noqa: F401 (first)

import math
from decimal import Decimal as D
from fractions import Fraction as F

import numpy as np
from frozendict import frozendict
from hypothesis import strategies as st
from shapely.geometry import LineString, Point, Polygon
from shapely.ops import substring

from dg_commons import SE2Transform, shapely2crPolygons
from dg_commons.perception.sensor import FullRangeSensor, VisRangeSensor
from dg_commons.sim.models.obstacles import StaticObstacle
from dg_commons.sim.models.pedestrian import PedestrianState
from dg_commons.sim.models.spaceship import SpaceshipState
from dg_commons.sim.models.vehicle import VehicleState
from dg_commons.sim.scenarios.structures import DgScenario
from dg_commons.sim.sim_perception import DelayedObsFilter, FovObsFilter, GhostObsFilter, IdObsFilter, ObsFilter
from dg_commons.sim.simulator_structures import PlayerObservations, SimObservations
from pbt.core import ensure, ensure_close, subtest
from pbt.gens import BIG_ANGLE, fl, nice, wrap

P = "C15"
RULE = ("random arrangements of 1-5 players (boxes, triangles, discs around their positions), 0-4 static obstacles (convex, concave, "
        "lines) and sensors of every range and angle; random observation histories and delays for the delay filter; non-trivial = "
        "somebody could be hidden or seen for sure (labels seen/hidden/out_of_range/out_of_angle), or the named label")
ASSUMPTIONS = [
    "a sensor samples its field of view every `angle_resolution`: a player is required to be seen when a window of directions wider than this resolution sees it first, and required to be hidden when everything within one resolution around it is blocked nearer than its nearest point",
    "one DelayedObsFilter serves one player of one run (it has a history)",
    "the collision library of the sandbox cannot triangulate polygons: pbt/crshim.py supplies the triangles",
]

STATES = dict(
    vehicle=lambda x, y, a: VehicleState(x=x, y=y, psi=a, vx=1, delta=0),
    pedestrian=lambda x, y, a: PedestrianState(x=x, y=y, psi=a, vx=0, dpsi=0),
    spaceship=lambda x, y, a: SpaceshipState(x=x, y=y, psi=a, vx=0, vy=0, dpsi=0, delta=0, m=3.0),
)
BODY = st.fixed_dictionaries(dict(
    k=st.sampled_from(["box", "box", "tri", "disc"]), x=nice(-25, 25), y=nice(-25, 25), a=st.one_of(st.just(0.0), BIG_ANGLE),
    l=nice(0.5, 8), w=nice(0.5, 4), m=st.sampled_from(sorted(STATES)),
))
OBST = st.fixed_dictionaries(dict(
    k=st.sampled_from(["box", "box", "tri", "disc", "ell", "line"]), x=nice(-25, 25), y=nice(-25, 25), a=st.one_of(st.just(0.0), BIG_ANGLE),
    l=nice(0.5, 14), w=nice(0.2, 8),
))


def shape(b):
    l, w = b["l"] / 2, b["w"] / 2
    pts = dict(
        box=[(-l, -w), (l, -w), (l, w), (-l, w)], tri=[(-l, -w), (l, 0), (-l, w)], disc=None,
        ell=[(-l, -w), (l, -w), (l, -w / 2), (-l / 2, -w / 2), (-l / 2, w), (-l, w)], line=[(-l, -w), (l, w)],
    )[b["k"]]
    if pts is None:
        return Point(b["x"], b["y"]).buffer(max(l, w), 4)
    c, s = math.cos(b["a"]), math.sin(b["a"])
    pts = [(b["x"] + c * x - s * y, b["y"] + s * x + c * y) for x, y in pts]
    return LineString(pts) if b["k"] == "line" else Polygon(pts)


def observations(players, t="1", names=None):
    out = {}
    for i, b in enumerate(players):
        out[names[i] if names else f"P{i}"] = PlayerObservations(STATES[b.get("m", "vehicle")](b["x"], b["y"], b["a"]), shape(b))
    return SimObservations(frozendict(out), D(t))


def scenario(obst):
    return DgScenario(static_obstacles=[StaticObstacle(shape(b)) for b in obst])


FOV = st.one_of(st.just(2 * math.pi), st.just(2 * math.pi), fl(0.5, 2 * math.pi), st.sampled_from([math.pi, math.pi / 2]))


@st.composite
def world(draw, n=5):
    """Arrangements in which bodies regularly stand behind each other: some are placed along rays from the observer."""
    own = draw(BODY)
    others, obst = [], []
    many = draw(st.integers(0, 7)) == 0
    for dst, el, k in ((others, BODY, n - 1), (obst, OBST, 4)):
        for _ in range(draw(st.integers(8, 12)) if many and dst is obst else draw(st.integers(0 if dst is obst else 1, k))):
            dst.append(draw(el))
    bearing = draw(fl(-math.pi, math.pi))
    for b in others + obst:
        if draw(st.integers(0, 2)):
            r = draw(fl(2, 30))
            th = bearing + draw(st.one_of(st.just(0.0), fl(-0.4, 0.4)))
            b["x"], b["y"] = own["x"] + r * math.cos(th), own["y"] + r * math.sin(th)
    if draw(st.booleans()):
        a = draw(st.sampled_from([0.0, math.pi / 2, math.pi]))  # face to face, aligned with the axes
        o = draw(st.sampled_from(others))
        d = draw(st.sampled_from([3.0, 5.0, 7.3, 10.1]))
        o.update(a=0.0, k="box", x=own["x"] + round(math.cos(a)) * d, y=own["y"] + round(math.sin(a)) * d)
    rng = draw(st.one_of(st.sampled_from([20.0, 10.0, 40.0]), fl(4, 50)))
    fov = draw(FOV) if draw(st.integers(0, 5)) else 2 * math.pi - math.atan(1 / rng) * draw(fl(1.05, 3.5))  # a narrow blind wedge
    return dict(own=own, others=others, obst=obst, range=rng, fov=fov,
                full=draw(st.integers(0, 4)) == 0, prev=draw(st.sampled_from([None, "ring", "moved"])), prev_t=draw(st.sampled_from(["0.5", "1"])))


def first_hit(origin, end, geoms):
    """Distance along the ray to the first point of any of the geoms (inf if none)."""
    ray = LineString([origin, end])
    best = math.inf
    for g in geoms:
        if g.is_empty or g.distance(Point(origin)) > ray.length:
            continue
        h = ray.intersection(g)
        if not h.is_empty:
            best = min(best, h.distance(Point(origin)))
    return best


def eroded(g, e):
    if g.geom_type == "LineString":
        return substring(g, e, g.length - e) if g.length > 2 * e else Polygon()
    return g.buffer(-e)


def angular_extent(g, o):
    """Bearings (unwrapped around the centroid) spanned by a shape which does not contain the origin."""
    c = g.convex_hull
    th0 = math.atan2(c.centroid.y - o[1], c.centroid.x - o[0])
    d = [wrap(math.atan2(y - o[1], x - o[0]) - th0) for x, y in c.exterior.coords]
    return th0 + min(d), th0 + max(d)


def judge(own, th, rng, fov, p, blockers, res):
    """'seen', 'hidden' or None (cannot be told without knowing which rays the sensor uses)."""
    o = (own["x"], own["y"])
    near = p.distance(Point(o))
    if near > rng + 1e-6:
        return "out_of_range"
    if p.convex_hull.distance(Point(o)) < 0.3 or near < 1e-3:
        return None
    lo, hi = angular_extent(p, o)
    omni = fov > 2 * math.pi - res
    if hi - lo > math.pi - 0.05:
        return None
    if not omni:
        a, b = wrap(lo - th), wrap(lo - th) + hi - lo
        # angular gap to the sector [-fov/2, fov/2] (also one turn further)
        gaps = [max(a + k - fov / 2, -fov / 2 - (b + k)) for k in (-2 * math.pi, 0, 2 * math.pi)]
        if min(gaps) > 1e-6:
            return "out_of_angle"
    n = max(8, int((hi - lo + 2.2 * res) / (res / 12)))
    n = min(n, 150)
    step = (hi - lo + 2.2 * res) / n
    run = best_run = 0
    blocked = True
    slack = 0.6 * step * rng  # what can hide between two of the directions
    small = [eroded(g, slack) for g in blockers]
    large = [g.buffer(slack, 4) for g in blockers]
    for i in range(n + 1):
        a = lo - 1.1 * res + i * step
        end = (o[0] + rng * math.cos(a), o[1] + rng * math.sin(a))
        if blocked and first_hit(o, end, small) > near - 1e-4:
            blocked = False
        d_block = first_hit(o, end, large)
        inside = omni or abs(wrap(a - th)) < fov / 2 - 1e-9
        d_p = first_hit(o, end, [p])
        clear = inside and d_p < min(d_block - 0.03, rng - 1e-6)
        run = run + 1 if clear else 0
        best_run = max(best_run, run)
        if not blocked and best_run * step > 1.3 * res:
            return "seen"
    if blocked:
        return "hidden"
    return "seen" if (best_run - 1) * step > 1.15 * res else None


@subtest(P, world, quick=1200, need=("seen", "hidden", "out_of_range", "out_of_angle"), shards=6)
def players_are_seen_iff_visible(c):
    own = c["own"]
    scen = scenario(c["obst"])
    o = Point(own["x"], own["y"])
    if any(s.shape.distance(o) < 0.3 for s in scen.static_obstacles):
        return None  # the sensor would sit inside an obstacle
    bodies = [own] + c["others"]
    obs = observations(bodies)
    if any(obs.players[k].occupancy.distance(o) < 0.3 for k in obs.players if k != "P0"):
        return None
    fov = 2 * math.pi if c["full"] else c["fov"]
    asked = dict(range=c["range"]) if fov == 2 * math.pi else dict(range=c["range"], field_of_view=fov)  # by default a sensor sees all around
    sensor = (FullRangeSensor if c["full"] else VisRangeSensor)(**asked)
    filt = FovObsFilter(sensor)
    if c["prev"]:  # the filter was used before: for another player, elsewhere, in another world
        other = observations([dict(own, x=own["x"] + 3, y=own["y"] - 4, a=1.0), own], c["prev_t"], ["P0", "P1"])
        if c["prev"] == "ring":
            elsewhere = DgScenario(static_obstacles=[StaticObstacle(Point(own["x"], own["y"]).buffer(2).exterior)])
        else:  # as many obstacles, at other places
            elsewhere = scenario([dict(b, x=b["x"] + 7.0, y=b["y"] - 11.0) for b in c["obst"]])
        filt.sense(elsewhere, other, "P0")
    out = filt.sense(scen, obs, "P0")
    ensure(out.time == obs.time, "time altered")
    ensure("P0" in out.players, "the observer itself is missing")
    for k, v in out.players.items():
        ensure(k in obs.players, "a player was invented", player=k)
        ensure(v == obs.players[k], "a player was altered", player=k)
    labels = set()
    th = own["a"]
    res = math.atan(1 / c["range"])
    for k in obs.players:
        if k == "P0":
            continue
        p = obs.players[k].occupancy
        if c["full"]:
            d = p.distance(o)
            v = "out_of_range" if d > c["range"] + 1e-6 else ("seen" if d < 0.99 * c["range"] else None)
        else:
            blockers = [x.occupancy for q, x in obs.players.items() if q not in ("P0", k)] + [s.shape for s in scen.static_obstacles]
            v = judge(own, th, c["range"], fov, p, blockers, res)
        if v is None:
            continue
        labels.add(v)
        if v == "seen":
            ensure(k in out.players, "a visible player is not observed", key="visible_not_observed", player=k)
        else:
            ensure(k not in out.players, f"an invisible player ({v}) is observed", key=v, player=k)
    return labels


@subtest(P, world, quick=200, need=("limited",))
def a_sensor_which_sees_all_in_range_does_not_see_behind_itself(c):
    """A full range sensor of limited angle either keeps to its angle or refuses: it never shows what is behind the observer."""
    own = c["own"]
    if c["fov"] > 2 * math.pi - math.atan(1 / c["range"]):
        return "full"
    o = (own["x"], own["y"])
    s = FullRangeSensor(range=c["range"], field_of_view=c["fov"])
    s.pose = SE2Transform(o, own["a"])
    try:
        poly = s.fov_as_polygon([])
    except NotImplementedError:
        return "limited"
    for k in range(9):
        a = own["a"] + math.pi + (k - 4) * (math.pi - c["fov"] / 2) / 5
        ensure(not poly.buffer(-1e-6).contains(Point(o[0] + c["range"] / 2 * math.cos(a), o[1] + c["range"] / 2 * math.sin(a))), "a sensor of limited angle sees what is outside of it", direction=a)
    return "limited"


@subtest(P, world, quick=800, need=("free", "blocked"), shards=4)
def sensor_polygon_is_the_visible_area(c):
    own = c["own"]
    o = (own["x"], own["y"])
    geoms = [shape(b) for b in c["obst"] + c["others"]]
    if any(g.distance(Point(o)) < 0.3 for g in geoms):
        return None
    s = VisRangeSensor(range=c["range"], field_of_view=c["fov"])
    s.pose = SE2Transform(o, own["a"])
    crs = [k for g in geoms for k in shapely2crPolygons(g)]
    poly = s.fov_as_polygon(crs)
    R, res = c["range"], math.atan(1 / c["range"])
    ensure(poly.geom_type == "Polygon", "not a polygon")
    reach = max(math.dist(o, p) for p in poly.exterior.coords)
    ensure(reach <= R * (1 + 1e-9), "extends past the range", reach=reach)
    omni = c["fov"] > 2 * math.pi - res
    labels = set()
    if not poly.is_valid:
        poly = poly.buffer(0)
    small = [eroded(g, 0.02) for g in geoms]
    for i in range(1, 17):
        a = own["a"] + (((i * 0.61803398875) % 1 - 0.5) * 2 * math.pi if i < 15 else math.pi - (i - 15) * 1e-3)  # also straight backwards

        def along(t, r):
            return o[0] + r * math.cos(t), o[1] + r * math.sin(t)

        wedge = Polygon([o, along(a - 1.2 * res, R), along(a, R), along(a + 1.2 * res, R)])
        inside = omni or abs(wrap(a - own["a"])) < c["fov"] / 2 - 1.1 * res
        outside = not omni and abs(wrap(a - own["a"])) > c["fov"] / 2 + 1e-6
        # nearest thing in the window of directions around this one / how far one can see at most within it
        lo = min([R * math.cos(1.2 * res)] + [g.intersection(wedge).distance(Point(o)) for g in geoms if g.intersects(wedge)])
        hi = max(min(R, first_hit(o, along(a + k * res / 25, R), small)) for k in range(-30, 31)) if inside else R
        r_in = (lo - 0.03) * math.cos(res) * 0.98
        if inside:
            if r_in > 0.05:
                ensure(poly.distance(Point(o[0] + r_in * math.cos(a), o[1] + r_in * math.sin(a))) < 1e-6,
                       "an unobstructed point within range and angle is not in the sensor polygon", direction=a, r=r_in, free=lo)
                labels.add("free")
            if hi < R - 0.1:  # blocked in all of the window
                r_out = hi + 0.05
                if c["fov"] > 3 and not omni and abs(wrap(a - own["a"])) > math.pi - 2 * res:
                    continue
                ensure(not poly.contains(Point(o[0] + r_out * math.cos(a), o[1] + r_out * math.sin(a))),
                       "the sensor looks through an obstacle", direction=a, r=r_out, blocked_at=hi)
                labels.add("blocked")
        elif outside:
            r = 0.5 * R
            ensure(not poly.contains(Point(o[0] + r * math.cos(a), o[1] + r * math.sin(a))), "the sensor sees outside its angle", direction=a)
            labels.add("outside")
    return labels


class Tag(ObsFilter):
    """A filter with a recognisable effect (drops the named player)."""

    def __init__(self, drop):
        self.drop = drop

    def sense(self, scenario, full_obs, pov):
        if self.drop is None or self.drop == pov:
            return full_obs
        return SimObservations(frozendict({k: v for k, v in full_obs.players.items() if k != self.drop}), full_obs.time)


@st.composite
def delay_case(draw):
    q = draw(st.sampled_from(["0.1", "0.05", "0.25", "0.03"]))
    n = draw(st.one_of(st.integers(1, 12), st.integers(20, 60), st.integers(70, 260)))
    return dict(q=q, t0=draw(st.sampled_from([0, 0, 3, 10])), steps=draw(st.lists(st.sampled_from([1, 1, 1, 2, 5]), min_size=n, max_size=n)),
                lat=draw(st.one_of(st.integers(0, 10).map(lambda k: ["m", k]), st.integers(0, 45).map(lambda k: ["m", k]), st.integers(30, 150).map(lambda k: ["m", k]), st.integers(0, 400).map(lambda k: ["c", k]))),
                drop=draw(st.sampled_from([None, None, "P1"])))


@subtest(P, delay_case, quick=1500, need=("warm", "start", "off_grid", "on_grid"))
def delayed_observations_are_old_ones(c):
    q = D(c["q"])
    lat = q * c["lat"][1] if c["lat"][0] == "m" else D(c["lat"][1]) / 100
    times = []
    t = q * c["t0"]
    for s in c["steps"]:
        times.append(t)
        t += q * s
    filt = DelayedObsFilter(Tag(c["drop"]), lat)
    hist, labels = [], set()
    for i, t in enumerate(times):
        full = observations([dict(k="box", x=float(i), y=0.0, a=0.1 * i, l=1.0, w=1.0), dict(k="box", x=10 + i, y=0.0, a=0.0, l=1.0, w=1.0)], str(t))
        inner = Tag(c["drop"]).sense(None, full, "P0")
        hist.append((t, inner))
        got = filt.sense(DgScenario(), full, "P0")
        ready = [(s, o) for s, o in hist if s + lat <= t]
        if ready:
            s, o = ready[-1]
            ensure(got.players == o.players, "not the latest observation which is at least `latency` old", key="delay_content",
                   now=str(t), latency=str(lat), expected_from=str(s), got_x=got.players["P0"].state.x)
            ensure(got.time == s + lat, "time is not the one of the observation plus the delay", got=str(got.time))
            ensure(got.time <= t, "an observation from the future")
            labels.add("warm")
            labels.add("on_grid" if s + lat == t else "off_grid")
        else:  # nothing is old enough: the oldest one there is
            ensure(got.players == hist[0][1].players, "at the start the oldest observation is given", now=str(t))
            labels.add("start")
    return labels


@st.composite
def ghost_case(draw):
    n = draw(st.integers(2, 4))
    return dict(players=draw(st.lists(BODY, min_size=n, max_size=n)), ghost=draw(st.sampled_from(["P0", "P1", "P2", "P3", "nobody"])),
                pov=draw(st.integers(0, n - 1)), far=draw(st.one_of(st.just(0), fl(0, 60), st.just("exact"))), drop=draw(st.sampled_from([None, None, "P0", "P1"])),
                second=draw(st.sampled_from([None, "P2"])), k=draw(st.integers(1, 5)), t=draw(st.sampled_from(["0", "1", "2.5"])))


@subtest(P, ghost_case, quick=1200, need=("ghosted", "kept", "is_ghost", "already_gone"))
def ghosts_are_hidden_only_as_configured(c):
    pov = f"P{c['pov']}"
    if c["far"] == "exact" and c["ghost"] != "nobody" and int(c["ghost"][1]) < len(c["players"]) and c["ghost"] != pov:
        a, b = c["players"][c["pov"]], c["players"][int(c["ghost"][1])]
        a.update(x=float(round(a["x"])), y=float(round(a["y"])))
        b.update(x=a["x"] + 3.0 * c["k"], y=a["y"] - 4.0 * c["k"])
    obs = observations(c["players"], c["t"])

    def dist(a, b):
        return float(np.hypot(obs.players[a].state.x - obs.players[b].state.x, obs.players[a].state.y - obs.players[b].state.y))

    far = c["far"]
    if far == "exact":
        far = 5.0 * c["k"]
    filt = GhostObsFilter(Tag(c["drop"]), c["ghost"], far)
    ghosts = [c["ghost"]]
    if c["second"]:
        filt = GhostObsFilter(filt, c["second"], far)
        ghosts.append(c["second"])
    before = dict(obs.players)
    out = filt.sense(DgScenario(), obs, pov)
    ensure(dict(obs.players) == before, "the given observations changed")
    ensure(out.time == obs.time, "time of the observation")
    exp = {k: v for k, v in obs.players.items() if k != c["drop"] or k == pov}
    labels = set()
    for g in ghosts:
        if g == pov:
            labels.add("is_ghost")
        elif g in exp:
            d = dist(pov, g)
            if c["far"] == "exact" and g == c["ghost"]:  # exactly at the distance: not further than it
                assert d == far
                labels.add("kept")
                labels.add("at_distance")
                continue
            if abs(d - far) < 1e-9 and d > 0:
                return None
            if d == 0:
                labels.add("kept")
            elif d > far:
                del exp[g]
                labels.add("ghosted")
            else:
                labels.add("kept")
        else:
            labels.add("already_gone")
    ensure(dict(out.players) == exp, "wrong set of players", got=sorted(out.players), expected=sorted(exp), ghosts=ghosts, pov=pov)
    ensure(out.time == obs.time, "time altered")
    same = IdObsFilter().sense(DgScenario(), obs, pov)
    ensure(same == obs and dict(same.players) == before, "the identity filter changes the observations")
    return labels
