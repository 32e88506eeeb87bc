"""C25: evaluation metrics (safety, comfort, efficiency)."""
from __future__ import annotations

import cmath
import math
from bisect import bisect_right
from copy import deepcopy
from dataclasses import dataclass

from hypothesis import strategies as st
from shapely.geometry import Point, Polygon

from dg_commons import DgSampledSequence
from dg_commons.eval.comfort import acc_freq_filter, get_acc_rms, get_max_jerk
from dg_commons.eval.efficiency import (desired_lane_reached, distance_traveled, get_lanelet_from_dglanelet, get_predecessor_dglane, get_predecessor_lane,
                                         get_successor_dglane, get_successor_lane, time_goal_lane_reached)
from dg_commons.eval.safety import get_min_dist, get_min_dist_at_t, get_min_ttc_max_drac, get_ttc_drac_at_t, has_collision
from dg_commons.maps.lanes import DgLanelet
from dg_commons.sim.collision_structures import CollisionReport
from dg_commons.sim.goals import PlanningGoal, PolygonGoal, RefLaneGoal
from dg_commons.sim.models.pedestrian import PedestrianCommands
from dg_commons.sim.models.vehicle import VehicleCommands, VehicleState
from dg_commons.sim.simulator_structures import PlayerLog, SimLog
from pbt import gens, nets, zoo
from pbt.core import ensure, ensure_close, fail, subtest
from pbt.gens import ANGLE, BIG_ANGLE, fl, nice, se2, wrap
from pbt.lanes import comp, lane_points, norm_angle, ref_lane, rot, smooth_lane, vertices

P = "C25"
RULE = ("random logs of 2-4 players of all model types with individual times and missions, random command signals, random chains of lanelets; "
        "labels name what decides (distance, closing, apart, finished player, lane position)")
ASSUMPTIONS = ["velocities are those along the heading (vx): lateral velocities are not part of the metrics; robots without a speed in their state only have distances",
               "time to collision is judged on the 0.1 s grid up to 3 s with frozen velocities, for players closing in such that their centres would meet within 5 s; "
               "cases within 1e-6 of such a border are skipped",
               "lanes: lanelets have at least three points and do not overlap others of the chain; beyond the ends of the chain only termination is checked"]


# ------------------------------------------------------------------------------------------------ logs
@st.composite
def player(draw, near, fams):
    fam = draw(st.sampled_from(fams))
    kind = draw(st.sampled_from(zoo.VEH)) if fam in ("vehicle", "vehicle_dyn") else None
    t = draw(gens.timestamps(1, 5, kinds=("f", "D", "i")))
    p = zoo.mk_params(fam, kind, None)
    vals = []
    x, y = draw(fl(-near, near)), draw(fl(-near, near))
    psi = draw(ANGLE)
    for _ in t["ts"]:
        v = draw(zoo.state_of(fam, p, span=near))
        v.update(x=x, y=y, psi=psi)
        x, y, psi = x + draw(fl(-4, 4)), y + draw(fl(-4, 4)), psi + draw(fl(-0.5, 0.5))
        vals.append(v)
    goal = draw(st.sampled_from([None, None, "far", "end", "here", "end", "here"]))
    window = draw(st.one_of(st.none(), st.tuples(fl(-1, 6), fl(0.3, 6))))  # a goal which only exists for a while
    return dict(window=window and [round(window[0], 3) + 3e-4, round(sum(window), 3) + 7e-4], fam=fam, kind=kind, p=None, g=draw(zoo.geometry_of(fam, kind)), ts=[float(q) - float(t["ts"][0]) for q in t["ts"]], kt=t["kind"], vals=vals, goal=goal)


def tcast(kind, t):
    # all players of a log share the type of their times
    return gens.D(str(round(t, 6))) if kind == "D" else t


@st.composite
def log_case(draw, fams=tuple(zoo.FAMILIES), nmax=4, near=15.0):
    ps = [draw(player(near, fams)) for _ in range(draw(st.integers(2, nmax)))]
    c = dict(players=ps, kt=draw(st.sampled_from(["f", "D"])), ego=draw(st.integers(0, len(ps) - 1)), rng=draw(st.sampled_from(["all", "all", "from", "to", "both"])),
             ra=draw(fl(0, 1)), rb=draw(fl(0, 1)), move=draw(se2(big=True)), perm=draw(st.integers(0, 23)), zero=draw(st.sampled_from([None, None, "ra", "rb"])))
    if c["zero"]:  # a log which begins before 0, a border of the range is 0
        cand = borders([float(t) for t in times(c, ps[c["ego"]])])
        z = cand[int(c[c["zero"]] * (len(cand) - 1e-9))]
        for p in ps:
            p["ts"] = [t - z for t in p["ts"]]
    return c


def borders(ts):
    """between the samples, and on them: they belong to the range"""
    cand = sorted([ts[0] - 0.5] + [(a + b) / 2 for a, b in zip(ts, ts[1:])] + [ts[-1] + 0.5] + list(ts))
    return [0.0 if abs(x) < 3e-6 else x for x in cand]


def times(c, p):
    ts = [round(t, 6) for t in p["ts"]]
    return [gens.D(str(t)) for t in ts] if c["kt"] == "D" else ts


def moved(v, m):
    if m is None:
        return v
    q = comp(m, [v["x"], v["y"], v["psi"]])
    return dict(v, x=q[0], y=q[1], psi=q[2])


def name(i):
    return f"P{i}" if i else "Ego"


def goal_poly(p, m=None):
    v = p["vals"][-1 if p["goal"] == "end" else 0]
    at = (v["x"], v["y"]) if p["goal"] in ("end", "here") else (500.0, 500.0)
    pts = [(at[0] + a, at[1] + b) for a, b in ((-1.5, -1.2), (1.4, -1.3), (1.6, 1.1), (-1.1, 1.7))]
    if m is not None:
        pts = [(z.real, z.imag) for z in (rot(m, complex(*q)) for q in pts)]
    return Polygon(pts)


@dataclass(frozen=True)
class TimedGoal(PlanningGoal):
    area: Polygon
    since: float
    until: float

    def is_fulfilled(self, state, at=0):
        return self.since <= float(at) <= self.until and self.area.contains(Point(state.x, state.y))

    def get_plottable_geometry(self, at=0):
        return self.area

    @property
    def is_static(self):
        return False


def build(c, m=None, missions=True):
    logs, models, goals = SimLog(), {}, {}
    for i, p in enumerate(c["players"]):
        ts = times(c, p)
        states = [zoo.mk_state(p["fam"], moved(v, m)) for v in p["vals"]]
        lim = zoo.cmd_limits(p["fam"], zoo.mk_params(p["fam"], p["kind"], None))
        cmd = zoo.mk_cmd(p["fam"], {k: 0.0 for k in lim})
        seq = lambda v: DgSampledSequence[object]([ts[0]], [v])  # noqa: E731
        logs[name(i)] = PlayerLog(states=DgSampledSequence[object](ts, states), commands=seq(cmd), extra=DgSampledSequence[object]([], []), info=seq(0.0))
        models[name(i)] = zoo.mk_model(dict(p, x=moved(p["vals"][-1], m)))
        if missions and p["goal"]:
            goals[name(i)] = TimedGoal(goal_poly(p, m), *p["window"]) if p.get("window") else PolygonGoal(goal_poly(p, m))
    return logs, models, goals


class Edge(Exception):
    pass


def lt(a, b, eps=1e-6):
    if abs(a - b) < eps:
        raise Edge()
    return a < b


def state_at(c, p, t):
    ts, vs = [float(x) for x in times(c, p)], p["vals"]
    if t <= ts[0]:
        return vs[0]
    if t >= ts[-1]:
        return vs[-1]
    i = bisect_right(ts, t)
    w = (t - ts[i - 1]) / (ts[i] - ts[i - 1])
    return {k: vs[i - 1][k] * (1 - w) + vs[i][k] * w for k in vs[i]}


def footprint(p, s):
    return zoo.mk_model(dict(p, x=s)).get_footprint()


def running(c, t):
    """Players whose goal is not fulfilled at t: {index: state}"""
    out = {}
    for i, p in enumerate(c["players"]):
        s = state_at(c, p, t)
        if p["goal"]:
            g, q = goal_poly(p), Point(s["x"], s["y"])
            if g.exterior.distance(q) < 1e-6:
                raise Edge()
            at = min(t, float(times(c, p)[-1]))  # of the state
            there = not p.get("window") or lt(p["window"][0], at) and lt(at, p["window"][1])
            if g.contains(q) and there:
                continue
        out[i] = s
    return out


def dists_at(c, t, ego):
    run = running(c, t)
    if ego not in run:
        return {}
    a = footprint(c["players"][ego], run[ego])
    return {i: a.distance(footprint(c["players"][i], s)) for i, s in run.items() if i != ego}


def crange(c):
    ts = [float(t) for t in times(c, c["players"][c["ego"]])]
    cand = borders(ts)
    lo = cand[int(c["ra"] * (len(cand) - 1e-9))] if c["rng"] in ("from", "both") else None
    hi = cand[int(c["rb"] * (len(cand) - 1e-9))] if c["rng"] in ("to", "both") else None
    sel = [t for t in ts if (lo is None or t >= lo) and (hi is None or t <= hi)]
    cast = (lambda t: None if t is None else gens.D(repr(t))) if c["kt"] == "D" else (lambda t: t)
    return (cast(lo), cast(hi)), sel


def frozen(logs, models):
    return {n: (list(l.states.timestamps), [dict(s.__dict__) for s in l.states.values]) for n, l in logs.items()}, {n: dict(m.get_state().__dict__) for n, m in models.items()}


def same_extreme(got, options, what):
    """got = (value, player, time); options = {(player, time): value}; sense: the extreme value is the first one."""
    val, who, t = got
    if not options:
        ensure(math.isinf(val) and who is None and t is None, f"{what}: {got} although there is nothing to measure", key=what)
        return


@subtest(P, log_case, quick=700, need=("distance", "finished", "timed"))
def smallest_distance(c):
    logs, models, goals = build(c)
    before = frozen(logs, models)
    rng, sel = crange(c)
    en = name(c["ego"])
    val, who, t = get_min_dist(logs, models, goals, en, rng)
    ensure(frozen(logs, models) == before, "the log or the models changed", key="changed")
    labels = []
    try:
        table = {(i, tt): d for tt in sel for i, d in dists_at(c, tt, c["ego"]).items()}
        if len({i for i, _ in table}) < len(c["players"]) - 1:
            labels.append("finished")
        if any(p["goal"] == "here" and p["window"] for p in c["players"]):
            labels.append("timed")
    except Edge:
        return None
    if not table:
        ensure(math.isinf(val) and val > 0 and who is None and t is None, f"smallest distance {(val, who, t)} although nobody is there")
        return labels + ["nobody"]
    m = min(table.values())
    ensure_close(float(val), m, "smallest distance", abs_tol=1e-6)
    hit = [k for k in table if name(k[0]) == who and abs(k[1] - float(t)) < 1e-9]
    ensure(len(hit) == 1, f"smallest distance to {who} at {t}, which is not part of the log in range {rng}")
    ensure_close(table[hit[0]], m, "distance to the reported player at the reported time", abs_tol=1e-6)
    # at a single time, and from the other's view
    t1 = times(c, c["players"][c["ego"]])[0]
    d, w = get_min_dist_at_t(logs, models, goals, t1, en)
    try:
        row = dists_at(c, float(t1), c["ego"])
    except Edge:
        return None
    ensure(math.isinf(d) if not row else abs(d - min(row.values())) < 1e-6, f"distance at {t1}: {d} instead of {row}")
    if len(c["players"]) == 2 and w is not None:
        d2, w2 = get_min_dist_at_t(logs, models, goals, t1, w)
        ensure_close(float(d2), float(d), "distance seen from the other player", abs_tol=1e-9)
        ensure(w2 == en, f"closest of {w} is {w2}")
    # another frame, another order of the players
    l2, m2, g2 = build(c, c["move"])
    names = list(l2)
    k = c["perm"] % len(names)
    l2 = SimLog({n: l2[n] for n in names[k:] + names[:k]})
    v2 = get_min_dist(l2, m2, g2, en, rng)
    ensure_close(float(v2[0]), m, "smallest distance in another frame", abs_tol=1e-6)
    return labels + ["distance" if m > 0 else "contact"]


# ------------------------------------------------------------------------------------------------ time to collision
MOVERS = ("vehicle", "vehicle_dyn", "pedestrian", "vehicle")


@st.composite
def ttc_case(draw):
    """Two or three players, the others often on a course which brings them close to the first."""
    c = draw(log_case(MOVERS, nmax=3, near=12.0))
    for p in c["players"]:
        n = 1 if draw(st.booleans()) else len(p["ts"])
        p["ts"], p["vals"] = p["ts"][:n], p["vals"][:n]
        if draw(st.integers(0, 3)):
            p["goal"] = None
    a = c["players"][c["ego"]]["vals"][0]
    for i, p in enumerate(c["players"]):
        if i == c["ego"]:
            continue
        aim, T = draw(st.sampled_from(["at", "at", "beside", "free"])), draw(fl(0.2, 4.0))
        if aim == "free":
            continue
        for v in p["vals"]:
            off = draw(fl(-1, 1)) if aim == "at" else draw(fl(-8, 8))
            # position such that centres (almost) coincide after T
            ex, ey = a["x"] + T * a["vx"] * math.cos(a["psi"]), a["y"] + T * a["vx"] * math.sin(a["psi"])
            v["x"] = ex - T * v["vx"] * math.cos(v["psi"]) - off * math.sin(v["psi"])
            v["y"] = ey - T * v["vx"] * math.sin(v["psi"]) + off * math.cos(v["psi"])
    return c


def vel(s):
    return complex(s["vx"] * math.cos(s["psi"]), s["vx"] * math.sin(s["psi"]))


def hull(poly):
    q = list(poly.convex_hull.exterior.coords)[:-1]
    return [complex(*z) for z in q]


def gap(A, B):
    """Signed separation of convex polygons (vertex lists) by the separating axis theorem: > 0 apart."""
    best = -math.inf
    for pol in (A, B):
        for a, b in zip(pol, pol[1:] + pol[:1]):
            n = (b - a) * -1j
            if abs(n) < 1e-12:
                continue
            n /= abs(n)
            pa = [(z * n.conjugate()).real for z in A]
            pb = [(z * n.conjugate()).real for z in B]
            best = max(best, min(pb) - max(pa), min(pa) - max(pb))
    return best


def ttc_pair(pa, sa, pb, sb):
    """(judged, time, distance of a): None if they do not close in."""
    d = complex(sb["x"] - sa["x"], sb["y"] - sa["y"])
    if abs(d) < 1e-6:
        raise Edge()
    rv = vel(sb) - vel(sa)
    closing = -(rv * (d / abs(d)).conjugate()).real
    if not lt(0, closing):
        return None
    if lt(5.0, abs(d) / closing):
        return None
    A, B = hull(footprint(pa, sa)), hull(footprint(pb, sb))
    for k in range(0, 32):
        t = 0.1 * k
        g = gap(A, [z + rv * t for z in B])
        if abs(g) < 1e-6:
            raise Edge()
        if k == 31 and g < 0:
            raise Edge()  # the last step of the search: 3.0 s or 3.1 s, depending on rounding
        if g < 0:
            return t, abs(sa["vx"]) * t
    return math.inf, math.inf


def ttc_table(c, t, ego):
    run = running(c, t)
    if ego not in run:
        return {}
    out = {}
    for i, s in run.items():
        if i == ego:
            continue
        r = ttc_pair(c["players"][ego], run[ego], c["players"][i], s)
        if r is None:
            continue
        ttc, dtc = r
        v = run[ego]["vx"]
        if dtc > 0 and dtc < 1e-9 or 0 < abs(v) < 1e-6:
            raise Edge()
        out[i] = (ttc, v * v / (2 * dtc) if dtc > 0 else math.inf)
    return out


@subtest(P, ttc_case, quick=900, need=("collision", "apart", "no collision"))
def time_to_collision_and_deceleration(c):
    logs, models, goals = build(c)
    before = frozen(logs, models)
    rng, sel = crange(c)
    en = name(c["ego"])
    got = get_min_ttc_max_drac(logs, models, goals, en, rng)
    ensure(frozen(logs, models) == before, "the log or the models changed", key="changed")
    try:
        table = {(i, t): v for t in sel for i, v in ttc_table(c, t, c["ego"]).items()}
    except Edge:
        return None
    finite = {k: v[0] for k, v in table.items() if v[0] < math.inf}
    ttc, who, t = got[:3]
    if not finite:
        ensure(ttc == math.inf and who is None and t is None, f"time to collision {got[:3]}, but nobody collides within 3 s: {table}", key="ttc")
    else:
        m = min(finite.values())
        ensure_close(float(ttc), m, "time to collision", abs_tol=1e-6, key="ttc")
        hit = [k for k in finite if name(k[0]) == who and abs(k[1] - float(t)) < 1e-9]
        ensure(len(hit) == 1 and abs(finite[hit[0]] - m) < 1e-6, f"time to collision {got[:3]} instead of {finite}", key="ttc")
    drac, who, t = got[3:]
    if not table:
        ensure(drac == -math.inf and who is None and t is None, f"deceleration {got[3:]}, but nobody approaches", key="drac")
    else:
        m = max(v[1] for v in table.values())
        if math.isinf(m):
            ensure(drac == math.inf, f"deceleration {drac} instead of an infinite one: {table}", key="drac")
        else:
            ensure_close(float(drac), m, "deceleration to avoid the collision", abs_tol=1e-6, rel_tol=1e-6, key="drac")
        hit = [k for k in table if name(k[0]) == who and abs(k[1] - float(t)) < 1e-9]
        ensure(len(hit) == 1, f"deceleration {got[3:]} of a player not approaching: {table}", key="drac")
        v = table[hit[0]][1]
        ensure(v == m or abs(v - m) < 1e-6 * (1 + m), f"deceleration {got[3:]} of the wrong player: {table}", key="drac")
    if len(c["players"]) == 2 and sel:
        # the other player sees the same time to collision
        t1 = times(c, c["players"][c["ego"]])[0]
        a = get_ttc_drac_at_t(logs, models, goals, t1, en)
        b = get_ttc_drac_at_t(logs, models, goals, t1, name(1 - c["ego"]))
        try:
            both = len(running(c, float(t1))) == 2
            tab = ttc_table(c, float(t1), c["ego"])
        except Edge:
            return None
        if both:
            ensure(a[0] == b[0] or abs(a[0] - b[0]) < 1e-9, f"time to collision {a[0]} seen from one, {b[0]} seen from the other", key="symmetric")
            if not tab:
                ensure(a[0] == math.inf and a[2] == -math.inf, "danger reported for players which do not approach", key="apart")
    l2, m2, g2 = build(c, c["move"])
    g = get_min_ttc_max_drac(l2, m2, g2, en, rng)
    for k in (0, 3):
        ensure(g[k] == got[k] or abs(g[k] - got[k]) < 1e-6 * (1 + abs(got[k])), f"{got[k]} becomes {g[k]} in another frame", key="frame")
    return "collision" if finite else "no collision" if table else "apart"


@subtest(P, lambda: st.lists(st.lists(st.sampled_from(["Ego", "ego", "P1", "P2", "Ego2"]), min_size=2, max_size=2, unique=True), max_size=6), quick=300, need=("ego", "others"))
def collisions_of_the_ego(pairs):
    reports = [CollisionReport(players={n: None for n in p}, impact_point=Point(0, 0), impact_normal=None, at_time=0) for p in pairs]
    want = any("Ego" in p for p in pairs)
    ensure(has_collision(reports) is want, f"has_collision {has_collision(reports)} for {pairs}")
    return "ego" if want else "others"


# ------------------------------------------------------------------------------------------------ comfort
@st.composite
def signal_case(draw):
    n = draw(st.integers(1, 24))
    acc = st.one_of(fl(-8, 5), st.sampled_from([0.0, 1.0, -3.0]))
    return dict(acc=draw(st.lists(acc, min_size=n, max_size=n)), dt=draw(st.lists(st.sampled_from(["0.1", "0.1", "0.05", "0.2", "0.35"]), min_size=n, max_size=n)),
                uni=draw(st.booleans()), kt=draw(st.sampled_from(["f", "D"])), t0=draw(st.sampled_from(["0", "0", "2.5", "-1", "-0.47"])), z=draw(st.sampled_from([None, "lo", "hi"])), ped=draw(st.booleans()),
                a=draw(st.integers(0, 24)), b=draw(st.integers(0, 24)), rng=draw(st.sampled_from(["all", "all", "from", "to", "both"])), k=draw(fl(-3, 3)), stretch=draw(st.sampled_from([2, 3, 10])),
                exact=draw(st.booleans()))


def commands(c, k=1.0, stretch=1, dt=None):
    t, ts = gens.D(c["t0"]), []
    for d in c["dt"]:
        ts.append(t)
        t += gens.D(dt or d) * stretch
    ts = ts if c["kt"] == "D" else [float(x) for x in ts]
    mk = (lambda a: PedestrianCommands(acc=a, dpsi=0.3)) if c["ped"] else (lambda a: VehicleCommands(acc=a, ddelta=0.3))
    return DgSampledSequence[object](ts, [mk(a * k) for a in c["acc"]])


def t_range(c, ts):
    n = len(ts)
    half = (ts[1] - ts[0]) / 3 if n > 1 else 1
    a, b = sorted((c["a"] % n, c["b"] % n))
    lo = ts[a] - half / (2 if c["kt"] == "f" else gens.D(2)) if c["rng"] in ("from", "both") else None
    hi = ts[b] + half / (2 if c["kt"] == "f" else gens.D(2)) if c["rng"] in ("to", "both") else None
    if n > 1:
        m = min(q - p for p, q in zip(ts, ts[1:])) / 3
        m = m * 0 if c.get("exact") else m
        lo, hi = None if lo is None else ts[a] - m, None if hi is None else ts[b] + m

    def inside(lo, hi):
        return [i for i in range(n) if (lo is None or ts[i] >= lo) and (hi is None or ts[i] <= hi)]
    if ts[0] < 0 and c["z"]:  # zero is a time like any other
        z = (ts[0] * 0 if c["z"] == "lo" and lo is not None else lo, ts[0] * 0 if c["z"] == "hi" and hi is not None else hi)
        if inside(*z):
            lo, hi = z
    return (lo, hi), inside(lo, hi)


@subtest(P, signal_case, quick=900, need=("jerk",))
def largest_jerk(c):
    u = commands(c)
    rng, idx = t_range(c, list(u.timestamps))
    before = list(u.timestamps), [v.acc for v in u.values]
    got = float(get_max_jerk(u, rng))
    ensure((list(u.timestamps), [v.acc for v in u.values]) == before, "the log changed")
    ts = [float(t) for t in u.timestamps]
    jerk = lambda i: abs(c["acc"][i] - c["acc"][i - 1]) / (ts[i] - ts[i - 1])  # noqa: E731
    # the pair which straddles the beginning of the range may count or not
    strict = max([jerk(i) for i in idx if i - 1 in idx] + [0.0])
    wide = max([jerk(i) for i in idx if i > 0] + [0.0])
    ensure(any(abs(got - w) <= 1e-9 * (1 + w) for w in (strict, wide)), f"largest jerk {got} instead of {wide} in {rng}")
    g = float(get_max_jerk(commands(c, k=c["k"]), rng))
    ensure_close(g, abs(c["k"]) * got, "jerk of a scaled signal", abs_tol=1e-9, rel_tol=1e-9)
    if c["rng"] == "all":
        ensure_close(float(get_max_jerk(commands(c, stretch=c["stretch"]))), got / c["stretch"], "jerk of a slower signal", abs_tol=1e-9, rel_tol=1e-6)
    return "jerk" if got > 0 else "constant"


def rms(acc, dt):
    """Root mean square of the frequency-weighted signal by Parseval, over the full spectrum of a plain DFT."""
    n = len(acc)
    tot = 0.0
    for k in range(n):
        A = sum(a * cmath.exp(-2j * math.pi * k * i / n) for i, a in enumerate(acc))
        f = min(k, n - k) / (n * dt)
        w = (14.55 * f**2 + 6.026 * f + 7.725) / (f**3 + 15.02 * f**2 + 51.63 * f + 47.61)
        tot += abs(A) ** 2 * w * w
    return math.sqrt(tot) / n


@subtest(P, signal_case, quick=700, need=("even", "odd", "single"))
def weighted_acceleration(c):
    dt = c["dt"][0] if c["uni"] else "0.1"
    u = commands(c, dt=dt)
    rng, idx = t_range(c, list(u.timestamps))
    got = float(get_acc_rms(u, rng))
    acc = [c["acc"][i] for i in idx]
    want = rms(acc, float(dt))
    if abs(got - want) > 1e-6 * (1 + want):
        if dt != "0.1" and abs(got - rms(acc, 0.1)) <= 1e-6 * (1 + want):
            fail(f"weighted acceleration {got} instead of {want}: commands every {dt} s are weighted as if they were 0.1 s apart", key="rms assumes 0.1 s")
        fail(f"weighted acceleration {got} instead of {want} for {len(acc)} samples every {dt} s")
    g = float(get_acc_rms(commands(c, k=c["k"], dt=dt), rng))
    ensure_close(g, abs(c["k"]) * got, "scaled signal", abs_tol=1e-9, rel_tol=1e-9)
    ensure(0 <= got <= max(map(abs, acc)) + 1e-9, "the weighting amplifies")
    return "single" if len(acc) == 1 else "even" if len(acc) % 2 == 0 else "odd"


@subtest(P, lambda: st.fixed_dictionaries(dict(f=st.one_of(fl(0, 100), st.sampled_from([0.0, 1.0, 5.0])))), quick=200)
def frequency_weight(c):
    f = c["f"]
    ensure_close(float(acc_freq_filter(f)), (14.55 * f * f + 6.026 * f + 7.725) / (f * f * f + 15.02 * f * f + 51.63 * f + 47.61), "weight", rel_tol=1e-12)
    ensure(0 < acc_freq_filter(f) < 1, "weight of a frequency")
    return "weight"


# ------------------------------------------------------------------------------------------------ efficiency
@st.composite
def drive_case(draw):
    fam = draw(st.sampled_from(zoo.FAMILIES))
    kind = draw(st.sampled_from(zoo.VEH)) if fam in ("vehicle", "vehicle_dyn") else None
    t = draw(gens.timestamps(1, 12))
    p = zoo.mk_params(fam, kind, None)
    return dict(fam=fam, t=t, vals=draw(st.lists(zoo.state_of(fam, p), min_size=len(t["ts"]), max_size=len(t["ts"]))), move=draw(se2(big=True)), cut=draw(st.integers(0, 11)), small=draw(st.sampled_from([None, None, None, 3, 5])))


@subtest(P, drive_case, quick=700)
def travelled_distance(c):
    ts = gens.ts_decode(c["t"]["kind"], c["t"]["ts"])
    if c.get("small"):  # short ways count, too
        c = dict(c, vals=[dict(v, x=v["x"] * 10.0 ** -c["small"], y=v["y"] * 10.0 ** -c["small"]) for v in c["vals"]])
    seq = lambda vals, tt: DgSampledSequence[object](tt, [zoo.mk_state(c["fam"], v) for v in vals])  # noqa: E731
    s = seq(c["vals"], ts)
    before = list(s.timestamps), [dict(v.__dict__) for v in s.values]
    got = float(distance_traveled(s))
    ensure((list(s.timestamps), [dict(v.__dict__) for v in s.values]) == before, "the log changed")
    z = [complex(v["x"], v["y"]) for v in c["vals"]]
    want = sum(abs(b - a) for a, b in zip(z, z[1:]))
    ensure_close(got, want, "travelled distance", abs_tol=1e-9, rel_tol=1e-9)
    ensure_close(float(distance_traveled(seq([moved(v, c["move"]) for v in c["vals"]], ts))), want, "distance in another frame", abs_tol=1e-6, rel_tol=1e-9)
    k = c["cut"] % len(ts)
    ensure_close(float(distance_traveled(seq(c["vals"][:k + 1], ts[:k + 1]))) + float(distance_traveled(seq(c["vals"][k:], ts[k:]))), want, "distance of two parts", abs_tol=1e-9, rel_tol=1e-9)
    return "moving" if want > 0 else "standing"


@st.composite
def chain_case(draw):
    n = draw(st.integers(1, 4))
    spec = draw(smooth_lane(max_turn=1.0, kmax=0.04, nmin=2 * n + 1, nmax=2 * n + 1, seg=(2.0, 8.0), rmin=1.5, rmax=2.5, const_r=True))
    obs = draw(st.lists(st.fixed_dictionaries(dict(
        u=st.one_of(fl(0, 1), fl(-0.3, 1.3)), lat=st.one_of(fl(-1.2, 1.2), fl(-3, 3), fl(-30, 30)), hd=st.one_of(fl(-0.15, 0.15), ANGLE))), min_size=1, max_size=5))
    return dict(lane=spec, n=n, goal=draw(st.integers(0, n - 1)), prog=draw(fl(0.1, 1.0)), obs=obs, dt=draw(st.sampled_from([0.1, 1.0])), tol=draw(st.sampled_from([None, [0.4, 0.05], [1.4, 0.12]])), kink=draw(st.sampled_from([0.0, 0.0, 0.4, -0.6])))


def chain(spec, n, kink):
    """n lanelets of two segments each along one lane (with kinks between them, if asked for)."""
    from commonroad.scenario.lanelet import Lanelet, LaneletNetwork

    pts = lane_points(spec)
    lets, pieces = [], []
    off, base = [0.0, 0.0, 0.0], None
    for i in range(n):
        q = pts[2 * i:2 * i + 3]
        if i and kink:
            # turn everything from here on around the joint
            p = q[0]
            cur = comp(off, p)
            turned = [cur[0], cur[1], cur[2] + kink]
            # new offset such that comp(off, p) == turned
            c, s = math.cos(turned[2] - p[2]), math.sin(turned[2] - p[2])
            off = [turned[0] - (c * p[0] - s * p[1]), turned[1] - (s * p[0] + c * p[1]), turned[2] - p[2]]
        w = [comp(off, p) for p in q]
        pieces.append(w)
        import numpy as np

        r = spec["r"][0]
        side = lambda k: np.array([[rot(p, 1j * k * r).real, rot(p, 1j * k * r).imag] for p in w])  # noqa: E731
        lets.append(Lanelet(side(1), side(0), side(-1), 100 + i, [100 + i - 1] if i else [], [100 + i + 1] if i + 1 < n else []))
    return LaneletNetwork.create_from_lanelet_list(lets), lets, pieces


@subtest(P, chain_case, quick=500, need=("reached", "not reached", "away"), cpu=10)
def goal_lane_reached(c):
    spec = dict(c["lane"])
    spec["r"] = [spec["r"][0]] * len(spec["r"])
    net, lets, pieces = chain(spec, c["n"], c["kink"])
    lane = DgLanelet.from_commonroad_lanelet(lets[c["goal"]])
    goal = RefLaneGoal(lane, c["prog"] * lane.get_lane_length())
    pt, ht = c["tol"] or (0.8, 0.08)
    ref = ref_lane(spec)
    states, want, labels = [], [], set()
    for o in c["obs"]:
        s = o["u"] * ref.L
        q = ref.center(ref.beta(s))
        z = rot(q, 1j * o["lat"])
        x = VehicleState(x=z.real, y=z.imag, psi=q[2] + o["hd"], vx=3.0, delta=0.0)
        states.append(x)
        got = bool(desired_lane_reached(net, goal, x, pt, ht))
        if c["kink"] and c["n"] > 1:
            want.append(got)  # the chain has kinks: only termination is judged
            labels.add("kink")
            continue
        if goal.is_fulfilled(x):
            ensure(got, f"goal fulfilled but not reached: {x}", key="fulfilled")
            labels.add("reached")
        elif s < 0.1 or s > ref.L - 0.1 or abs(o["lat"]) > 6:
            labels.add("away")
            ensure(not got or abs(o["lat"]) < pt + 0.05, f"{x}, {o['lat']} m beside the lane, counts as in the lane")
        elif abs(abs(o["lat"]) - pt) < 0.03 or abs(abs(wrap(o["hd"])) - ht) < 0.03 or abs(abs(o["lat"]) - ref.r[0]) < 0.03:
            labels.add("border")  # the lane's centre line between its points is not specified to that accuracy
        else:
            exp = abs(o["lat"]) < min(pt, ref.r[0]) and abs(wrap(o["hd"])) < ht
            ensure(got == exp, f"lane {'reached' if got else 'not reached'} {o['lat']:.3f} m beside and {wrap(o['hd']):.3f} rad off the lane, {s:.2f} m along a chain of {ref.L:.2f} m", key="reached")
            labels.add("reached" if exp else "not reached")
        want.append(got)
    ts = [0.5 + c["dt"] * i for i in range(len(states))]
    kw = {} if c["tol"] is None else dict(pos_tol=pt, heading_tol=ht)
    t = time_goal_lane_reached(net, goal, DgSampledSequence[object](ts, states), **kw)
    first = [a for a, w in zip(ts, want) if w]
    ensure(t == (first[0] if first else None), f"reached at {t} instead of {first[:1]}", key="time")
    return sorted(labels)


@subtest(P, lambda: nets.networks(max_size=2), quick=120, need=("successor", "predecessor", "end", "start"))
def lanes_before_and_after(spec):
    """The lane after (before) a lanelet is its first successor (predecessor), whether asked with a lanelet or with its lane."""
    net = nets.mk_network(spec)
    labels = set()
    for l in net.lanelets:
        lane = DgLanelet.from_commonroad_lanelet(l)
        at = lane.control_points[1].q.p
        alone = net.find_lanelet_by_position([at])[0] == [l.lanelet_id]  # lanes may overlap others
        for ids, let_f, lane_f, what in ((l.successor, get_successor_lane, get_successor_dglane, "successor"), (l.predecessor, get_predecessor_lane, get_predecessor_dglane, "predecessor")):
            for given in (l, lane) if alone else (l,):
                got, got_lane = let_f(net, given), lane_f(net, given)
                if not ids:
                    ensure(got is None and got_lane is None, f"{what} of a lanelet without one", of=l.lanelet_id, got=str(got))
                    labels.add("end" if what == "successor" else "start")
                    continue
                labels.add(what)
                ensure(got is not None and got.lanelet_id == ids[0], f"the {what} is not the one in the network", of=l.lanelet_id, expected=ids)
                exp = DgLanelet.from_commonroad_lanelet(net.find_lanelet_by_id(ids[0]))
                ensure(len(got_lane.control_points) == len(exp.control_points), f"lane of the {what}")
                for a, b in zip(got_lane.control_points, exp.control_points):
                    ensure_close([*a.q.p, a.q.theta, a.r], [*b.q.p, b.q.theta, b.r], f"lane of the {what}", rtol=1e-12)
            if alone:
                ensure(get_lanelet_from_dglanelet(net, lane).lanelet_id == l.lanelet_id, "lanelet of a lane")
    return tuple(sorted(labels)) or None
