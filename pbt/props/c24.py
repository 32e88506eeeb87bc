"""C24: trajectories and trajectory graphs."""
from __future__ import annotations

import itertools
import math
from decimal import Decimal as D

from geometry import SE2_from_xytheta
from hypothesis import strategies as st

from dg_commons import SE2Transform
from dg_commons.planning import Trajectory
from dg_commons.seq.sequence import DgSampledSequenceBuilder
from dg_commons.planning.trajectory import TrajectoryGraph, commands_plan_from_trajectory
from dg_commons.sim.models.vehicle import VehicleCommands, VehicleState
from dg_commons.sim.models.vehicle_structures import VehicleGeometry
from pbt import gens
from pbt.core import ensure, ensure_close, ensure_raises, subtest
from pbt.gens import ANGLE, BIG_ANGLE, fl, nice, se2, wrap
from pbt.lanes import comp
from pbt.props.c23 import close_states, rk4, sd

P = "C24"
RULE = ("random trajectories (float, integer and Decimal times) and random histories of graph additions and queries against a plain dict model; "
        "label 'converging' = a node of the graph is reached along several paths")
ASSUMPTIONS = ["merge: the second trajectory starts at the time at which the first ends (as merge_unsafe demands)",
               "graphs grow from one root, later edges lead forward in time, an edge added twice stores its latest transition",
               "where several shortest paths lead to a node any of them may be returned"]

NAMES = ("x", "y", "psi", "vx", "delta")
SV = st.fixed_dictionaries(dict(x=nice(-50, 50), y=nice(-50, 50), psi=BIG_ANGLE, vx=nice(-5, 30), delta=fl(-1, 1)))


def traj(t):
    return Trajectory(timestamps=gens.ts_decode(t["kind"], t["ts"]), values=[VehicleState(**v) for v in t["vals"]])


def tv(t):
    return list(t.timestamps), [sd(v) for v in t.values]


def trajs(lo=1, hi=8, **kw):
    return gens.seqs(lo, hi, values=SV, **kw)


# ------------------------------------------------------------------------------------------------ merging
@st.composite
def merge_case(draw):
    a = draw(trajs(2, 9))
    k = draw(st.integers(0, len(a["ts"]) - 1))
    return dict(t=a, cut=k, dvx=draw(st.sampled_from([0, 0, 5e-4, -5e-4, 1.3e-3, -1.0])), ddelta=draw(st.sampled_from([0, 0, 5e-4, -1.3e-3, -0.1])), dx=draw(st.sampled_from([0, 0, 3.0])),
                empty=draw(st.sampled_from(["", "", "", "first", "second", "both"])))


@subtest(P, merge_case, quick=1500, need=("joined", "refused", "empty"))
def merging_keeps_every_sample(c):
    full = traj(c["t"])
    ts, vs = list(full.timestamps), list(full.values)
    k = c["cut"]
    a = Trajectory(timestamps=ts[:k + 1], values=vs[:k + 1])
    v = sd(vs[k])
    v.update(vx=v["vx"] + c["dvx"], delta=v["delta"] + c["ddelta"], x=v["x"] + c["dx"])
    b = Trajectory(timestamps=ts[k:], values=[VehicleState(**v)] + vs[k + 1:])
    e = Trajectory(timestamps=[], values=[])
    if c["empty"]:
        p, q = {"first": (e, b), "second": (a, e), "both": (e, e)}[c["empty"]]
        ensure(p.is_connectable(q), "empty trajectories are connectable to any")
        want = tv(q if c["empty"] == "first" else p)
        ensure(tv(p.merge(q)) == want, f"merged {tv(p.merge(q))} instead of {want}")
        if c["empty"] == "first":
            ensure(tv(p.merge_unsafe(q)) == want, "unsafe merge of an empty trajectory")
        return "empty"
    before = tv(a), tv(b)
    ok = abs(c["dvx"]) < 1e-3 and abs(c["ddelta"]) < 1e-3
    ensure(bool(a.is_connectable(b)) is ok, f"connectable: {a.is_connectable(b)} for a change of the speed by {c['dvx']} and of the steering by {c['ddelta']}")
    wide = max(abs(c["dvx"]), abs(c["ddelta"])) + 1e-6
    ensure(a.is_connectable(b, tol=wide), f"not connectable with tolerance {wide}")
    if ok:
        m = a.merge(b)
        ensure(type(m) is Trajectory, f"{type(m).__name__}")
        ensure(tv(m) == tv(full), f"merged {tv(m)} instead of {tv(full)}")
    else:
        ensure_raises(lambda: a.merge(b), AssertionError, msg="trajectories which are not connectable were merged")
    ensure(tv(a.merge_unsafe(b)) == tv(full), "unsafe merge")
    if len(ts) > k + 1 and ts[k + 1] - ts[k] > 2e-3:
        late = Trajectory(timestamps=ts[k + 1:], values=vs[k + 1:])
        ensure_raises(lambda: a.merge_unsafe(late), AssertionError, msg="trajectories which do not meet in time were merged")
        if k > 0 and ts[k] - ts[k - 1] > 2e-3:  # starts too early, although all of its later samples come after the end of the first
            early = Trajectory(timestamps=[ts[k - 1], *ts[k + 1:]], values=vs[k:])
            ensure_raises(lambda: a.merge_unsafe(early), AssertionError, msg="trajectories which overlap in time were merged")
    ensure((tv(a), tv(b)) == before, "merging changed its arguments")
    return "joined" if ok else "refused"


@subtest(P, lambda: st.fixed_dictionaries(dict(t=trajs(1, 8), cuts=st.lists(st.integers(0, 20), max_size=4))), quick=600)
def merging_the_pieces_restores_the_whole(c):
    full = traj(c["t"])
    n = len(full.timestamps)
    cuts = sorted({k % n for k in c["cuts"]} | {0, n - 1})
    out = Trajectory(timestamps=[], values=[])
    for i, j in zip(cuts, cuts[1:] or cuts):
        out = out.merge(Trajectory(timestamps=full.timestamps[i:j + 1], values=full.values[i:j + 1]))
    ensure(out == full, f"{tv(out)} instead of {tv(full)}")
    return "pieces" if len(cuts) > 2 else "one"


# ------------------------------------------------------------------------------------------------ upsampling, transforms, plans
@subtest(P, lambda: st.fixed_dictionaries(dict(t=trajs(1, 6), n=st.integers(0, 6))), quick=1200)
def upsampling_adds_between_the_samples(c):
    t, n = traj(c["t"]), c["n"]
    before = tv(t)
    u = t.upsample(n)
    ensure(tv(t) == before, "upsampling changed the trajectory")
    ensure(type(u) is Trajectory, f"{type(u).__name__}")
    m = len(t.timestamps)
    ensure(len(u.timestamps) == (m - 1) * (n + 1) + 1 == len(u.values), f"{len(u.timestamps)} samples of {m} with {n} in between")
    for i in range(m):
        ensure(u.timestamps[i * (n + 1)] == t.timestamps[i] and u.values[i * (n + 1)] == t.values[i], f"sample {i} is lost: {u.timestamps}")
    for i in range(m - 1):
        t0, t1, a, b = float(t.timestamps[i]), float(t.timestamps[i + 1]), sd(t.values[i]), sd(t.values[i + 1])
        for j in range(1, n + 1):
            w = j / (n + 1)
            ensure_close(float(u.timestamps[i * (n + 1) + j]), t0 + (t1 - t0) * w, "time in between", abs_tol=1e-9, rel_tol=1e-12)
            got = sd(u.values[i * (n + 1) + j])
            for k in NAMES:
                ensure_close(got[k], a[k] + (b[k] - a[k]) * w, f"{k} in between", abs_tol=1e-6, rel_tol=1e-9)
    return "many" if n and m > 1 else "same"


@subtest(P, lambda: st.fixed_dictionaries(dict(t=trajs(1, 6), g=se2(big=True), h=se2(big=True))), quick=1000)
def moving_a_trajectory_moves_its_poses(c):
    t = traj(c["t"])
    before = tv(t)
    tr = lambda g: SE2Transform(p=g[:2], theta=g[2])
    m = t.apply_SE2transform(tr(c["g"]))
    ensure(tv(t) == before, "the trajectory changed")
    ensure(m.timestamps == t.timestamps, "times changed")
    ensure(isinstance(m, Trajectory) or type(m).__name__ == "DgSampledSequence", f"{type(m).__name__}")
    for a, b in zip(t.values, m.values):
        want = comp(c["g"], [a.x, a.y, a.psi])
        close_states(sd(b), dict(x=want[0], y=want[1], psi=want[2], vx=a.vx, delta=a.delta), "moved", 1e-8)
    p = t.as_path()
    ensure(len(p) == len(t.values), "path length")
    for a, b in zip(t.values, p):
        ensure(tuple(map(float, b.p)) == (a.x, a.y) and float(b.theta) == a.psi, f"path pose {b} instead of {a}")
    return "moved"


@st.composite
def plan_case(draw):
    t = draw(gens.timestamps(1, 7))
    n = len(t["ts"])
    return dict(t=t, x0=draw(SV), acc=draw(st.lists(fl(-6, 4), min_size=n, max_size=n)), r=draw(st.lists(fl(-0.4, 0.4), min_size=n, max_size=n)))


@subtest(P, plan_case, quick=600, need=("executed",))
def commands_plan_reproduces_the_trajectory(c):
    vg = VehicleGeometry.default_car()
    ts = gens.ts_decode(c["t"]["kind"], c["t"]["ts"])
    s = dict(c["x0"])
    s["delta"] *= 0.3
    states = [dict(s)]
    used = []
    for i in range(len(ts) - 1):
        T = float(ts[i + 1]) - float(ts[i])
        # stay within a moderate steering range
        r = max(min(c["r"][i], (0.8 - s["delta"]) / T), (-0.8 - s["delta"]) / T)
        s = rk4(vg, s, c["acc"][i], r, T, n=24)
        states.append(dict(s))
        used.append((c["acc"][i], r))
    t = Trajectory(timestamps=ts, values=[VehicleState(**x) for x in states])
    before = tv(t)
    plan = commands_plan_from_trajectory(t)
    ensure(tv(t) == before, "the trajectory changed")
    ensure(list(plan.timestamps) == ts[:-1], f"commands at {plan.timestamps} for a trajectory at {ts}")
    ensure(all(type(u) is VehicleCommands for u in plan.values), "commands are VehicleCommands")
    # execute it: the command valid at each time is applied until the next sample
    x = states[0]
    for i in range(len(ts) - 1):
        u = plan.at_or_previous(ts[i])
        T = float(ts[i + 1]) - float(ts[i])
        x = rk4(vg, x, u.acc, u.ddelta, T, n=24)
        scale = 1 + abs(states[i + 1]["psi"])
        close_states(x, states[i + 1], f"state {i + 1} when executing the plan", 1e-6 * scale)
    return "executed" if len(ts) > 1 else "single"


# ------------------------------------------------------------------------------------------------ graphs
OPS = st.one_of(
    st.tuples(st.just("edge"), st.integers(0, 30), st.integers(1, 4), st.integers(0, 3), st.integers(0, 3), st.integers(0, 3)),
    st.tuples(st.just("edge"), st.integers(0, 30), st.integers(1, 4), st.integers(0, 3), st.integers(0, 3), st.integers(0, 3)),
    st.tuples(st.just("close"), st.integers(0, 30), st.integers(0, 30), st.integers(0, 3), st.integers(0, 3), st.just(0)),
    st.tuples(st.just("foreign"), st.integers(0, 30), st.integers(0, 3), st.just(0), st.just(0), st.just(0)),
    st.tuples(st.just("fan"), st.integers(0, 30), st.integers(1, 4), st.integers(2, 4), st.integers(0, 3), st.integers(0, 3)),
    st.tuples(st.just("chain"), st.integers(0, 30), st.integers(1, 4), st.integers(2, 7), st.integers(0, 3), st.integers(0, 3)),
    st.tuples(st.just("query"), st.integers(0, 30), st.integers(0, 30), st.just(0), st.just(0), st.just(0)),
).map(list)


@st.composite
def graph_case(draw):
    return dict(kind=draw(st.sampled_from(["D", "i", "f"])), ops=draw(st.lists(OPS, min_size=1, max_size=14)), tag=draw(st.booleans()))


def tick(kind, k):
    return D(k) / 2 if kind == "D" else k if kind == "i" else k * 0.5


def pool_state(k, t):
    """Few distinct states, so that equal states appear at different times."""
    return VehicleState(x=[0.0, 5.0, -3.0, 10.0][k], y=[0.0, 1.0, 2.0, -1.0][k], psi=0.25 * k, vx=3.0 + k, delta=0.1 * k)


def shortest(edges, s, t):
    """All paths with the fewest edges."""
    level = [[s]]
    seen = {s}
    while level:
        hit = [p for p in level if p[-1] == t]
        if hit:
            return hit
        nxt = [p + [v] for p in level for (u, v) in edges if u == p[-1] and v not in seen]
        seen |= {p[-1] for p in nxt}
        level = nxt
    return []


def along(edges, path):
    ts, vs = [], []
    for u, v in zip(path, path[1:]):
        t = edges[u, v]["transition"]
        k = 1 if ts else 0
        ts += list(t.timestamps)[k:]
        vs += list(t.values)[k:]
    return Trajectory(timestamps=ts, values=vs)


@subtest(P, graph_case, quick=1200, need=("converging", "tree", "refused"))
def graphs_agree_with_a_plain_model(c):
    kind = c["kind"]
    g = TrajectoryGraph()
    root = (tick(kind, 0), pool_state(0, 0))
    g.add_node(root, gen=0, **({"tag": "root"} if c["tag"] else {}))
    nodes = {root: dict(gen=0, **({"tag": "root"} if c["tag"] else {}))}
    edges = {}
    labels = set()
    uid = itertools.count()

    def sync(what):
        ensure({n: dict(d) for n, d in g.nodes(data=True)} == nodes, f"{what}: nodes {dict(g.nodes(data=True))} instead of {nodes}", key="nodes")
        ensure({(u, v): dict(d) for u, v, d in g.edges(data=True)} == edges, f"{what}: edges differ", key="edges")

    def add(u, v, wob):
        dt = v[0] - u[0]
        k = next(uid)
        mid = VehicleState(x=100.0 + k, y=float(wob), psi=0.0, vx=1.0, delta=0.0)
        # the transition is not exactly continuous, as usual
        tr = Trajectory(timestamps=[u[0], u[0] + dt / 2, v[0]], values=[u[1], mid, VehicleState(x=v[1].x + 0.01 * wob, y=v[1].y, psi=v[1].psi, vx=v[1].vx, delta=v[1].delta)])
        cmd = VehicleCommands(acc=float(k - k % 2), ddelta=0.5)  # some commands are the same as before
        st_ = Trajectory(timestamps=[u[0], v[0]], values=[u[1], v[1]])
        g.add_edge(states=st_, transition=tr, commands=cmd)
        if v not in nodes:
            nodes[v] = dict(gen=nodes[u]["gen"] + 1)
        else:
            labels.add("converging")
        edges[u, v] = dict(transition=tr, commands=cmd)

    order = [root]
    for op in c["ops"]:
        if op[0] == "edge":
            u = order[op[1] % len(order)]
            v = (u[0] + tick(kind, op[2]), pool_state(op[3], 0))
            new = v not in nodes
            add(u, v, op[4])
            if new:
                order.append(v)
        elif op[0] in ("fan", "chain"):  # several branches out of one node, or one long branch
            u = order[op[1] % len(order)]
            for j in range(op[3] * 2 if op[0] == "fan" else op[3]):
                v = (u[0] + tick(kind, op[2] + (j // 4 if op[0] == "fan" else 0)), pool_state((op[4] + j) % 4, 0))
                new = v not in nodes
                add(u, v, op[5])
                if new:
                    order.append(v)
                if op[0] == "chain":
                    u = v
        elif op[0] == "close":
            u, v = order[op[1] % len(order)], order[op[2] % len(order)]
            if u[0] < v[0]:
                add(u, v, op[3])
        elif op[0] == "foreign":
            u = order[op[1] % len(order)]
            alien = (u[0] + tick(kind, 50), pool_state(op[2], 0))
            far = (alien[0] + tick(kind, 1), pool_state(0, 0))
            tr = Trajectory(timestamps=[alien[0], far[0]], values=[alien[1], far[1]])
            ensure_raises(lambda: g.add_edge(states=tr, transition=tr, commands=None), ValueError, msg="an edge from an unknown node was added")
            ensure_raises(lambda: g.get_trajectory(root, alien), ValueError, msg="trajectory to an unknown node")
            ensure_raises(lambda: g.get_transition(alien, root), ValueError, msg="transition from an unknown node")
            labels.add("refused")
        else:
            u, v = order[op[1] % len(order)], order[op[2] % len(order)]
            paths = shortest(edges, u, v)
            if not paths:
                ensure_raises(lambda: g.get_trajectory(u, v), ValueError, msg="trajectory without a path")
                ensure_raises(lambda: g.get_transition(u, v), ValueError, msg="transition without a path")
                labels.add("refused")
            else:
                got = g.get_trajectory(u, v)
                want = [Trajectory(timestamps=[n[0] for n in p], values=[n[1] for n in p]) for p in paths]
                ensure(got in want, f"trajectory {tv(got)} instead of one of {[tv(w) for w in want]}", key="trajectory")
                tr = g.get_transition(u, v)
                ensure(tr in [along(edges, p) for p in paths], f"transition {tv(tr)} is not the concatenation along a path", key="transition")
                if u != v:
                    cmds = g.commands_on_trajectory(got)
                    wc = [([n[0] for n in p[:-1]], [edges[a, b]["commands"] for a, b in zip(p, p[1:])]) for p in paths]
                    ensure((list(cmds.timestamps), list(cmds.values)) in wc, f"commands {cmds} instead of one of {wc}", key="commands")
        sync(op[0])
    leaves = [n for n in order if not any(u == n for u, _ in edges)]
    allt, alltr = g.get_all_trajectories(), g.get_all_transitions()
    for got, f, what in ((allt, lambda p: Trajectory(timestamps=[n[0] for n in p], values=[n[1] for n in p]), "trajectories"), (alltr, lambda p: along(edges, p), "transitions")):
        options = [[f(p) for p in shortest(edges, root, n)] for n in leaves]
        for o in options:
            ensure(any(t in o for t in got), f"all {what}: none to a leaf", key="all")
        for t in got:
            ensure(any(t in o for o in options), f"all {what}: {tv(t)} leads to no leaf", key="all")
    sync("all")
    labels.add("tree" if "converging" not in labels else "")
    return sorted(labels - {""})


@subtest(P, lambda: st.fixed_dictionaries(dict(t=trajs(1, 6))), quick=300)
def trajectories_can_be_built_sample_by_sample(c):
    t = traj(c["t"])
    b = DgSampledSequenceBuilder[VehicleState](sampled_sequence_type=Trajectory)
    for i, (ti, v) in enumerate(zip(t.timestamps, t.values)):
        ensure(len(b) == i, f"length {len(b)} after {i} samples")
        b.add(ti, v)
        got = b.as_sequence()
        ensure(type(got) is Trajectory, f"{type(got).__name__} instead of a Trajectory")
        ensure(tv(got) == (list(t.timestamps[:i + 1]), [sd(x) for x in t.values[:i + 1]]), f"built {tv(got)}")
    return "built"
