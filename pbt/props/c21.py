from __future__ import annotations

import math

from frozendict import frozendict
from hypothesis import strategies as st

from dg_commons.controllers.speed import SpeedBehavior
from dg_commons.sim.models.obstacles_dyn import DynObstacleState
from dg_commons.sim.models.pedestrian import PedestrianState
from dg_commons.sim.models.vehicle import VehicleState
from dg_commons.sim.simulator_structures import PlayerObservations
from pbt.core import ensure, ensure_close, subtest
from pbt.gens import BIG_ANGLE, fl, nice, se2, wrap
from pbt.lanes import comp, rel, rot

P = "C21"
RULE = ("random scenes of 0-4 others around the vehicle (drawn around the decision borders: crossing, oncoming, leading, beside, behind), "
        "speeds and parameters; scenes nearer than 1e-6 to a decision border are skipped; labels name the reason of the decision")
ASSUMPTIONS = ["every player's state has a forward speed vx (the robots without a velocity in their state cannot be judged)",
               "players are nearer than 0.5 m in front count as overlapping, not as leading"]

KMH = 1 / 3.6
STATES = dict(
    vehicle=lambda p, v: VehicleState(x=p[0], y=p[1], psi=p[2], vx=v, delta=0.0),
    pedestrian=lambda p, v: PedestrianState(x=p[0], y=p[1], psi=p[2], vx=v, dpsi=0.0),
    obstacle=lambda p, v: DynObstacleState(x=p[0], y=p[1], psi=p[2], vx=v, vy=0.0, dpsi=0.0),
)


@st.composite
def other(draw, me_v, yd, tb):
    k = draw(st.sampled_from(["right", "left", "front", "lead", "lead", "any"]))
    v = draw(st.one_of(fl(0, 20), fl(-3, 3), st.sampled_from([0.0, 5.0]), fl(-2, 2).map(lambda d: me_v + d), fl(20, 50)))
    frac = draw(st.one_of(st.none(), fl(0.05, 1.3), fl(0.9, 1.02)))  # of the distance at which it starts to matter
    near = draw(fl(-1, 1)) * 10.0 ** draw(st.integers(-4, -1))  # to a border of the bearing or of the lane
    border = draw(st.booleans())
    if k in ("right", "left"):
        sg = 1 if k == "right" else -1
        th = sg * (draw(st.sampled_from([1, 3])) * math.pi / 4 + near if border else draw(fl(math.pi / 4 - 0.2, 3 * math.pi / 4 + 0.2)))
        r, b = draw(fl(0.5, 11)), draw(fl(-math.pi, math.pi))
        r = r if frac is None else frac * yd
        x, y = r * math.cos(b), r * math.sin(b)
    elif k == "front":
        th = math.pi + draw(fl(-1, 1))
        x, y = draw(fl(-5, 50)), draw(st.sampled_from([-1.2, 1.2])) + near if border else draw(fl(-1.6, 1.6))
        x = x if frac is None else frac * max(tb * (me_v + v), 1.0)
    elif k == "lead":
        th = draw(st.one_of(fl(-0.7, 0.7), fl(-0.3, 0.3)))
        x, y = draw(fl(0.2, 45)), draw(st.sampled_from([-1.2, 1.2])) + near if border else draw(fl(-1.6, 1.6))
        x = x if frac is None else frac * max(me_v * tb + max(me_v - v, 0), 1.0)
    else:
        x, y, th = draw(fl(-40, 40)), draw(fl(-40, 40)), draw(BIG_ANGLE)
    return dict(rel=[x, y, th], v=v, m=draw(st.sampled_from(["vehicle", "vehicle", "pedestrian", "obstacle"])))


@st.composite
def scene(draw):
    v = draw(st.one_of(fl(0, 25), fl(-2, 2), fl(0.5, 4), fl(25, 50)))
    par = draw(st.one_of(st.none(), st.fixed_dictionaries(dict(nominal=st.one_of(fl(1, 30), fl(30, 60)), yd=fl(1, 15), mv=fl(0, 5), tb=fl(0.3, 3)))))
    yd, tb = (7, 1.5) if par is None else (par["yd"], par["tb"])
    return dict(me=draw(se2(big=True)), v=v, others=draw(st.lists(other(v, yd, tb), max_size=4)), move=draw(se2(big=True)),
                perm=draw(st.integers(0, 1000)), par=par, closer=draw(fl(0, 1)))


class Edge(Exception):
    pass


def lt(a, b):
    if abs(a - b) < 1e-6:
        raise Edge()
    return a < b


def decide(v, others, par):
    """(reference speed, emergency, reasons) from relative poses."""
    nominal, yd, mv, tb = par
    reasons, emergency, refs = set(), False, [nominal]
    for o in others:
        x, y, th = o["rel"]
        th, d, ov = wrap(th), math.hypot(x, y), o["v"]
        crossing = lt(mv, ov) and lt(d, yd)
        if lt(math.pi / 4, abs(th)) and lt(abs(th), 3 * math.pi / 4) and crossing:
            if th > 0:
                reasons.add("yield")
            else:
                reasons.add("from_left")
                emergency = True
        if lt(3 * math.pi / 4, abs(th)) and lt(0, x) and lt(abs(y), 1.2) and lt(d, tb * (v + ov)):
            reasons.add("oncoming")
            emergency = True
        if lt(0.5, x) and lt(abs(y), 1.2) and lt(abs(th), math.pi / 6):
            slower = max(v - ov, 0)
            if lt(d, v * tb + slower):
                refs.append(min(max(ov - slower, 0), 130 * KMH))
                reasons.add("leader")
    if reasons - {"leader"}:
        return 0.0, emergency, reasons
    return min(refs), False, reasons or {"free"}


def build(c, names, move=None, order=None, me="me"):
    pl = {me: PlayerObservations(VehicleState(x=c["me"][0], y=c["me"][1], psi=c["me"][2], vx=c["v"], delta=0.05), None)}
    for n, o in zip(names, c["others"]):
        pl[n] = PlayerObservations(STATES[o["m"]](comp(c["me"], o["rel"]), o["v"]), None)
    if move is not None:
        from dataclasses import replace

        for k, ob in pl.items():
            q = comp(move, [ob.state.x, ob.state.y, ob.state.psi])
            pl[k] = PlayerObservations(replace(ob.state, x=q[0], y=q[1], psi=q[2]), None)
    keys = list(pl)
    if order is not None:
        import random

        random.Random(order).shuffle(keys)
    return frozendict({k: pl[k] for k in keys})


def ask(obs, par, me="me", sb=None):
    sb = SpeedBehavior(me) if sb is None else sb
    if par is not None:
        sb.params.nominal_speed, sb.params.yield_distance, sb.params.minimum_yield_vel, sb.params.safety_time_braking = par
    sb.update_observations(obs)
    r, e = sb.get_speed_ref(0.0)
    ensure(sb.speed_ref == r, "the stored reference is not the returned one")
    return float(r), bool(e)


@subtest(P, scene, quick=2500, need=("free", "yield", "from_left", "oncoming", "leader"), shards=4)
def reference_speed_follows_the_scene(c):
    names = [f"P{i}" for i in range(len(c["others"]))]
    par = None if c["par"] is None else (c["par"]["nominal"], c["par"]["yd"], c["par"]["mv"], c["par"]["tb"])
    full = par or (40 * KMH, 7, 5 * KMH, 1.5)
    try:
        ex, em, why = decide(c["v"], c["others"], full)
    except Edge:
        return None
    obs = build(c, names)
    r, e = ask(obs, par)
    ensure_close(r, ex, "reference speed", atol=1e-7, why=sorted(why))
    ensure(e == em, "emergency flag", got=e, expected=em, why=sorted(why))
    ensure(0 <= r <= full[0] + 1e-12, "the reference is not between zero and the nominal speed", got=r)
    # neither order nor names nor the frame matter
    for desc, o, me in (("order", build(c, names, order=c["perm"]), "me"), ("names", build(c, [f"A{n}" for n in names], order=c["perm"] + 1, me="zz"), "zz"),
                        ("frame", build(c, names, move=c["move"]), "me")):
        r2, e2 = ask(o, par, me)
        ensure(abs(r2 - r) < 1e-6 and e2 == e, f"the decision depends on the {desc} of the players", got=(r2, e2), was=(r, e))
    # other scenes seen before do not matter
    sb = SpeedBehavior("me")
    ask(build(dict(c, others=[dict(rel=[3.0, 0.0, math.pi], v=5.0, m="vehicle")], v=5.0), ["P0"]), par, sb=sb)
    ensure(ask(obs, par, sb=sb) == (r, e), "the decision depends on earlier observations")
    ensure(SpeedBehavior().params.nominal_speed == 40 * KMH and SpeedBehavior().params is not sb.params, "behaviours share their parameters")
    # bringing a leader closer never raises the reference
    for i, o in enumerate(c["others"]):
        x, y, th = o["rel"]
        if x > 0.6 and abs(y) < 1.2 and abs(wrap(th)) < math.pi / 6:
            nx = 0.6 + (x - 0.6) * c["closer"]
            oth = [dict(o, rel=[nx, y, th]) if j == i else p for j, p in enumerate(c["others"])]
            r3, _ = ask(build(dict(c, others=oth), names), par)
            ensure(r3 <= r + 1e-7, "a closer leader raises the reference", was=r, now=r3)
            why = why | {"moved_closer"}
    return why


@subtest(P, lambda: st.lists(scene(), min_size=2, max_size=5), quick=500, need=("stop after free", "free after stop"))
def decisions_do_not_depend_on_history(cs):
    """One behaviour object asked along a sequence of scenes answers each as a fresh one does."""
    par = None if cs[0]["par"] is None else (cs[0]["par"]["nominal"], cs[0]["par"]["yd"], cs[0]["par"]["mv"], cs[0]["par"]["tb"])
    sb = SpeedBehavior("me")
    labels, last = set(), None
    for k, c in enumerate(cs):
        obs = build(c, [f"P{i}" for i in range(len(c["others"]))])
        if par is not None:
            sb.params.nominal_speed, sb.params.yield_distance, sb.params.minimum_yield_vel, sb.params.safety_time_braking = par
        sb.update_observations(obs)
        r, e = sb.get_speed_ref(float(k))
        fresh = ask(obs, par)
        ensure((float(r), bool(e)) == fresh, "the decision depends on earlier observations", got=(float(r), bool(e)), fresh=fresh, step=k)
        if last is not None and (last > 0) != (fresh[0] > 0):
            labels.add("stop after free" if last > 0 else "free after stop")
        last = fresh[0]
    return tuple(labels) or None
