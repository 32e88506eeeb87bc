from __future__ import annotations

import copy
from decimal import Decimal as D
from itertools import combinations

import numpy as np
from hypothesis import strategies as st

from dg_commons.eval.safety import has_collision
from dg_commons.sim.collision import EnvPlayer
from dg_commons.sim.collision_utils import CollisionException, compute_impact_geometry
from dg_commons.sim.utils import run_simulation, who_collided
from pbt.core import ensure, ensure_close, subtest
from pbt.world import build, mk_obstacle, run, sdict_any, steps_of, worlds
from pbt.zoo import STATES, mk_model

P = "C13"
RULE = ("crowded random worlds (1-4 bodies of all families, walls and lines, moving at random towards each other); every step of the log is replayed: overlaps of "
        "footprints are found pair by pair, whether bodies approach at the contact point is computed from the velocities just before, and both are compared with the "
        "reports, the flags and the motion in the log; non-trivial = at least one contact")
ASSUMPTIONS = ["collisions are checked at the end of every step except the one at which the simulation ends (documented order in the code)",
               "contacts whose geometry the impact computation declares unsupported are reported without data about the players",
               "collisions of moving obstacles (DynObstacleModel) with static obstacles are resolved but not reported (explicit in the code)",
               "when a body has several contacts in one step they are resolved one after the other: then only overlap, participants and poses are checked"]
POSE = ("x", "y", "psi")


def vel(m):
    v, w = m.get_velocity(in_model_frame=False)
    return np.array(v, dtype=float), float(w)


def speed_into(ma, mb, fa, fb):
    """Closing speed at the contact point along the normal, None if the contact geometry is unsupported."""
    try:
        n, pt = compute_impact_geometry(fa, fb)
    except CollisionException:
        return None
    q = np.array(pt.coords[0])

    def at(m):
        v, w = vel(m)
        r = q - np.asarray(m.get_pose())[:2, 2]
        return v + w * np.array([-r[1], r[0]])

    return float((at(ma) - (at(mb) if mb is not None else 0.0)) @ n)


def vel_after(m, rp):
    """The velocity the body takes on: not all can have any (a car has no side slip)."""
    m = copy.deepcopy(m)
    m.set_velocity(np.asarray(rp.velocity_after[0], dtype=float), float(rp.velocity_after[1]), in_model_frame=False)
    return vel(m)


def can_separate(sim, moves, a, b, fa, fb):
    """Whether a and b separate at their contact with some of the given velocities."""
    try:
        n, pt = compute_impact_geometry(fa, fb)
    except CollisionException:
        return False
    q = np.array(pt.coords[0])

    def options(m, vs):
        r = q - np.asarray(m.get_pose())[:2, 2]
        return [float((v + w * np.array([-r[1], r[0]])) @ n) for v, w in vs]

    return min(options(sim[a], moves[a])) - (max(options(sim[b], moves[b])) if b is not None else 0.0) < 1e-6


@st.composite
def crowd(draw):
    w = draw(worlds(dense=True, vandal=False, sensors=False, goals=draw(st.integers(0, 3)) == 0, steps=12))
    w["after"] = draw(st.sampled_from(["5", "0.5", "0.2", "0"]))
    if draw(st.integers(0, 4)) == 0:  # long ones in large steps
        w["dt"], w["after"] = "0.2", "5"
        w["dtc"] = draw(st.sampled_from(["0.2", "0.4"]))
        w["tmax"] = str(D("0.2") * draw(st.integers(8, 16)))
    return w


@subtest(P, crowd, quick=1800, shards=8, need=("pair", "env", "no_contact", "separating", "resolved", "kept_apart", "many_obstacles"))
def contacts_in_the_log(case):
    ctx = run(case)
    dt = D(case["dt"])
    n, rem = steps_of(case, ctx)
    names = [p["name"] for p in case["players"]]
    fam = {p["name"]: p["body"]["fam"] for p in case["players"]}
    logs = {k: dict(zip(ctx.log[k].states.timestamps, ctx.log[k].states.values)) for k in names}
    cmds = {k: list(zip(ctx.log[k].commands.timestamps, ctx.log[k].commands.values)) for k in names}
    gone = {k: (max(logs[k]) if k not in ctx.players else None) for k in names}
    obstacles = [mk_obstacle(o).shape for o in case["obstacles"]]
    sim = {}
    for p in case["players"]:
        sim[p["name"]] = mk_model(copy.deepcopy(p["body"]))
    by_time = {}
    for r in ctx.collision_reports:
        by_time.setdefault(r.at_time, []).append(r)
    labels, flagged, seen = [], set(), []
    for k in range(1, n + 1):
        t = k * dt
        here = [q for q in names if gone[q] is None or t <= gone[q]]
        for q in here:
            u = [v for tc, v in cmds[q] if tc < t][-1]
            sim[q].update(copy.deepcopy(u), dt)
        reps = by_time.pop(t, [])
        here = [q for q in here if gone[q] is None or t < gone[q]]  # those finished are out before collisions are looked for
        if k == n:
            ensure(not reps, "a collision was reported at the step at which the simulation ended")
            break
        foot = {q: sim[q].get_footprint() for q in here}
        touching = [(a, b) for a, b in combinations(here, 2) if foot[a].intersects(foot[b])]
        walls = [(a, i) for a in here for i, o in enumerate(obstacles) if foot[a].intersects(o)]
        # poses are never changed by collisions
        for q in here:
            s, m = sdict_any(logs[q][t]), sdict_any(sim[q].get_state())
            ensure(all(s[c] == m[c] for c in POSE), f"{q} ({fam[q]}) was moved other than through its velocity at {t}", log=s, expected=m)
        count = {q: sum(q in c for c in touching) + sum(q == c[0] for c in walls) for q in here}
        want, unsure = [], False
        for a, b in touching:
            if foot[a].intersection(foot[b]).area < 1e-12:
                unsure = True
        got_pairs = [frozenset(r.players) for r in reps]
        for r in reps:
            ps = [q for q in r.players if q != EnvPlayer]
            ok = frozenset(ps) in [frozenset(c) for c in touching] if len(ps) == 2 else len(ps) == 1 and any(c[0] == ps[0] for c in walls)
            ensure(ok, f"a report at {t} about bodies which are not in contact", players=list(r.players))
        simple = all(c <= 1 for c in count.values())
        if simple:
            for a, i in walls:
                v = speed_into(sim[a], None, foot[a], obstacles[i])
                if v is not None and abs(v) < 1e-9:
                    unsure = True
                if fam[a] == "dyn_obstacle":
                    if v is not None and v >= 0:
                        flagged.add(a)
                    continue
                labels.append("env")
                if v is None:
                    want.append((frozenset([a]), None))
                elif v >= 0:
                    want.append((frozenset([a, EnvPlayer]), (a, None)))
                else:
                    labels.append("separating")
            for a, b in touching:
                labels.append("pair")
                v = speed_into(sim[a], sim[b], foot[a], foot[b])
                if v is not None and abs(v) < 1e-9:
                    unsure = True
                if v is None:
                    want.append((frozenset([a, b]), None))
                elif v >= 0:
                    want.append((frozenset([a, b]), (a, b)))
                else:
                    labels.append("separating")
            if not unsure:
                ensure(sorted(map(sorted, got_pairs)) == sorted(sorted(w) for w, _ in want), f"contacts reported at {t}", got=[sorted(g) for g in got_pairs],
                       expected=[sorted(w) for w, _ in want])
                for w, res in want:
                    r = next(r for r in reps if frozenset(r.players) == w)
                    if res is None:
                        ensure(all(v is None for v in r.players.values()) and r.impact_point is None, "data in the report of an unsupported contact")
                        labels.append("unsupported")
                        continue
                    labels.append("resolved")
                    flagged.update(q for q in res if q)
                    for q in (q for q in res if q):
                        v0, w0 = vel(sim[q])
                        rp = r.players[q]
                        others = [foot[x] for x in res if x and x != q] or [obstacles[i] for a, i in walls if a == q]
                        mesh = sim[q].get_mesh()
                        got_loc = [l for l, _ in rp.locations]
                        sure = [l for l, s in mesh.items() if s.buffer(-1e-6).intersects(others[0])]
                        poss = [l for l, s in mesh.items() if s.buffer(1e-6).intersects(others[0])]
                        ensure(set(sure) <= set(got_loc) <= set(poss), f"report about {q} at {t}: regions hit", got=got_loc, expected=sure)
                        ensure(rp.footprint.equals(foot[q]), f"report about {q} at {t}: footprint")
                        ensure_close(np.asarray(rp.velocity[0], dtype=float), v0, f"report about {q} at {t}: velocity before", atol=1e-9)
                        ensure_close(float(rp.velocity[1]), w0, f"report about {q} at {t}: yaw rate before", atol=1e-9)
                        m2 = copy.deepcopy(sim[q])
                        m2.set_velocity(np.asarray(rp.velocity_after[0], dtype=float), float(rp.velocity_after[1]), in_model_frame=False)
                        g, e = sdict_any(logs[q][t]), sdict_any(m2.get_state())
                        ensure_close([g[c] for c in STATES[fam[q]][1]], [e[c] for c in STATES[fam[q]][1]], f"{q} at {t}: the state after the collision is not that of the report", atol=1e-9)
        else:
            labels.append("several_contacts")
            pairs = [g for g in got_pairs if EnvPlayer not in g and len(g) == 2]
            ensure(len(pairs) == len(set(pairs)), f"a contact was reported twice at {t}", pairs=[sorted(g) for g in pairs])
            # whatever the order, the first contact that has to be resolved sees the velocities from before
            vs = [(speed_into(sim[a], None, foot[a], obstacles[i]), fam[a] == "dyn_obstacle") for a, i in walls] + [(speed_into(sim[a], sim[b], foot[a], foot[b]), False) for a, b in touching]
            if any(v is not None and abs(v) < 1e-9 for v, _ in vs):
                unsure = True
            elif not any(dyn for _, dyn in vs):
                due = any(v is None or v > 0 for v, _ in vs)
                ensure(due == bool(reps), f"contacts at {t}: " + ("none of the approaching ones was reported" if due else "a report although all separate"))
                if not due:
                    for q in here:
                        ensure(sdict_any(logs[q][t]) == sdict_any(sim[q].get_state()), f"{q} separates from all it touches but its motion was changed at {t}")
            # a contact which is not reported was separating with some velocity that the bodies had during this step
            if not any(dyn for _, dyn in vs):
                moves = {q: [vel(sim[q])] + [vel_after(sim[q], r.players[q]) for r in reps if r.players.get(q) is not None] for q in here}
                for a in here:
                    mine = [i for b, i in walls if b == a]
                    missing = len(mine) - sum(a in g and len(g - {EnvPlayer}) == 1 for g in got_pairs)
                    apart = sum(can_separate(sim, moves, a, None, foot[a], obstacles[i]) for i in mine)
                    ensure(0 <= missing <= apart, f"{a} touches {len(mine)} obstacles at {t}: " + ("contacts were not reported although they never separate" if missing > 0 else "more reports than contacts"),
                           missing=missing, separating=apart)
                    if len(mine) > 4:
                        labels.append("many_obstacles")
                for a, b in touching:
                    if frozenset([a, b]) not in pairs:
                        ensure(can_separate(sim, moves, a, b, foot[a], foot[b]), f"the contact of {a} and {b} at {t} was not reported although they never separate")
            for r in reps:
                if all(v is not None for v in r.players.values()):
                    flagged.update(q for q in r.players if q != EnvPlayer)
            for a, i in walls:
                if fam[a] == "dyn_obstacle":
                    flagged.discard(a)
                    unsure = True
        for q in here:
            in_rep = any(q in g for g in got_pairs)
            if count[q] == 0:
                ensure(not in_rep, f"{q} touches nothing but is reported at {t}")
                ensure(sdict_any(logs[q][t]) == sdict_any(sim[q].get_state()), f"{q} touches nothing but its motion was changed at {t}")
            sim[q].set_state(copy.deepcopy(logs[q][t]))
            # bodies in collided state may behave differently afterwards
            if q in flagged:
                sim[q].has_collided = True
        seen += got_pairs
        if unsure or any(count[q] > 1 and fam[q] == "dyn_obstacle" for q in here):
            return labels  # cannot tell further on
    else:
        pass
    ensure(not by_time, "reports at times at which there is no step", times=[str(t) for t in by_time])
    ts = [r.at_time for r in ctx.collision_reports]
    ensure(ts == sorted(ts), "reports are not in order of time")
    ensure(ctx.first_collision_ts == (ts[0] if ts else D("Infinity")), "time of the first collision", got=str(ctx.first_collision_ts), reports=[str(t) for t in ts])
    for q in names:
        ensure(bool(ctx.models[q].has_collided) == (q in flagged), f"{q} ({fam[q]}) flagged as collided", flag=ctx.models[q].has_collided, expected=q in flagged)
    who = set().union(*[set(r.players) for r in ctx.collision_reports]) if ctx.collision_reports else set()
    ensure(who_collided(ctx) == who, "who collided", got=sorted(who_collided(ctx)), expected=sorted(who))
    ensure(has_collision(ctx.collision_reports) == ("Ego" in who), "whether Ego collided")
    if not seen:
        labels.append("no_contact")
        if len(names) > 1:
            labels.append("kept_apart")
    return labels


@st.composite
def headon(draw):
    """Two bodies on a straight course which must meet at a known time."""
    v1, v2 = draw(st.integers(1, 6)), draw(st.integers(0, 6))
    gap = draw(st.integers(1, 8)) * 0.5
    return dict(v=[v1, v2], gap=gap, dt=draw(st.sampled_from(["0.1", "0.05"])), wall=draw(st.booleans()), after=draw(st.sampled_from(["0", "0.3", "1"])), th=draw(st.sampled_from([0.0, 1.0, -2.5])))


@subtest(P, headon, quick=300, shards=2, need=("pair", "env"))
def straight_course_is_hit_on_time(case):
    """Without friction or commands two discs-like bodies on a straight course are reported at the first step at which they overlap."""
    import math

    th, (v1, v2) = case["th"], case["v"]
    d = np.array([math.cos(th), math.sin(th)])
    nose = [[-1, -1], [1, 0], [-1, 1]]
    body = lambda s, v: dict(fam="dyn_obstacle", kind=None, p=dict(vx_limits=[-30, 30]), g=dict(m=100.0, Iz=100.0, shape=nose if s == 0.0 else [[-1, -2], [1, -2], [1, 2], [-1, 2]]),  # noqa: E731
                             x=dict(x=float(d[0] * s), y=float(d[1] * s), psi=th, vx=float(v), vy=0.0, dpsi=0.0))
    from dg_commons.sim.models.obstacles import StaticObstacle  # noqa: F401

    idle = dict(plan=[dict(acc_x=0.0, acc_y=0.0, acc_psi=0.0)], goal=None, vandal=False, reuse=False, feedback=False, extra=False, hide=None)
    spec = dict(players=[dict(name="P1", body=body(0.0, v1), **idle)], obstacles=[], dt=case["dt"], dtc=case["dt"], tmax="2", after=case["after"], seed=0)
    if case["wall"]:
        spec["players"][0]["body"] = dict(fam="pedestrian", kind=None, p=None, g=None, x=dict(x=0.0, y=0.0, psi=th, vx=min(float(v1), 2.0), vy=0.0, dpsi=0.0))
        spec["players"][0]["plan"] = [dict(acc=0.0, dpsi=0.0)]
        lat = np.array([-d[1], d[0]])
        c = d * (case["gap"] + 1.0)
        corners = [c - 5 * lat, c + 5 * lat, c + 5 * lat + 4 * d, c - 5 * lat + 4 * d]
        spec["obstacles"] = [dict(k="poly", pts=[q.tolist() for q in corners])]
    else:
        spec["players"].append(dict(name="P2", body=body(case["gap"] + 2.0, -v2), **idle))
    ctx = build(spec)
    f0 = ctx.models["P1"].get_footprint()
    from shapely.geometry import Polygon

    other = Polygon(spec["obstacles"][0]["pts"]) if case["wall"] else ctx.models["P2"].get_footprint()
    free = f0.distance(other)
    closing = (min(float(v1), 2.0) if case["wall"] else float(v1 + v2))
    run_simulation(ctx)
    dt = float(case["dt"])
    hit = free / closing
    k = math.ceil(hit / dt - 1e-9)
    if abs(hit / dt - round(hit / dt)) < 1e-3:
        return None
    if k * dt > 1.95:
        if k * dt > 2.0:
            ensure(not ctx.collision_reports, "a collision was reported although the bodies never met")
            return "never"
        return None
    ensure(len(ctx.collision_reports) >= 1, "the collision was not reported", expected_at=k * dt)
    r = ctx.collision_reports[0]
    ensure_close(float(r.at_time), k * dt, "time of the first report")
    ensure(float(ctx.first_collision_ts) == float(r.at_time), "first_collision_ts")
    ensure(set(r.players) == ({"P1", EnvPlayer} if case["wall"] else {"P1", "P2"}), "participants", got=list(r.players))
    if not case["wall"]:
        ensure(len(ctx.collision_reports) == 1, "bouncing off was reported again", times=[str(q.at_time) for q in ctx.collision_reports])
        ensure_close(np.asarray(r.impact_normal, dtype=float), d, "normal of a head-on collision", atol=1e-6)
    ensure(ctx.models["P1"].has_collided, "flag")
    return "env" if case["wall"] else "pair"
