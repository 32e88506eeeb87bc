from __future__ import annotations

from decimal import Decimal as D

from hypothesis import strategies as st

from pbt.core import ensure, subtest
from pbt.world import mk_goal, run, sdict_any, steps_of, worlds

P = "C14"
RULE = ("random worlds with missions of every kind (area, pose, deadline, time window) for some, all or no players, with and without collisions; the end of the run and the "
        "departure of every player are recomputed from the logged states, the missions and the reports; non-trivial = somebody leaves, or the run ends for another reason than time")
ASSUMPTIONS = ["a time limit is over at the first step whose time is later than it (the code compares strictly; so does its documentation of the after-collision time)",
               "missions that do not depend on velocities (collisions of the same step come after the departure)"]


@st.composite
def missions(draw):
    dense = draw(st.integers(0, 2)) == 0
    w = draw(worlds(dense=dense, vandal=False, sensors=False, obstacles=dense, steps=14, min_players=draw(st.sampled_from([1] * 9 + [0]))))
    if draw(st.booleans()):  # all the same kind of mission: everybody finishes
        for p in w["players"]:
            if p["goal"] is None and draw(st.booleans()):
                p["goal"] = dict(k="time", t=draw(st.sampled_from(["0", "0.1", "0.2", "0.13"])), t1=None)
    return w


@subtest(P, missions, quick=2400, shards=8, need=("left", "empty", "end:time", "end:collision", "end:missions", "end:nobody", "stays", "no_mission"))
def ends_and_departures(case):
    ctx = run(case)
    dt, tmax, after = D(case["dt"]), D(case["tmax"]), D(case["after"])
    n, rem = steps_of(case, ctx)
    names = [p["name"] for p in case["players"]]
    goals = {p["name"]: mk_goal(p["goal"]) for p in case["players"] if p["goal"]}
    logs = {k: dict(zip(ctx.log[k].states.timestamps, ctx.log[k].states.values)) for k in names}
    ensure(ctx.sim_terminated is True and n >= 1, "the run is not marked as terminated")
    here = list(names)
    labels = [] if names else ["empty"]
    first = D("Infinity")
    for k in range(1, n + 1):
        t = k * dt
        for q in list(here):
            # state at the end of this step (collisions do not change poses)
            s = logs[q].get(t)
            if s is None and k == n:
                s = ctx.models[q].get_state()
            done = q in goals and s is not None and goals[q].is_fulfilled(s, t)
            if q in goals and s is None:
                ensure(False, f"{q} vanished from the log at {t} although it is still in the simulation", last=str(max(logs[q])))
            left = q not in ctx.players and max(logs[q]) == t
            if done:
                ensure(q not in ctx.players, f"{q} fulfilled its mission at {t} but was never taken out")
                ensure(max(logs[q]) == t, f"{q} fulfilled its mission at {t} but was logged until {max(logs[q])}")
                ensure(sdict_any(ctx.models[q].get_state()) == sdict_any(logs[q][t]), f"{q} moved after it had finished / its final state is not in the log")
                here.remove(q)
                labels.append("left")
            else:
                ensure(not left, f"{q} was taken out at {t} without having fulfilled its mission")
                if q not in goals:
                    ensure(q in ctx.players, f"{q} has no mission but was removed")
                    labels.append("no_mission")
        reasons = []
        if t > tmax:
            reasons.append("time")
        if t > first + after:
            reasons.append("collision")
        if not here:
            reasons.append("nobody")
        elif goals and not any(q in here for q in goals):
            reasons.append("missions")
        if k < n:
            ensure(not reasons, f"the run should have ended at {t}", reasons=reasons, ended=str(ctx.time))
        else:
            ensure(bool(reasons), f"the run ended at {t} for no reason", tmax=case["tmax"], first_collision=str(first), present=here, missions=sorted(goals))
            labels += [f"end:{r}" for r in reasons]
        for r in ctx.collision_reports:
            if r.at_time == t:
                first = min(first, t)
                for q in r.players:
                    ensure(q in here or q == "Env", f"{q} had left but was hit at {t}")
    ensure(set(here) == set(ctx.players), "players left in the simulation at the end", expected=sorted(here), got=sorted(ctx.players))
    ensure(set(ctx.models) == set(names), "the models of players who left are gone")
    for q in names:
        calls = [c["t"] for c in ctx._spies[q].calls]
        if q not in here:
            end = max(logs[q])
            ensure(all(c < end for c in calls), f"{q} acted after it had left")
            for o in names:
                for c in ctx._spies[o].calls:
                    if c["t"] >= end:
                        ensure(q not in c["obs"], f"{o} still sees {q} at {c['t']} after it left at {end}")
        else:
            labels.append("stays")
            ensure(max(logs[q]) == (n - 1) * dt, f"the log of {q} stops before the end")
    return labels
