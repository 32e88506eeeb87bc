from __future__ import annotations

import copy
import threading
from decimal import Decimal as D

from hypothesis import strategies as st

from dg_commons.sim.simulator import Simulator
from pbt.core import ensure, subtest
from pbt.world import build, log_data, mk_goal, rep_data, run, sdict_any, worlds
from pbt.zoo import STATES, mk_model, sdict

P = "C12"
RULE = ("random worlds with spy agents which record what they get, react to it, and (some) vandalise their observations, scenario copy and returned command objects; "
        "oracles: the logged true states, permuted / repeated / reused / nested / concurrent runs of the same world; non-trivial = at least two interacting players")
ASSUMPTIONS = ["order of players can matter where bodies touch (collisions are resolved one after the other), so order independence is required for runs without contact",
               "a filter (sensor) instance belongs to one run; computation times in the log are excluded from the comparison"]


@subtest(P, lambda: worlds(min_players=1, max_players=4), quick=1200, shards=8, need=("several", "vandal", "hidden", "removed"))
def agents_see_the_true_simultaneous_state(case):
    ctx = run(case)
    labels = []
    names = [p["name"] for p in case["players"]]
    true = {nm: dict(zip(ctx.log[nm].states.timestamps, ctx.log[nm].states.values)) for nm in names}
    dt = D(case["dt"])
    # time from which a player is gone
    gone = {nm: (ctx.log[nm].states.timestamps[-1] if nm not in ctx.players else None) for nm in names}
    for p in case["players"]:
        nm = p["name"]
        spy = ctx._spies[nm]
        for c in spy.calls:
            t = c["t"]
            here = {k for k in names if gone[k] is None or t < gone[k]}
            want = here - (set(p["hide"]) - {nm} if p.get("hide") is not None else set())
            ensure(set(c["obs"]) == want, f"{nm} at {t}: sees other players than those present (and not hidden by its sensor)", got=sorted(c["obs"]), expected=sorted(want))
            for k, (s, wkt) in c["obs"].items():
                ensure(s == sdict_any(true[k][t]), f"{nm} at {t}: does not see the true state of {k}", got=s, expected=sdict_any(true[k][t]))
                b = copy.deepcopy(next(q for q in case["players"] if q["name"] == k)["body"])
                m = mk_model(b)
                m.set_state(copy.deepcopy(true[k][t]))
                ensure(m.get_footprint().wkt == wkt, f"{nm} at {t}: occupancy of {k} is not its footprint")
            if len(here) > 1:
                labels.append("several")
            if here != want:
                labels.append("hidden")
        if p["vandal"]:
            labels.append("vandal")
        if gone[nm] is not None and len(names) > 1:
            labels.append("removed")
        if p.get("hide") is not None:
            f = ctx.sensors[nm]
            ensure([c for c in f.calls] == [(c["t"], nm) for c in spy.calls], f"the sensor of {nm} was not used for {nm} alone, once per request")
    return labels


@subtest(P, lambda: worlds(min_players=1, max_players=4, steps=3), quick=500, shards=2, need=("goal", "no_goal", "obstacles"))
def initial_information(case):
    ctx = build(case)
    n_obs = len(ctx.dg_scenario.static_obstacles)
    wkts = [o.shape.wkt for o in ctx.dg_scenario.static_obstacles]
    Simulator().run(ctx)
    labels = ["obstacles"] if n_obs else []
    scen = []
    for p in case["players"]:
        nm = p["name"]
        spy = ctx._spies[nm]
        ensure(len(spy.inits) == 1, f"{nm} was not initialised exactly once", times=len(spy.inits))
        init, at_init = spy.inits[0]
        ensure(at_init["name"] == nm and init.my_name == nm, "told a wrong name", told=at_init["name"], name=nm)
        ensure(init.seed == case["seed"], "told a wrong seed")
        ensure(init.model_geometry == ctx.models[nm].model_geometry and init.model_params == ctx.models[nm].model_params, f"{nm}: told other parameters than its model has")
        mission = ctx._missions.get(nm)
        if mission is None:
            ensure(init.goal is None, f"{nm} was told a goal it does not have")
            labels.append("no_goal")
        else:
            ensure(init.goal is not None and init.goal is not mission, f"{nm}: the goal told is not a private copy")
            if p["goal"]["k"] == "pose":
                ensure(init.goal.goal_pose.p.tolist() == mission.goal_pose.p.tolist() and init.goal.goal_pose.theta == mission.goal_pose.theta and init.goal.tol == mission.tol and init.goal.goal_pose is not mission.goal_pose, f"{nm}: other goal")
            else:
                ensure(init.goal == mission, f"{nm}: told another goal")
            labels.append("goal")
        ensure(init.dg_scenario is not None and init.dg_scenario is not ctx.dg_scenario and all(init.dg_scenario is not s for s in scen), f"{nm}: the scenario is not a private copy")
        scen.append(init.dg_scenario)
        if not p["vandal"]:
            ensure([o.shape.wkt for o in init.dg_scenario.static_obstacles] == wkts, f"{nm}: told another scenario")
            ensure(all(a is not b for a, b in zip(init.dg_scenario.static_obstacles, ctx.dg_scenario.static_obstacles)), f"{nm}: shares obstacles")
    ensure([o.shape.wkt for o in ctx.dg_scenario.static_obstacles] == wkts, "the scenario of the simulation was altered by an agent")
    return labels


def outcome(ctx, with_reports=True):
    d = dict(time=ctx.time, log=log_data(ctx), left=set(ctx.players), final={k: sdict_any(m.get_state()) for k, m in ctx.models.items()},
             obs={k: [(c["t"], c["obs"]) for c in s.calls] for k, s in ctx._spies.items()})
    if with_reports:
        d["reports"] = rep_data(ctx)
    return d


def diff(a, b):
    if a == b:
        return None
    for k in a:
        if a[k] != b[k]:
            if isinstance(a[k], dict):
                for q in a[k]:
                    if a[k][q] != b[k].get(q):
                        return f"{k}[{q}]: {str(a[k][q])[:250]} vs {str(b[k].get(q))[:250]}"
            return f"{k}: {str(a[k])[:250]} vs {str(b[k])[:250]}"
    return "keys"


@st.composite
def permuted(draw):
    w = draw(worlds(min_players=2, max_players=4, obstacles=False))
    return dict(w=w, order=draw(st.permutations(range(len(w["players"])))))


@subtest(P, permuted, quick=800, shards=8, need=("reactive", "permuted"))
def order_of_players_is_irrelevant(case):
    w = case["w"]
    a, b = run(w), run(w, order=case["order"])
    ensure(not a.collision_reports, "far apart players collided")
    d = diff(outcome(a), outcome(b))
    ensure(d is None, f"listing the players in another order changes the run: {d}", order=case["order"])
    labels = []
    if list(case["order"]) != sorted(case["order"]):
        labels.append("permuted")
        if any(p["feedback"] for p in w["players"]):
            labels.append("reactive")
    return labels


@subtest(P, lambda: worlds(min_players=2, max_players=4, dense=True), quick=600, shards=8, need=("vandal",))
def vandals_only_hurt_themselves(case):
    """What an agent does with the objects it got or gave changes nothing."""
    meek = copy.deepcopy(case)
    for p in meek["players"]:
        p["vandal"] = p["reuse"] = False
    d = diff(outcome(run(case)), outcome(run(meek)))
    ensure(d is None, f"what agents do with the objects they received / returned changes the run: {d}")
    return ["vandal"] if any(p["vandal"] or p["reuse"] for p in case["players"]) else None


@st.composite
def repeats(draw):
    return dict(w=draw(worlds(dense=draw(st.booleans()), max_players=3, steps=10)), other=draw(worlds(max_players=2, steps=5, dense=True)),
                how=draw(st.sampled_from(["again", "same_simulator", "same_simulator", "nested", "nested", "threads", "sandwich", "stepwise"])))


@subtest(P, repeats, quick=700, shards=8, need=("again", "same_simulator", "nested", "threads", "sandwich", "stepwise"))
def runs_are_reproducible_and_independent(case):
    w, other, how = case["w"], case["other"], case["how"]
    ref, ref_other = outcome(run(w)), outcome(run(other))
    got2 = None
    if how == "again":
        got = outcome(run(w))
    elif how == "same_simulator":
        sim = Simulator()
        got2 = outcome(run(other, sim=sim))
        got = outcome(run(w, sim=sim))
    elif how == "sandwich":
        s1, s2 = Simulator(), Simulator()
        c1, c2 = build(w), build(other)
        s2.run(c2)
        s1.run(c1)
        got, got2 = outcome(c1), outcome(c2)
    elif how == "nested":
        inner = []

        def hook(spy, obs, i):
            if not inner:
                inner.append(outcome(run(other)))

        got = outcome(run(w, hooks={w["players"][-1]["name"]: hook}))
        got2 = inner[0]
    elif how == "stepwise":  # another simulation advances between the steps of this one
        class Slow(Simulator):
            def post_update(self, sim_context):
                super().post_update(sim_context)
                if len(done) < 2:
                    done.append(outcome(run(other)))

        done = []
        got = outcome(run(w, sim=Slow()))
        got2 = done[-1] if done else None
    else:
        res = {}

        def work(k, spec):
            res[k] = outcome(run(spec))

        ths = [threading.Thread(target=work, args=a) for a in (("w", w), ("o", other), ("w2", w))]
        for th in ths:
            th.start()
        for th in ths:
            th.join()
        ensure(set(res) == {"w", "o", "w2"}, "a run failed when other runs were going on", finished=sorted(res))
        got, got2 = res["w"], res["o"]
        d = diff(ref, res["w2"])
        ensure(d is None, f"threads: differs from the first run: {d}")
    d = diff(ref, got)
    ensure(d is None, f"{how}: differs from the first run: {d}")
    if got2 is not None:
        d = diff(ref_other, got2)
        ensure(d is None, f"{how}: the other simulation differs from its first run: {d}")
    return how
