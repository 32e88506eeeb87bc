from __future__ import annotations

import copy
from decimal import Decimal as D

import numpy as np
from hypothesis import strategies as st

from dg_commons.sim.simulator_structures import PlayerLog, SimLog

from pbt.core import ensure, ensure_close, ensure_raises, subtest
from pbt.gens import fl
from pbt.world import extra_of, log_data, run, sdict_any, steps_of, worlds
from pbt.zoo import COMMANDS, STATES, mk_cmd, mk_model, mk_state

P = "C11"
RULE = ("random worlds (1-4 players of all model families, scripted / reactive / object-reusing spy agents, missions, static obstacles, step and command periods that "
        "do or do not divide each other); clock, request times, logged states and commands are compared with an independent schedule and an independent replay; "
        "non-trivial = several steps with held commands, removals or collisions as labelled")
ASSUMPTIONS = ["the extra objects an agent logs are stored as they are (no copy is promised)", "the first request is at the start of the run, all players share the schedule"]


def schedule(n, dt, dtc):
    """Request times: the first step, then the first step at which at least dtc has passed."""
    out, last = [], None
    for k in range(n):
        t = k * dt
        if last is None or t - last >= dtc:
            out.append(t)
            last = t
    return out


@subtest(P, lambda: worlds(dense=False), quick=1600, shards=8, need=("held", "removed", "several", "uneven"))
def clock_schedule_and_log_contents(case):
    ctx = run(case)
    dt, dtc = D(case["dt"]), D(case["dtc"])
    n, rem = steps_of(case, ctx)
    ensure(rem == 0 and isinstance(ctx.time, D), "the clock is not a multiple of the time step", time=str(ctx.time), dt=case["dt"])
    ensure(set(ctx.log) == {p["name"] for p in case["players"]}, "players in the log")
    want_req = schedule(n, dt, dtc)
    labels = ["held"] if len(want_req) < n else []
    if dtc % dt != 0:
        labels.append("uneven")
    for p in case["players"]:
        nm, fam = p["name"], p["body"]["fam"]
        lg, ts = ctx.log[nm], list(ctx.log[nm].states.timestamps)
        removed = nm not in ctx.players
        m = len(ts)
        ensure(ts == [k * dt for k in range(m)], f"{nm}: one logged state per step", got=[str(t) for t in ts])
        ensure(m == n + 1 if removed and m == n + 1 else (m == n if not removed else m <= n + 1), f"{nm}: number of logged states", logged=m, steps=n, removed=removed)
        alive = m - 1 if removed else n  # steps in which it was in the simulation
        if removed:
            labels.append("removed")
        req = [t for t in want_req if t < alive * dt]
        ct = list(lg.commands.timestamps)
        ensure(ct == req, f"{nm}: one logged command per request, at the request times", got=[str(t) for t in ct], expected=[str(t) for t in req])
        ensure(list(lg.info.timestamps) == req, f"{nm}: computation times")
        spy = ctx_agent(ctx, nm)
        ensure([c["t"] for c in spy.calls] == req, f"{nm}: the agent was not asked at the request times", got=[str(c["t"]) for c in spy.calls], expected=[str(t) for t in req])
        for t, got, gave in zip(ct, lg.commands.values, spy.returned):
            ensure({k: float(getattr(got, k)) for k in gave} == gave, f"{nm}: the logged command at {t} is not what the agent answered")
        want_extra = [(t, extra_of(i)) for i, t in enumerate(req) if i % 2 == 0] if p["extra"] else []
        ensure(list(zip(lg.extra.timestamps, lg.extra.values)) == want_extra, f"{nm}: logged extras")
        # the log starts with the initial state
        x0 = sdict_any(lg.states.values[0])
        ensure(all(x0[k] == p["body"]["x"].get(k, x0[k]) for k in STATES[fam][1]), f"{nm}: the first logged state is not the initial state")
        if len(req) > 1:
            labels.append("several")
    return labels


def ctx_agent(ctx, nm):
    return ctx._spies[nm]


@subtest(P, lambda: worlds(dense=False, obstacles=False, steps=16), quick=1200, shards=8, need=("replayed", "held"))
def log_replays_exactly(case):
    """Feeding the logged commands, held between requests, to the same model from the first logged state gives every logged state."""
    ctx = run(case)
    dt = D(case["dt"])
    ensure(not ctx.collision_reports, "players far apart collided")
    labels = []
    for p in case["players"]:
        nm, fam = p["name"], p["body"]["fam"]
        lg = ctx.log[nm]
        body = copy.deepcopy(p["body"])
        m = mk_model(body)
        m.set_state(copy.deepcopy(lg.states.values[0]))
        cts, cvs = list(lg.commands.timestamps), list(lg.commands.values)
        for t, s in zip(lg.states.timestamps, lg.states.values):
            got, want = sdict_any(m.get_state()), sdict_any(s)
            ensure(got == want, f"{nm} ({fam}): replaying the log does not give the logged state at {t}", replay=got, log=want)
            u = [v for tc, v in zip(cts, cvs) if tc <= t][-1]
            if t not in cts:
                labels.append("held")
            m.update(copy.deepcopy(u), dt)
        if len(lg.states) > 2:
            labels.append("replayed")
        if nm in ctx.players:
            ensure(sdict_any(m.get_state()) == sdict_any(ctx.models[nm].get_state()), f"{nm}: final state of the model")
    return labels


@st.composite
def interp_case(draw):
    w = draw(worlds(dense=False, obstacles=False, steps=10))
    return dict(w=w, ts=draw(st.lists(st.one_of(fl(0.0, 1.5), st.integers(0, 150).map(lambda k: k / 100)), min_size=1, max_size=6)), kind=draw(st.sampled_from(["f", "D"])), late=draw(st.integers(0, 3)))


@subtest(P, interp_case, quick=800, shards=4, need=("between", "at_sample", "after_end"))
def interpolated_log_is_that_of_each_player(case):
    ctx = run(case["w"])
    log = ctx.log
    firsts = [log[k].states.timestamps[0] for k in log]
    lasts = [log[k].states.timestamps[-1] for k in log]
    ensure(log.get_init_time() == min(firsts) and log.get_last_time() == max(lasts), "span of the log")
    before = log_data(ctx)
    labels = []
    for t in case["ts"]:
        td = D(str(t))
        q = td if case["kind"] == "D" else t
        res = log.at_interp(q)
        ensure(set(res) == set(log), "players of the interpolated log")
        for p in case["w"]["players"]:
            nm, fam = p["name"], p["body"]["fam"]
            lg, e = log[nm], res[nm]
            ts, vs = [float(x) for x in lg.states.timestamps], [[sdict_any(s)[k] for k in STATES[fam][1]] for s in lg.states.values]
            want = [np.interp(t, ts, [v[i] for v in vs]) for i in range(len(vs[0]))]
            got = [float(getattr(e.state, k)) for k in STATES[fam][1]]
            ensure_close(got, want, f"{nm}: interpolated state at {t}", rtol=1e-9, atol=1e-9)
            cts = list(lg.commands.timestamps)
            ic = max(i for i, c in enumerate(cts) if c <= (td if case["kind"] == "D" else D(t)))
            ensure(sdict_any(e.commands) == sdict_any(lg.commands.values[ic]), f"{nm}: command in force at {t}")
            ensure(e.info == lg.info.values[ic], f"{nm}: info at {t}")
            ex = [v for tx, v in zip(lg.extra.timestamps, lg.extra.values) if tx <= (td if case["kind"] == "D" else D(t))]
            ensure(e.extra == (ex[-1] if ex else None), f"{nm}: extra at {t}")
            labels.append("at_sample" if t in ts else ("after_end" if t > ts[-1] else "between"))
    ensure(log_data(ctx) == before, "asking altered the log")
    late = SimLog()  # the same players, who start (and end) one after another
    for i, k in enumerate(log):
        by = D("0.35") * ((i + case["late"]) % len(log))
        late[k] = PlayerLog(**{f: getattr(log[k], f).shift_timestamps(by + (D("0.05") if f != "states" else 0)) for f in ("states", "commands", "extra", "info")})
    ensure(late.get_init_time() == min(late[k].states.timestamps[0] for k in late), "start of a log in which players start at different times")
    ensure(late.get_last_time() == max(late[k].states.timestamps[-1] for k in late), "end of a log in which players end at different times")
    for k in log:
        ensure_raises(lambda: log[k].at_interp(D(-1)), Exception, "command in force before the start")
    ensure_raises(lambda: log.__setitem__("x", 3), ValueError, "only player logs in a simulation log")
    return labels
