from __future__ import annotations

import math
from decimal import Decimal as D

import numpy as np
from hypothesis import strategies as st

from dg_commons.sim.models.model_structures import CAR
from pbt import refdyn, zoo
from pbt.core import ensure, ensure_close, subtest
from pbt.zoo import (COMMANDS, FAMILIES, STATES, cmd_limits, cmd_of, cvec, mk_cmd, mk_model, mk_params, mk_state, model_case, model_cmd_case, sdict,
                     state_of, svec)

P = "C07"
RULE = ("random model family/parameters/states with commands in and far beyond the limits, single steps and histories of up to 25 steps; "
        "non-trivial = a limit is active, fuel runs out or the body has collided")


def clipped(fam, p, u: dict) -> dict:
    return {k: min(max(u[k], float(lo)), float(hi)) for k, (lo, hi) in cmd_limits(fam, p).items()}


@subtest(P, lambda: model_cmd_case(over=3.0), quick=3000, shards=2, need=tuple(FAMILIES))
def commands_are_saturated(case):
    fam = case["fam"]
    m = mk_model(case)
    s = mk_state(fam, case["x"])
    uc = clipped(fam, m.model_params, case["u"])
    d, dc = m.dynamics(s, mk_cmd(fam, case["u"])), m.dynamics(s, mk_cmd(fam, uc))
    if fam == "dyn_obstacle":  # here the limits apply to the sum of command and frame rotation terms, see the bounds below
        uc = case["u"] if case["x"]["dpsi"] else uc
        d, dc = m.dynamics(s, mk_cmd(fam, case["u"])), m.dynamics(s, mk_cmd(fam, uc))
    ensure_close(svec(fam, d), svec(fam, dc), f"{fam}: a command beyond the limits acts more than the limit itself", rtol=1e-12, atol=1e-12)
    if fam != "dyn_obstacle":  # the limit acts like the commands just inside of it
        rng = cmd_limits(fam, m.model_params)
        inside = {k: v + (1e-8 * (rng[k][1] - rng[k][0]) * (1 if v <= rng[k][0] else -1 if v >= rng[k][1] else 0) if k in rng else 0) for k, v in uc.items()}
        di = svec(fam, m.dynamics(s, mk_cmd(fam, inside)))
        ensure_close(svec(fam, dc), di, f"{fam}: a command at the limit does not act like the one just inside of it", rtol=1e-5, atol=1e-5 * (1 + float(np.max(np.abs(di)))))
    m2 = mk_model(case)
    m.update(mk_cmd(fam, case["u"]), D(str(case["dt"])))
    m2.update(mk_cmd(fam, uc), D(str(case["dt"])))
    # the adaptive step size may react to the size of the commands
    if fam != "dyn_obstacle":
        ensure_close(svec(fam, m.get_state()), svec(fam, m2.get_state()), f"{fam}: state reached with an excessive command", rtol=1e-2, atol=5e-2)
    p = m.model_params
    x, dd = case["x"], sdict(fam, d)
    eps = 1e-9
    if fam in ("vehicle", "vehicle_dyn"):
        ensure(abs(dd["delta"]) <= p.ddelta_max + eps, "steering rate", got=dd["delta"], limit=p.ddelta_max)
        if fam == "vehicle":
            ensure(p.acc_limits[0] - eps <= dd["vx"] <= p.acc_limits[1] + eps, "acceleration", got=dd["vx"])
    elif fam == "pedestrian":
        ensure(p.acc_limits[0] - eps <= dd["vx"] <= p.acc_limits[1] + eps, "acceleration", got=dd["vx"])
        ensure(abs(dd["psi"]) <= p.dtheta_max + eps, "turning rate", got=dd["psi"])
    elif fam == "diff_drive":
        g = m.vg
        w = max(abs(float(v)) for v in p.omega_limits)
        ensure(math.hypot(dd["x"], dd["y"]) <= w * g.wheelradius + eps, "speed of a wheeled robot")
        wl = (math.hypot(dd["x"], dd["y"]) * np.sign(dd["x"] * math.cos(x["psi"]) + dd["y"] * math.sin(x["psi"])) - dd["psi"] * g.wheelbase / 2) / g.wheelradius
        wr = wl + dd["psi"] * g.wheelbase / g.wheelradius
        for k in (wl, wr):
            ensure(p.omega_limits[0] - 1e-6 <= k <= p.omega_limits[1] + 1e-6, "wheel speed", got=k)
    elif fam == "spacecraft":
        ensure(2 * p.acc_limits[0] - eps <= dd["vx"] - x["vy"] * x["dpsi"] <= 2 * p.acc_limits[1] + eps, "acceleration", got=dd["vx"])
    elif fam == "spaceship":
        lim = max(abs(float(v)) for v in p.thrust_limits)
        a = math.hypot(dd["vx"] - x["dpsi"] * x["vy"], dd["vy"] + x["dpsi"] * x["vx"])
        ensure(a <= lim / x["m"] + eps, "thrust", got=a * x["m"], limit=lim)
        ensure(p.ddelta_limits[0] - eps <= dd["delta"] <= p.ddelta_limits[1] + eps, "nozzle rate", got=dd["delta"])
    elif fam == "rocket":
        ensure(-p.C_T * 2 * p.F_limits[1] - eps <= dd["m"] <= eps, "fuel rate")
        ensure(p.ddelta_limits[0] - eps <= dd["phi"] <= p.ddelta_limits[1] + eps, "nozzle rate", got=dd["phi"])
        ensure(math.hypot(dd["vx"], dd["vy"]) <= 2 * p.F_limits[1] / x["m"] + eps, "thrust")
    else:
        for k, lim in (("vx", p.acc_limits), ("vy", p.acc_limits), ("dpsi", p.ddpsi_limits)):
            ensure(lim[0] - eps <= dd[k] <= lim[1] + eps, f"acceleration {k}", got=dd[k], limits=lim)
    return fam if clipped(fam, p, case["u"]) != case["u"] else None


@st.composite
def history(draw):
    c = draw(model_case(span=5.0))
    p = mk_params(c["fam"], c["kind"], c["p"])
    pool = draw(st.lists(cmd_of(c["fam"], p, over=3.0), min_size=1, max_size=3))
    # long stretches of the same command are what drives a state into its limit
    c["us"] = draw(st.lists(st.tuples(st.integers(0, len(pool) - 1), st.integers(1, 8)), min_size=1, max_size=4).map(lambda l: [list(t) for t in l]))
    c["pool"] = pool
    c["dt"] = draw(st.sampled_from([0.05, 0.1, 0.2, 0.5]))
    return c


def bounded_states(fam, p):
    """state -> (limits, largest rate that actuation can produce)."""
    if fam in ("vehicle", "vehicle_dyn"):
        d = dict(delta=((-p.delta_max, p.delta_max), p.ddelta_max))
        if fam == "vehicle":
            d["vx"] = (p.vx_limits, max(abs(float(v)) for v in p.acc_limits))
        return d
    if fam == "pedestrian":
        return dict(vx=(p.vx_limits, max(abs(float(v)) for v in p.acc_limits)))
    if fam == "spacecraft":
        return dict(dpsi=(p.dpsi_limits, None))
    if fam == "spaceship":
        return dict(delta=(p.delta_limits, max(abs(float(v)) for v in p.ddelta_limits)))
    if fam == "rocket":
        return dict(phi=(p.delta_limits, max(abs(float(v)) for v in p.ddelta_limits)))
    if fam == "dyn_obstacle":
        a = max(abs(float(v)) for v in p.acc_limits)
        return dict(vx=(p.vx_limits, a), vy=(p.vx_limits, a), dpsi=(p.dpsi_limits, max(abs(float(v)) for v in p.ddpsi_limits)))
    return {}


@subtest(P, history, quick=600, shards=4, need=("vehicle", "vehicle_dyn", "pedestrian", "spacecraft", "spaceship", "rocket", "dyn_obstacle"))
def states_stay_bounded(case):
    fam, dt = case["fam"], case["dt"]
    m = mk_model(case)
    p = m.model_params
    bounds = bounded_states(fam, p)
    lab = set()
    prev = sdict(fam, m.get_state())
    for i, n in case["us"]:
        for _ in range(n):
            m.update(mk_cmd(fam, case["pool"][i]), D(str(dt)))
            new = sdict(fam, m.get_state())
            ensure(all(math.isfinite(v) for v in new.values()), "the state is not finite", state=new)
            for k, ((lo, hi), rate) in bounds.items():
                if rate is None:
                    rate = m.sg.w_half * m.sg.m / m.sg.Iz * (p.acc_limits[1] - p.acc_limits[0])
                over = 1.35 * rate * dt + 1e-6  # a step which reaches the limit may run past it by the actuation of that step
                ensure(lo - over <= new[k] <= hi + over, f"{fam}: {k} beyond its limits", got=new[k], limits=[lo, hi], over=over)
                slack = 1e-6 + 1e-3 * rate * dt
                if fam == "dyn_obstacle" and k != "dpsi":  # the frame's rotation may carry it out and in again within a step
                    lab.update([fam] if not lo < new[k] < hi else [])
                    continue
                if prev[k] >= hi:
                    lab.add(fam)
                    ensure(new[k] <= prev[k] + slack, f"{fam}: {k} grows although it is already at its limit", before=prev[k], after=new[k], limit=hi)
                if prev[k] <= lo:
                    lab.add(fam)
                    ensure(new[k] >= prev[k] - slack, f"{fam}: {k} falls although it is already at its limit", before=prev[k], after=new[k], limit=lo)
            prev = new
    return lab


@st.composite
def at_limit(draw):
    c = draw(model_cmd_case(over=2.0))
    p = mk_params(c["fam"], c["kind"], c["p"])
    for k, ((lo, hi), _) in bounded_states(c["fam"], p).items():
        lo, hi = float(lo), float(hi)
        c["x"][k] = draw(st.sampled_from([lo, hi, lo, hi, lo - 0.05, hi + 0.05, lo + 0.05, hi - 0.05, c["x"][k]]))
    return c


@subtest(P, at_limit, quick=1500, need=("outward", "inward"))
def limits_act_outwards_only(case):
    """At a limit, commands leading further out have no effect, those leading back act as commanded; inside, all act."""
    fam = case["fam"]
    m = mk_model(case)
    p = m.model_params
    d = sdict(fam, m.dynamics(mk_state(fam, case["x"]), mk_cmd(fam, case["u"])))
    ref = refdyn.deriv(m, fam, case["x"], case["u"])
    lab = set()
    for k, ((lo, hi), _) in bounded_states(fam, p).items():
        ensure_close(d[k], ref[k], f"{fam}: rate of {k} at {case['x'][k]} within [{lo}, {hi}]", rtol=1e-9, atol=1e-9)
        at = 1 if case["x"][k] >= hi else -1 if case["x"][k] <= lo else 0
        if at and fam not in ("dyn_obstacle", "vehicle_dyn"):
            ensure(d[k] * at <= 0, f"{fam}: {k} moves beyond its limit", rate=d[k])
            lab.add("inward" if d[k] else "outward")
    return lab


@st.composite
def fuel(draw):
    c = draw(model_case(fams=("spaceship", "rocket"), span=5.0))
    p = mk_params(c["fam"], c["kind"], c["p"])
    c["us"] = draw(st.lists(cmd_of(c["fam"], p, over=2.0), min_size=1, max_size=12))
    c["dt"] = draw(st.sampled_from([0.05, 0.1, 0.5]))
    return c


@subtest(P, fuel, quick=600, shards=2, need=("burn", "empty", "reverse"))
def fuel_is_consumed_by_thrust_only(case):
    fam, dt = case["fam"], case["dt"]
    m = mk_model(case)
    p = m.model_params
    lab = set()
    for u in case["us"]:
        prev, uc = sdict(fam, m.get_state()), clipped(fam, p, u)
        T = uc["thrust"] if fam == "spaceship" else uc["F_left"] + uc["F_right"]
        vg = np.asarray(m.get_velocity(in_model_frame=False)[0], dtype=float) if fam == "spaceship" else np.array([prev["vx"], prev["vy"]])
        m.update(mk_cmd(fam, u), D(str(dt)))
        new = sdict(fam, m.get_state())
        used = prev["m"] - new["m"]
        need = p.C_T * T * dt
        if prev["m"] <= p.m_v:
            ensure(abs(used) <= 1e-9, "mass changes with an empty tank", used=used, thrust=T)
            ensure(abs(new["dpsi"] - prev["dpsi"]) <= 1e-6 + 1e-4 * abs(prev["dpsi"]), "an empty tank still produces torque", before=prev, after=new)
            vn = np.asarray(m.get_velocity(in_model_frame=False)[0], dtype=float) if fam == "spaceship" else np.array([new["vx"], new["vy"]])
            ensure(np.hypot(*(vn - vg)) <= 1e-6 + 5e-3 * np.hypot(*vg), "an empty tank still produces thrust", before=vg.tolist(), after=vn.tolist())
            lab.add("empty")
        elif T <= 0 or prev["m"] - need * 1.4 > p.m_v + 1e-9:
            ensure_close(used, need, "fuel used by the thrust", rtol=1e-6, atol=1e-9)
            lab.add("burn" if T > 0 else "reverse" if T < 0 else "coast")
        else:
            ensure(-1e-9 <= used <= need * 1.4 + 1e-9, "fuel used when running empty", used=used, need=need)
            ensure(new["m"] >= p.m_v - 1.4 * need - 1e-9, "mass below the dry mass")
            lab.add("running out")
    return lab


OBEY = {"dyn_obstacle"}  # no notion of a disabled obstacle


@st.composite
def collided(draw):
    c = draw(model_case(fams=tuple(f for f in FAMILIES if f not in OBEY), span=5.0))
    p = mk_params(c["fam"], c["kind"], c["p"])
    c["u"], c["u2"] = draw(cmd_of(c["fam"], p, over=2.0)), draw(cmd_of(c["fam"], p, over=2.0))
    c["dt"] = draw(st.sampled_from([0.02, 0.05, 0.1]))
    c["n"] = draw(st.integers(1, 6))
    if c["fam"] in ("rocket", "spaceship", "spacecraft"):  # tumbling
        c["x"]["dpsi"] *= draw(st.sampled_from([1.0, 1.0, 2.0, 4.0]))
    return c


def global_speed(fam, m):
    s = sdict(fam, m.get_state())
    if fam == "diff_drive":
        return 0.0
    return math.hypot(s["vx"], s.get("vy", 0.0))


@subtest(P, collided, quick=1000, shards=2, need=("vehicle", "vehicle_dyn", "pedestrian", "diff_drive", "spacecraft", "spaceship", "rocket"))
def collided_bodies_are_passive(case):
    fam = case["fam"]
    ms = [mk_model(case) for _ in range(2)]
    obeys = fam in ("vehicle", "vehicle_dyn") and ms[0].model_type == CAR
    lab = fam
    for m in ms:
        ensure(m.has_collided is False, "a new body counts as collided")
        m.has_collided = True
    for _ in range(case["n"]):
        before = sdict(fam, ms[0].get_state())
        v0 = global_speed(fam, ms[0])
        if obeys:  # cars still react to commands but those of an idle car must not make it faster
            zero = mk_cmd(fam, {k: 0.0 for k in COMMANDS[fam][1]})
            if fam == "vehicle_dyn" and (before["vx"] < 0.3 or abs(before["vy"]) > 0.3 * before["vx"]):
                return None
            ms[0].update(zero, D(str(case["dt"])))
        else:
            ms[0].update(mk_cmd(fam, case["u"]), D(str(case["dt"])))
            ms[1].update(mk_cmd(fam, case["u2"]), D(str(case["dt"])))
            sa, sb = sdict(fam, ms[0].get_state()), sdict(fam, ms[1].get_state())
            # stiff tyres: the (loose) adaptive step sizes may react to the size of the commands
            loose = {"vy": 0.2, "dpsi": 0.2, "vx": 0.02, "x": 0.02, "y": 0.02, "psi": 0.02} if fam == "vehicle_dyn" else {}
            for k in sa:
                ensure_close(sa[k], sb[k], f"{fam}: a collided body obeys its commands ({k})", rtol=1e-2, atol=loose.get(k, 3e-3))
        after = sdict(fam, ms[0].get_state())
        v1 = global_speed(fam, ms[0])
        if fam == "vehicle_dyn":
            # tyre forces trade yaw energy against translational energy, the sum only falls
            g = ms[0].vg
            if case["kind"] == "bicycle" and abs(before["delta"]) > 0.2:
                continue  # the (placeholder) tyre curve of bicycles propels at large slip
            if before["vx"] < 0.3 or abs(before["vy"]) > 0.3 * before["vx"] or abs(before["dpsi"]) * (g.lf + g.lr) > 0.5 * before["vx"]:
                continue
            e0 = v0**2 + g.Iz / g.m * before["dpsi"] ** 2
            e1 = v1**2 + g.Iz / g.m * after["dpsi"] ** 2
            ensure(e1 <= e0 * 1.02 + 1e-3, "collided vehicle gains kinetic energy", before=before, after=after)
        elif fam != "diff_drive":
            ensure(v1 <= v0 * (1 + 5e-3) + 1e-6, f"{fam}: a collided body gains speed", before=before, after=after)
            if fam == "pedestrian" and v0 > 0.1:
                ensure(v1 <= v0 * (1 - 1.5 * case["dt"]), "a collided pedestrian is not slowed down", before=before, after=after)
            if fam in ("pedestrian", "spacecraft", "spaceship", "rocket"):
                ensure(abs(after["dpsi"]) <= abs(before["dpsi"]) + 1e-6, f"{fam}: a collided body spins up", before=before, after=after)
        else:
            ensure_close(svec(fam, ms[0].get_state()), [before[k] for k in STATES[fam][1]], "a collided robot moves on", rtol=1e-9, atol=1e-9)
        if fam in ("spaceship", "rocket"):
            ensure(abs(after["m"] - before["m"]) <= 1e-9, "a collided body burns fuel")
    return lab


@subtest(P, lambda: model_cmd_case(fams=("vehicle_dyn", "pedestrian"), over=1.0), quick=600, need=("vehicle_dyn", "pedestrian"))
def friction_of_collided_bodies_opposes_their_motion(case):
    fam = case["fam"]
    m, free = mk_model(case), mk_model(case)
    m.has_collided = True
    s, u = mk_state(fam, case["x"]), mk_cmd(fam, case["u"])
    a, b = sdict(fam, m.dynamics(s, u)), sdict(fam, free.dynamics(s, u))
    x, moving = case["x"], False
    for k in ("vx", "vy", "dpsi"):
        f = a[k] - b[k]
        ensure(f * x[k] <= 1e-9, f"{fam}: friction drives {k}", velocity=x[k], friction=f)
        if abs(x[k]) < 1e-9:
            ensure(abs(f) < 1e-9, f"{fam}: friction moves a body at rest", friction=f)
        elif abs(x[k]) > 1e-3:
            ensure(abs(f) > 1e-6 * abs(x[k]), f"{fam}: no friction on {k}", velocity=x[k])
            moving = True
    for k in ("x", "y", "psi"):
        ensure_close(a[k], b[k], f"{fam}: friction acts on velocities only: {k}", atol=1e-9)
    return fam if moving else None


@subtest(P, lambda: st.sampled_from([(f, k) for f in FAMILIES for k in (zoo.VEH if f in ("vehicle", "vehicle_dyn") else (None,))]).map(list), quick=40)
def default_limits_are_ranges(case):
    """The limits of every default parameter set are ranges around zero (a thrust may be one-sided)."""
    fam, kind = case
    p = mk_params(fam, kind, None)
    for k, (lo, hi) in {**cmd_limits(fam, p), **{k: b for k, (b, _) in bounded_states(fam, p).items()}}.items():
        ensure(lo <= 0 <= hi and lo < hi and math.isfinite(lo) and math.isfinite(hi), f"default limits of {k} of {fam} {kind}", limits=[float(lo), float(hi)])
    return fam


@st.composite
def coasting(draw):
    c = draw(model_case(fams=("vehicle_dyn",), span=5.0).filter(lambda c: c["kind"] != "bicycle"))  # its tyre curve is a placeholder
    v = draw(st.floats(2.0, 25.0))
    c["x"]["vx"] = v
    c["x"]["vy"] = v * draw(st.floats(-0.15, 0.15))
    c["x"]["delta"] = draw(st.floats(-0.5, 0.5))
    c["x"]["dpsi"] = draw(st.floats(-0.2, 0.2))
    c["acc"] = draw(st.one_of(st.just(0.0), st.floats(-8, 0)))
    return c


@subtest(P, coasting, quick=800, need=("braking", "coasting"))
def tyres_never_propel(case):
    """Without throttle the dynamic vehicle's kinetic energy cannot grow: tyres, drag and brakes only dissipate."""
    m = mk_model(case)
    s, x = mk_state("vehicle_dyn", case["x"]), case["x"]
    d = m.dynamics(s, mk_cmd("vehicle_dyn", dict(acc=case["acc"], ddelta=0.0)))
    power = m.vg.m * (x["vx"] * d.vx + x["vy"] * d.vy) + m.vg.Iz * x["dpsi"] * d.dpsi
    ensure(power <= 1e-6, "kinetic energy grows without throttle", power=power, state=x)
    if case["acc"] < 0:
        return "braking"
    return "coasting"
