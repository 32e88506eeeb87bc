"""C23: sampled commands and motion primitives."""
from __future__ import annotations

import math
from dataclasses import replace
from decimal import Decimal as D

from hypothesis import strategies as st

from dg_commons.dynamics import BicycleDynamics
from dg_commons.planning import CommandsSampler, CommandsSamplerParam, MotionPrimitivesGenerator, MPGParam, Trajectory
from dg_commons.sim.models.vehicle import VehicleCommands, VehicleState
from dg_commons.sim.models.vehicle_structures import VehicleGeometry
from dg_commons.sim.models.vehicle_utils import VehicleParameters
from pbt import refdyn
from pbt.core import ensure, ensure_close, ensure_raises, subtest
from pbt.gens import BIG_ANGLE, fl, nice, se2, wrap

P = "C23"
RULE = ("random vehicles (limits, wheelbase), grids of 1-5 samples per axis inside the limits (often reaching them), durations and start states; "
        "label 'feasible' = at least one and not every combination of the grid is feasible")
ASSUMPTIONS = ["sampled speeds and steering angles are inside the vehicle's limits, as MPGParam.from_vehicle_parameters makes them; the state limits of a start state are the caller's",
               "combinations within 1e-9 of an acceleration or steering rate limit are not judged"]

STEPS = 6
Q = ["0.1", "0.05", "0.25", "0.5", "0.2", "1", "0.125", "0.033", "0.0625", "0.1234"]


@st.composite
def vehicles(draw):
    k = draw(st.sampled_from(["car", "truck", "bicycle", "own", "own"]))
    if k != "own":
        return dict(k=k)
    return dict(k=k, v=[draw(st.one_of(fl(-10, 0), st.just(0.0))), draw(fl(1, 40))], a=[draw(fl(-10, -0.5)), draw(fl(0.5, 10))], d=draw(fl(0.2, 1.2)), r=draw(fl(0.1, 2)),
                lf=draw(fl(0.5, 2.5)), lr=draw(fl(0.5, 2.5)))


def mk(v):
    if v["k"] != "own":
        return getattr(VehicleGeometry, "default_" + v["k"])(), getattr(VehicleParameters, "default_" + v["k"])()
    return replace(VehicleGeometry.default_car(), lf=v["lf"], lr=v["lr"]), VehicleParameters(vx_limits=tuple(v["v"]), acc_limits=tuple(v["a"]), delta_max=v["d"], ddelta_max=v["r"])


def grid(a, b, n):
    return [a + (b - a) * i / (n - 1) for i in range(n)] if n > 1 else [a]


def rk4(vg, s, acc, r, T, n=200):
    """Bicycle motion with constant acceleration and steering rate, without any saturation."""
    L = vg.lf + vg.lr

    def f(t, psi):
        v, d = s["vx"] + acc * t, s["delta"] + r * t
        w = v * math.tan(min(max(d, -1.4), 1.4)) / L  # (beyond, the tangent only amplifies rounding)
        return *refdyn.body_to_world(psi, v, w * vg.lr), w

    x, y, psi, h = s["x"], s["y"], s["psi"], T / n
    for i in range(n):
        t = i * h
        k1 = f(t, psi)
        k2 = f(t + h / 2, psi + h / 2 * k1[2])
        k3 = f(t + h / 2, psi + h / 2 * k2[2])
        k4 = f(t + h, psi + h * k3[2])
        x, y, psi = (z + h / 6 * (a + 2 * b + 2 * c + d) for z, a, b, c, d in zip((x, y, psi), k1, k2, k3, k4))
    return dict(x=x, y=y, psi=psi, vx=s["vx"] + acc * T, delta=s["delta"] + r * T)


class Model:
    """The vehicle dynamics handed to the generators: a simple exact-ish map which records its calls."""

    def __init__(self, vg):
        self.vg, self.calls = vg, []

    def __call__(self, x, u, dt):
        self.calls.append((x, u, dt))
        s = {k: getattr(x, k) for k in ("x", "y", "psi", "vx", "delta")}
        return VehicleState(**rk4(self.vg, s, u.acc, u.ddelta, float(dt), n=STEPS))


def sd(x):
    return {k: float(getattr(x, k)) for k in ("x", "y", "psi", "vx", "delta")}


def close_states(a, b, msg, tol=1e-9):
    for k in a:
        d = wrap(a[k] - b[k]) if k == "psi" else a[k] - b[k]
        ensure(abs(d) <= tol * (1 + abs(b[k])), f"{msg}: {k} {a[k]!r} instead of {b[k]!r}")


def frac_range(draw, n):
    a, b = sorted([draw(st.one_of(fl(0, 1), st.just(0.0))), draw(st.one_of(fl(0, 1), st.just(1.0)))])
    return [a, b, draw(st.integers(1, n))]


@st.composite
def cs_case(draw):
    return dict(v=draw(vehicles()), dt=draw(st.sampled_from(Q)), acc=frac_range(draw, 5), sr=frac_range(draw, 5), x0=draw(se2(big=True)), vx=draw(fl(0, 1)), delta=draw(fl(0, 1)),
                acc2=frac_range(draw, 4), sr2=frac_range(draw, 4))


def span(lim, f):
    return (*(min(max(lim[0] + (lim[1] - lim[0]) * q, lim[0]), lim[1]) if 0 < q < 1 else lim[int(q)] for q in f[:2]), f[2])


def start(c, vp):
    lo, hi = vp.vx_limits
    return VehicleState(x=c["x0"][0], y=c["x0"][1], psi=c["x0"][2], vx=lo + (hi - lo) * c["vx"], delta=(2 * c["delta"] - 1) * vp.delta_max)


def check_sampled(got, model, x0, accs, srs, dt, what):
    want = [(a, r) for a in accs for r in srs]
    calls = sorted((u.acc, u.ddelta) for _, u, _ in model.calls)
    ends = [VehicleState(**rk4(model.vg, sd(x0), a, r, float(dt), n=STEPS)) for a, r in want]
    distinct = []
    for e in ends:
        if not any(abs(e.vx - o.vx) < 1e-9 and abs(e.delta - o.delta) < 1e-9 for o in distinct):
            distinct.append(e)
    ensure(len(got) >= len(distinct), f"{what}: {len(got)} trajectories, the grid has {len(distinct)} distinct commands")
    ensure(len(got) <= len(want), f"{what}: {len(got)} trajectories, the grid has {len(want)} combinations")
    for a, r in calls:
        ensure(any(abs(a - w[0]) < 1e-9 and abs(r - w[1]) < 1e-9 for w in want), f"{what}: command {(a, r)} is not on the grid {want}")
    left = list(got)
    for t in left:
        ensure(type(t) is Trajectory, f"{what}: {type(t).__name__} instead of a Trajectory")
        ensure(list(t.timestamps) == [D(0), dt], f"{what}: timestamps {t.timestamps} instead of 0, {dt}")
        ensure(t.values[0] == x0, f"{what}: starts at {t.values[0]} instead of {x0}")
    for w, e in zip(want, ends):
        best = min(left, key=lambda t: abs(t.values[1].vx - e.vx) + abs(t.values[1].delta - e.delta) + abs(t.values[1].x - e.x))
        close_states(sd(best.values[1]), sd(e), f"{what}: trajectory of command {w}")


@subtest(P, cs_case, quick=600, need=("many", "reached"))
def commands_sampler_is_its_grid(c):
    vg, vp = mk(c["v"])
    dt = D(c["dt"])
    model = Model(vg)
    acc, sr = span(vp.acc_limits, c["acc"]), span((-vp.ddelta_max, vp.ddelta_max), c["sr"])
    s = CommandsSampler(CommandsSamplerParam(dt=dt, n_steps=1, acc=acc, steer_rate=sr), model, vp)
    x0 = start(c, vp)
    before = sd(x0)
    accs, srs = grid(*acc), grid(*sr)
    ga, gs = s.generate_samples()
    ensure(len(ga) == acc[2] and len(gs) == sr[2], f"{len(ga)} x {len(gs)} samples instead of {acc[2]} x {sr[2]}")
    for g, w in ((ga, accs), (gs, srs)):
        for a, b in zip(g, w):
            ensure_close(float(a), b, "sample", abs_tol=1e-9)
    got = s.generate(x0)
    ensure(sd(x0) == before, "the start state has been changed")
    check_sampled(got, model, x0, accs, srs, dt, "first")
    # new parameters, and back again: only the latest count
    acc2, sr2 = span(vp.acc_limits, c["acc2"]), span((-vp.ddelta_max, vp.ddelta_max), c["sr2"])
    model.calls.clear()
    s.update_params(CommandsSamplerParam(dt=2 * dt, n_steps=1, acc=acc2, steer_rate=sr2))
    check_sampled(s.generate(x0), model, x0, grid(*acc2), grid(*sr2), 2 * dt, "after update")
    # commands outside the limits are refused and change nothing
    m = 0.01
    def attempt(bad):
        s.update_params(CommandsSamplerParam(dt=dt, n_steps=1, acc=bad.get("acc", acc), steer_rate=bad.get("sr", sr)))

    for bad in (dict(acc=(acc[0], vp.acc_limits[1] + m, 3)), dict(acc=(vp.acc_limits[0] - m, acc[1], 3)), dict(sr=(sr[0], vp.ddelta_max + m, 2)),
                dict(sr=(-vp.ddelta_max - m, sr[1], 2))):
        ensure_raises(lambda: attempt(bad), AssertionError, msg="commands outside the limits accepted")
    model.calls.clear()
    check_sampled(s.generate(x0), model, x0, grid(*acc2), grid(*sr2), 2 * dt, "after refused update")
    return ["many" if len(got) > 4 else "few", "reached" if acc[1] == vp.acc_limits[1] or acc[0] == vp.acc_limits[0] else "inner"]


@st.composite
def full_case(draw):
    return dict(v=draw(vehicles()), dt=draw(st.sampled_from(Q)), n1=draw(st.integers(2, 6)), n2=draw(st.integers(2, 6)), ns=draw(st.integers(1, 4)), vx=draw(fl(0, 1)), delta=draw(fl(0, 1)), x0=draw(se2()))


@subtest(P, full_case, quick=400)
def from_vehicle_parameters_spans_the_limits(c):
    vg, vp = mk(c["v"])
    dt = D(c["dt"])
    p = CommandsSamplerParam.from_vehicle_parameters(dt, 1, c["n1"], c["n2"], vp)
    ensure(p.dt == dt and p.n_steps == 1, f"{p}")
    ensure(tuple(p.acc) == (*vp.acc_limits, c["n1"]), f"accelerations {p.acc} instead of {(*vp.acc_limits, c['n1'])}")
    ensure(tuple(p.steer_rate) == (-vp.ddelta_max, vp.ddelta_max, c["n2"]), f"steering rates {p.steer_rate} instead of +-{vp.ddelta_max} in {c['n2']}")
    model = Model(vg)
    s = CommandsSampler(p, model, vp)
    x0 = start(c, vp)
    got = s.generate(x0)
    check_sampled(got, model, x0, grid(*p.acc), grid(*p.steer_rate), dt, "full")
    dv = [(float(t.values[-1].vx) - x0.vx) / float(dt) for t in got]
    ensure_close(min(dv), vp.acc_limits[0], "strongest braking", abs_tol=1e-6)
    ensure_close(max(dv), vp.acc_limits[1], "strongest acceleration", abs_tol=1e-6)
    m = MPGParam.from_vehicle_parameters(dt, c["ns"], c["n1"], c["n2"], vp)
    ensure(m.dt == dt and m.n_steps == c["ns"], f"{m}")
    ensure(tuple(m.velocity) == (*vp.vx_limits, c["n1"]), f"velocities {m.velocity} instead of {(*vp.vx_limits, c['n1'])}")
    ensure(tuple(m.steering) == (-vp.delta_max, vp.delta_max, c["n2"]), f"steering {m.steering} instead of +-{vp.delta_max} in {c['n2']}")
    return "full"


@st.composite
def mpg_case(draw):
    return dict(v=draw(vehicles()), dt=draw(st.sampled_from(Q)), ns=draw(st.integers(1, 5)), vel=frac_range(draw, 5), st=frac_range(draw, 4), x0=draw(se2(big=True)),
                vx=draw(fl(0, 1)), delta=draw(fl(0, 1)), iv=draw(st.integers(0, 4)), id=draw(st.integers(0, 3)), zoom=draw(st.sampled_from([1.0, 0.3, 0.1])))


def near(a, b):
    return abs(a - b) < 1e-9 * (1 + abs(b))


def feasible(vp, v0, d0, v1, d1, T):
    """True, False or None (too close to call)"""
    a, r = (v1 - v0) / T, (d1 - d0) / T
    if near(a, vp.acc_limits[0]) or near(a, vp.acc_limits[1]) or near(abs(r), vp.ddelta_max):
        return None
    return vp.acc_limits[0] < a < vp.acc_limits[1] and abs(r) < vp.ddelta_max


def check_primitives(got, vg, vp, starts, vs, ds, dt, ns, base, what):
    """Every primitive is the motion under constant commands between two samples; every feasible pair is there, no other."""
    T = float(dt) * ns
    combos = {(i, j, k, l): feasible(vp, v0, d0, v1, d1, T)
              for i, v0 in enumerate(starts[0]) for j, d0 in enumerate(starts[1]) for k, v1 in enumerate(vs) for l, d1 in enumerate(ds)}
    seen = set()
    for t in got:
        ensure(type(t) is Trajectory, f"{what}: {type(t).__name__} instead of a Trajectory")
        ensure(list(t.timestamps) == [i * dt for i in range(ns + 1)], f"{what}: timestamps {t.timestamps} instead of {ns} steps of {dt}")
        s0, s1 = sd(t.values[0]), sd(t.values[-1])
        ensure(all(s0[k] == base[k] for k in ("x", "y", "psi")), f"{what}: starts at {s0} instead of {base}")
        idx = []
        for val, pool in ((s0["vx"], starts[0]), (s0["delta"], starts[1]), (s1["vx"], vs), (s1["delta"], ds)):
            i = min(range(len(pool)), key=lambda q: abs(pool[q] - val))
            ensure(near(val, pool[i]), f"{what}: {val} of a primitive from {s0} to {s1} is not one of the samples {pool}")
            idx.append(i)
        ensure(combos[tuple(idx)] is not False, f"{what}: from {s0} to {s1} in {T} s exceeds the limits {vp}")
        seen.add(tuple(idx))
        a, r = (s1["vx"] - s0["vx"]) / T, (s1["delta"] - s0["delta"]) / T
        for i, x in enumerate(t.values):
            close_states(sd(x), rk4(vg, s0, a, r, float(dt) * i, n=STEPS * i) if i else s0, f"{what}: state {i} under constant commands", 1e-7)
    if len(set(map(lambda q: round(q, 9), vs))) == len(vs) and len(set(map(lambda q: round(q, 9), ds))) == len(ds):
        for k, ok in combos.items():
            ensure(not ok or k in seen, f"{what}: no primitive from v={starts[0][k[0]]}, delta={starts[1][k[1]]} to v={vs[k[2]]}, delta={ds[k[3]]} in {T} s")
        ensure(len(got) == len(seen), f"{what}: {len(got)} primitives for {len(seen)} combinations")
    return combos


@subtest(P, mpg_case, quick=480, need=("feasible",))
def primitives_are_exactly_the_feasible_ones(c):
    vg, vp = mk(c["v"])
    dt, ns = D(c["dt"]), c["ns"]
    T = float(dt) * ns
    # zoom in on ranges which are reachable in the duration at hand
    vlim = (vp.vx_limits[0], vp.vx_limits[0] + (vp.vx_limits[1] - vp.vx_limits[0]) * c["zoom"])
    vel, ste = span(vlim, c["vel"]), span((-vp.delta_max * c["zoom"], vp.delta_max * c["zoom"]), c["st"])
    vs, ds = grid(*vel), grid(*ste)
    model = Model(vg)
    g = MotionPrimitivesGenerator(MPGParam(dt=dt, n_steps=ns, velocity=vel, steering=ste), model, vp)
    lib = g.generate()
    combos = check_primitives(lib, vg, vp, (vs, ds), vs, ds, dt, ns, dict(x=0, y=0, psi=0), "library")
    for t in lib:
        for x in t.values:
            ensure(vp.vx_limits[0] - 1e-9 <= x.vx <= vp.vx_limits[1] + 1e-9 and abs(x.delta) <= vp.delta_max + 1e-9, f"{x} outside the limits of the vehicle")
    for _, u, _ in model.calls:
        ensure(vp.acc_limits[0] <= u.acc <= vp.acc_limits[1] and abs(u.ddelta) <= vp.ddelta_max, f"command {u} outside the limits of the vehicle")
    # from a particular state, not on the grid
    x0 = start(c, vp)
    before = sd(x0)
    own = g.generate(x0)
    ensure(sd(x0) == before, "the start state has been changed")
    check_primitives(own, vg, vp, ([x0.vx], [x0.delta]), vs, ds, dt, ns, before, "from state")
    # from a state on the grid: the matching part of the library, moved there
    ga, gs = g.generate_samples()
    v0, d0 = float(ga[c["iv"] % len(ga)]), float(gs[c["id"] % len(gs)])
    x1 = VehicleState(x=c["x0"][0], y=c["x0"][1], psi=c["x0"][2], vx=v0, delta=d0)
    there = g.generate(x1)
    part = [t for t in lib if t.values[0].vx == v0 and t.values[0].delta == d0]
    ensure(len(there) == len(part), f"{len(there)} primitives from {x1}, but {len(part)} of the library start like this")
    co, si = math.cos(x1.psi), math.sin(x1.psi)
    for t in part:
        e = t.values[-1]
        m = min(there, key=lambda q: abs(q.values[-1].vx - e.vx) + abs(q.values[-1].delta - e.delta))
        for a, b in zip(t.values, m.values):
            close_states(sd(b), dict(x=x1.x + co * a.x - si * a.y, y=x1.y + si * a.x + co * a.y, psi=x1.psi + a.psi, vx=a.vx, delta=a.delta), "moved library", 1e-7)
    # generating does not depend on what was generated before
    ensure(g.generate() == lib, "the library differs the second time")
    n = sum(v is True for v in combos.values())
    return "feasible" if 0 < n < len(combos) else "all or none"


@st.composite
def dyn_case(draw):
    return dict(v=draw(vehicles()), x0=draw(se2(big=True, span=5)), vx=draw(fl(0, 1)), delta=draw(fl(0, 1)), acc=draw(fl(-1.5, 1.5)), r=draw(fl(-1.5, 1.5)), dt=draw(fl(0.01, 1)),
                dec=draw(st.booleans()))


@subtest(P, dyn_case, quick=1500, need=("saturated", "inside"))
def bicycle_dynamics_integrates_its_equations(c):
    vg, vp = mk(c["v"])
    b = BicycleDynamics(vg, vp)
    x0 = start(c, vp)
    before = sd(x0)
    u = VehicleCommands(acc=c["acc"] * vp.acc_limits[1], ddelta=c["r"] * vp.ddelta_max)
    rate = sd(b.dynamics(x0, u))
    L = vg.lf + vg.lr
    w = x0.vx * math.tan(x0.delta) / L
    dx, dy = refdyn.body_to_world(x0.psi, x0.vx, w * vg.lr)
    for k, v in dict(x=dx, y=dy, psi=w, vx=u.acc, delta=u.ddelta).items():
        ensure_close(rate[k], v, f"rate of {k}", abs_tol=1e-9, rel_tol=1e-9)
    dt = D(c["dt"]) if c["dec"] else c["dt"]
    # one Euler step with saturated commands and states
    acc, r = refdyn.clip(u.acc, *vp.acc_limits), refdyn.clip(u.ddelta, -vp.ddelta_max, vp.ddelta_max)
    h = c["dt"]
    want = dict(x=x0.x + h * dx, y=x0.y + h * dy, psi=x0.psi + h * w, vx=refdyn.clip(x0.vx + h * acc, *vp.vx_limits), delta=refdyn.clip(x0.delta + h * r, -vp.delta_max, vp.delta_max))
    close_states(sd(b.successor(x0, u, dt)), want, "Euler step")
    ensure(sd(x0) == before, "the start state has been changed")
    # the accurate integration, while the steering stays inside its range
    d1 = x0.delta + h * u.ddelta
    lab = "inside" if want["vx"] == x0.vx + h * acc and want["delta"] == x0.delta + h * r and acc == u.acc and r == u.ddelta else "saturated"
    if abs(d1) < 1.25 and abs(x0.delta) < 1.25:
        got = sd(b.successor_ivp(x0, u, dt))
        ref = rk4(vg, before, u.acc, u.ddelta, h)
        travelled = h * (abs(x0.vx) + abs(u.acc) * h)
        for k in ref:
            tol = 1e-9 if k in ("vx", "delta") else 0.01 * (1 + travelled + abs(ref[k]) * (k != "psi") + abs(ref["psi"] - before["psi"]))
            ensure(abs(got[k] - ref[k]) <= tol * (1 + abs(ref[k]) * (k == "psi")), f"integrated {k}: {got[k]!r} instead of {ref[k]!r} (tolerance {tol:.2g})")
        ensure(sd(x0) == before, "the start state has been changed")
    return lab
