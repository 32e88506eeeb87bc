"""Independent statement of the equations of motion, written component by component in plain floats.

Each function returns the derivative of the state (dict) for a state (dict), command (dict), geometry, parameters.
"""
from __future__ import annotations

import math

import numpy as np

from dg_commons.sim.models.model_structures import CAR

from .zoo import COMMANDS, STATES

GRAV, RHO = 9.81, 1.249512


def clip(v, lo, hi):
    return lo if v < lo else hi if v > hi else v


def sat_rate(value, rate, lo, hi):
    """No further motion beyond a bound that has been reached."""
    if value <= lo and rate < 0 or value >= hi and rate > 0:
        return 0.0
    return rate


def body_to_world(psi, vx, vy):
    return vx * math.cos(psi) - vy * math.sin(psi), vx * math.sin(psi) + vy * math.cos(psi)


def vehicle(s, u, g, p):
    yaw = s["vx"] / (g.lf + g.lr) * math.tan(s["delta"])
    dx, dy = body_to_world(s["psi"], s["vx"], yaw * g.lr)
    return dict(x=dx, y=dy, psi=yaw, vx=sat_rate(s["vx"], clip(u["acc"], *p.acc_limits), *p.vx_limits),
                delta=sat_rate(s["delta"], clip(u["ddelta"], -p.ddelta_max, p.ddelta_max), -p.delta_max, p.delta_max))


def pacejka(tyre, slip):
    e = getattr(tyre, "E", None)
    b = tyre.B * slip
    arg = b if e is None else b - e * (b - math.atan(b))
    return tyre.D * math.sin(tyre.C * math.atan(arg))


def vehicle_dyn(s, u, g, p, tyres):
    if s["vx"] < 0.1:
        return {**vehicle(s, u, g, p), "vy": 0.0, "dpsi": 0.0}
    L = g.lf + g.lr
    acc = sat_rate(s["vx"], clip(u["acc"], *p.acc_limits), *p.vx_limits)
    # normal loads (positive here), with longitudinal load transfer
    Nf = g.m * (GRAV * g.lr - g.h_cog * acc) / L
    Nr = g.m * (GRAV * g.lf + g.h_cog * acc) / L
    split = (0.6, 0.4) if acc <= 0 else (0.5, 0.5)
    Xf = split[0] * g.m * acc - g.c_rr_f * Nf
    Xr = split[1] * g.m * acc - g.c_rr_r * Nr
    d = s["delta"]
    wf = s["vy"] + g.lf * s["dpsi"]
    tvx, tvy = math.cos(d) * s["vx"] + math.sin(d) * wf, -math.sin(d) * s["vx"] + math.cos(d) * wf
    mu_f = -pacejka(tyres[0], math.atan(tvy / tvx))
    mu_r = -pacejka(tyres[1], math.atan((s["vy"] - g.lr * s["dpsi"]) / s["vx"]))
    Yf, Yr = mu_f * Nf, mu_r * Nr
    Xf *= math.sqrt(max(0.0, 1 - (mu_f / tyres[0].D) ** 2))
    Xr *= math.sqrt(max(0.0, 1 - (mu_r / tyres[1].D) ** 2))
    Fx, Fy = math.cos(d) * Xf - math.sin(d) * Yf, math.sin(d) * Xf + math.cos(d) * Yf
    drag = 0.5 * RHO * g.c_drag * g.a_drag * s["vx"] ** 2
    dx, dy = body_to_world(s["psi"], s["vx"], s["vy"])
    return dict(x=dx, y=dy, psi=s["dpsi"], vx=(Fx + Xr - drag) / g.m + s["dpsi"] * s["vy"], vy=(Fy + Yr) / g.m - s["dpsi"] * s["vx"],
                dpsi=(Fy * g.lf - Yr * g.lr) / g.Iz, delta=sat_rate(d, clip(u["ddelta"], -p.ddelta_max, p.ddelta_max), -p.delta_max, p.delta_max))


def pedestrian(s, u, g, p):
    dx, dy = body_to_world(s["psi"], s["vx"], s["vy"])
    return dict(x=dx, y=dy, psi=clip(u["dpsi"], -p.dtheta_max, p.dtheta_max), vx=sat_rate(s["vx"], clip(u["acc"], *p.acc_limits), *p.vx_limits), vy=0.0, dpsi=0.0)


def diff_drive(s, u, g, p):
    vl, vr = (clip(u[k], *p.omega_limits) * g.wheelradius for k in ("omega_l", "omega_r"))
    v = (vl + vr) / 2
    return dict(x=v * math.cos(s["psi"]), y=v * math.sin(s["psi"]), psi=(vr - vl) / g.wheelbase)


def spacecraft(s, u, g, p):
    l, r = clip(u["acc_left"], *p.acc_limits), clip(u["acc_right"], *p.acc_limits)
    dx, dy = body_to_world(s["psi"], s["vx"], s["vy"])
    return dict(x=dx, y=dy, psi=s["dpsi"], vx=l + r + s["vy"] * s["dpsi"], vy=-s["vx"] * s["dpsi"],
                dpsi=sat_rate(s["dpsi"], (r - l) * g.w_half * g.m / g.Iz, *p.dpsi_limits))


def spaceship(s, u, g, p):
    T = clip(u["thrust"], *p.thrust_limits) if s["m"] > p.m_v else 0.0
    dx, dy = body_to_world(s["psi"], s["vx"], s["vy"])
    return dict(x=dx, y=dy, psi=s["dpsi"], vx=T * math.cos(s["delta"]) / s["m"] + s["dpsi"] * s["vy"],
                vy=T * math.sin(s["delta"]) / s["m"] - s["dpsi"] * s["vx"], dpsi=-T * math.sin(s["delta"]) * g.l_r / g.Iz,
                delta=sat_rate(s["delta"], clip(u["ddelta"], *p.ddelta_limits), *p.delta_limits), m=-p.C_T * T)


def rocket(s, u, g, p):
    fuel = s["m"] > p.m_v
    L, R = (clip(u[k], *p.F_limits) if fuel else 0.0 for k in ("F_left", "F_right"))
    a = s["psi"] + s["phi"]
    b = s["phi"] - s["psi"]
    return dict(x=s["vx"], y=s["vy"], psi=s["dpsi"], vx=(math.sin(a) * L + math.sin(b) * R) / s["m"], vy=(math.cos(b) * R - math.cos(a) * L) / s["m"],
                dpsi=g.l_m * math.cos(s["phi"]) * (R - L) / g.Iz, phi=sat_rate(s["phi"], clip(u["dphi"], *p.ddelta_limits), *p.delta_limits), m=-p.C_T * (L + R))


def dyn_obstacle(s, u, g, p):
    dx, dy = body_to_world(s["psi"], s["vx"], s["vy"])
    ax = clip(u["acc_x"] + s["dpsi"] * s["vy"], *p.acc_limits)
    ay = clip(u["acc_y"] - s["dpsi"] * s["vx"], *p.acc_limits)
    return dict(x=dx, y=dy, psi=s["dpsi"], vx=sat_rate(s["vx"], ax, *p.vx_limits), vy=sat_rate(s["vy"], ay, *p.vx_limits),
                dpsi=sat_rate(s["dpsi"], clip(u["acc_psi"], *p.ddpsi_limits), *p.dpsi_limits))


def deriv(model, fam, s, u) -> dict:
    g, p = model.model_geometry, model.model_params
    if fam == "vehicle_dyn":
        return vehicle_dyn(s, u, g, p, (model.pacejka_front, model.pacejka_rear))
    return globals()[fam](s, u, g, p)


def zero_cmd(fam):
    return {k: 0.0 for k in COMMANDS[fam][1]}


def integrate(model, fam, s: dict, u: dict, dt: float, n=None) -> dict:
    """Classical Runge-Kutta with many fixed steps: its cost does not depend on how smooth the right-hand side is."""
    names = STATES[fam][1]
    n = n or (200 if fam == "vehicle_dyn" else 40)
    h = dt / n

    def f(y):
        d = deriv(model, fam, dict(zip(names, y)), u)
        return np.array([d[k] for k in names])

    y = np.array([float(s[k]) for k in names])
    for _ in range(n):
        k1 = f(y)
        k2 = f(y + h / 2 * k1)
        k3 = f(y + h / 2 * k2)
        k4 = f(y + h * k3)
        y = y + h / 6 * (k1 + 2 * k2 + 2 * k3 + k4)
    return dict(zip(names, (float(v) for v in y)))


def integrate_adaptive(model, fam, s: dict, u: dict, dt: float, carry: bool = False) -> dict:
    """A default (loose) adaptive integration of the reference equations, to know which accuracy such a scheme has here.
    With `carry` the (constant) commands are part of the integrated vector, which changes the step sizes."""
    from scipy.integrate import solve_ivp

    names = STATES[fam][1]

    def f(t, y):
        d = deriv(model, fam, dict(zip(names, y)), u)
        return [d[k] for k in names] + [0.0] * (len(y) - len(names))

    r = solve_ivp(f, (0.0, dt), [s[k] for k in names] + ([float(v) for v in u.values()] if carry else []))
    return dict(zip(names, (float(v) for v in r.y[:, -1])))
