"""The model families of the package: how to build states, commands, geometries, parameters and models from plain data."""
from __future__ import annotations

import math
from dataclasses import fields, replace

import numpy as np
from hypothesis import strategies as st
from shapely.geometry import Polygon

from dg_commons.sim.models.diff_drive import DiffDriveCommands, DiffDriveModel, DiffDriveState
from dg_commons.sim.models.diff_drive_structures import DiffDriveGeometry, DiffDriveParameters
from dg_commons.sim.models.model_structures import BICYCLE, CAR, TRUCK
from dg_commons.sim.models.obstacles import DynObstacleParameters, ObstacleGeometry
from dg_commons.sim.models.obstacles_dyn import DynObstacleCommands, DynObstacleModel, DynObstacleState
from dg_commons.sim.models.pedestrian import PedestrianCommands, PedestrianGeometry, PedestrianModel, PedestrianState
from dg_commons.sim.models.pedestrian_utils import PedestrianParameters
from dg_commons.sim.models.rocket import RocketCommands, RocketModel, RocketState
from dg_commons.sim.models.rocket_structures import RocketGeometry, RocketParameters
from dg_commons.sim.models.spacecraft import SpacecraftCommands, SpacecraftModel, SpacecraftState
from dg_commons.sim.models.spacecraft_structures import SpacecraftGeometry, SpacecraftParameters
from dg_commons.sim.models.spaceship import SpaceshipCommands, SpaceshipModel, SpaceshipState
from dg_commons.sim.models.spaceship_structures import SpaceshipGeometry, SpaceshipParameters
from dg_commons.sim.models.vehicle import VehicleCommands, VehicleModel, VehicleState
from dg_commons.sim.models.vehicle_dynamic import VehicleModelDyn, VehicleStateDyn
from dg_commons.sim.models.vehicle_structures import VehicleGeometry
from dg_commons.sim.models.vehicle_utils import VehicleParameters
from .gens import ANGLE, BIG_ANGLE, fl, nice

# field order as documented by the index of each type
STATES = {
    "vehicle": (VehicleState, ["x", "y", "psi", "vx", "delta"]),
    "vehicle_dyn": (VehicleStateDyn, ["x", "y", "psi", "vx", "vy", "dpsi", "delta"]),
    "pedestrian": (PedestrianState, ["x", "y", "psi", "vx", "vy", "dpsi"]),
    "diff_drive": (DiffDriveState, ["x", "y", "psi"]),
    "spacecraft": (SpacecraftState, ["x", "y", "psi", "vx", "vy", "dpsi"]),
    "spaceship": (SpaceshipState, ["x", "y", "psi", "vx", "vy", "dpsi", "delta", "m"]),
    "rocket": (RocketState, ["x", "y", "psi", "vx", "vy", "dpsi", "phi", "m"]),
    "dyn_obstacle": (DynObstacleState, ["x", "y", "psi", "vx", "vy", "dpsi"]),
}
COMMANDS = {
    "vehicle": (VehicleCommands, ["acc", "ddelta"]),
    "vehicle_dyn": (VehicleCommands, ["acc", "ddelta"]),
    "pedestrian": (PedestrianCommands, ["acc", "dpsi"]),
    "diff_drive": (DiffDriveCommands, ["omega_l", "omega_r"]),
    "spacecraft": (SpacecraftCommands, ["acc_left", "acc_right"]),
    "spaceship": (SpaceshipCommands, ["thrust", "ddelta"]),
    "rocket": (RocketCommands, ["F_left", "F_right", "dphi"]),
    "dyn_obstacle": (DynObstacleCommands, ["acc_x", "acc_y", "acc_psi"]),
}
FAMILIES = list(STATES)
VEH = ("car", "truck", "bicycle")


def mk_state(fam, vals: dict):
    return STATES[fam][0](**vals)


def mk_cmd(fam, vals: dict):
    return COMMANDS[fam][0](**vals)


def sdict(fam, state) -> dict:
    return {k: float(getattr(state, k)) for k in STATES[fam][1]}


def svec(fam, state) -> np.ndarray:
    return np.array([float(getattr(state, k)) for k in STATES[fam][1]])


def cvec(fam, cmd) -> np.ndarray:
    return np.array([float(getattr(cmd, k)) for k in COMMANDS[fam][1]])


def mk_params(fam, kind, p):
    """p: None (defaults) or dict of overrides in plain data."""
    p = {k: tuple(v) if isinstance(v, list) else v for k, v in (p or {}).items()}
    if fam in ("vehicle", "vehicle_dyn"):
        d = getattr(VehicleParameters, f"default_{kind}")()
        return VehicleParameters(**{**{f.name: getattr(d, f.name) for f in fields(d)}, **p})
    cls = {
        "pedestrian": PedestrianParameters, "diff_drive": DiffDriveParameters, "spacecraft": SpacecraftParameters,
        "spaceship": SpaceshipParameters, "rocket": RocketParameters,
    }.get(fam)
    if fam == "dyn_obstacle":
        base = dict(vx_limits=(-5, 10), acc_limits=(-4, 4), dpsi_limits=(-2, 2), ddpsi_limits=(-1, 1))
        return DynObstacleParameters(**{**base, **p})
    d = cls.default()
    return cls(**{**{f.name: getattr(d, f.name) for f in fields(d)}, **p})


DYN_SHAPE = [[-1.5, -0.7], [1.2, -0.9], [1.9, 0.2], [0.8, 1.1], [-1.4, 0.8]]


def mk_geometry(fam, kind, g):
    g = dict(g or {})
    if "e" in g:
        e = g.pop("e")
        return replace(mk_geometry(fam, kind, g), e=e)
    if fam in ("vehicle", "vehicle_dyn"):
        phys = {k: g.pop(k) for k in ("c_drag", "a_drag", "c_rr_f", "c_rr_r", "h_cog") if k in g}
        return replace(getattr(VehicleGeometry, f"default_{kind}")(**g), **phys)
    if fam == "pedestrian":
        d = dict(m=75, Iz=50, e=0.35, color="pink")
        return PedestrianGeometry(**{**d, **g})
    if fam == "dyn_obstacle":
        g.pop("shape", None), g.pop("holes", None)
        return ObstacleGeometry(**{**dict(m=400.0, Iz=300.0, e=0.3), **g})
    cls = {"diff_drive": DiffDriveGeometry, "spacecraft": SpacecraftGeometry, "spaceship": SpaceshipGeometry, "rocket": RocketGeometry}[fam]
    return cls.default(**g)


def mk_model(c: dict):
    """c: {"fam","kind","x":{..},"p":{..}|None,"g":{..}|None}"""
    fam, kind = c["fam"], c.get("kind")
    x0 = mk_state(fam, c["x"])
    g, p = mk_geometry(fam, kind, c.get("g")), mk_params(fam, kind, c.get("p"))
    if fam == "vehicle":
        return VehicleModel(x0=x0, vg=g, vp=p)
    if fam == "vehicle_dyn":
        d = getattr(VehicleModelDyn, f"default_{kind}")(VehicleStateDyn(0, 0, 0, 0, 0))
        return VehicleModelDyn(x0=x0, vg=g, vp=p, pacejka_front=d.pacejka_front, pacejka_rear=d.pacejka_rear)
    if fam == "pedestrian":
        return PedestrianModel(x0=x0, pg=g, pp=p)
    if fam == "diff_drive":
        return DiffDriveModel(x0=x0, vg=g, vp=p)
    if fam == "spacecraft":
        return SpacecraftModel(x0=x0, sg=g, sp=p)
    if fam == "spaceship":
        return SpaceshipModel(x0=x0, rg=g, sp=p)
    if fam == "rocket":
        return RocketModel(x0=x0, rg=g, rp=p)
    if fam == "dyn_obstacle":
        body = c.get("g") or {}
        return DynObstacleModel(x0=x0, shape=Polygon(body.get("shape") or DYN_SHAPE, body.get("holes") or []), og=g, op=p)
    raise ValueError(fam)


# ---------------------------------------------------------------------------------------------------- generators
@st.composite
def geometry_of(draw, fam, kind):
    """Overrides for the geometry (None = defaults)."""
    if draw(st.booleans()):
        return None
    m = draw(st.sampled_from([0.5, 1.0, 2.0]))
    if fam in ("vehicle", "vehicle_dyn"):
        base = dict(car=(1300.0, 1600.0, 0.8, 1.2), truck=(8000.0, 6300.0, 1.2, 4.0), bicycle=(85.0, 90.0, 0.25, 1.0))[kind]
        phys = dict(c_drag=draw(fl(0.05, 0.9)), a_drag=draw(fl(0.2, 6.0)), c_rr_f=draw(fl(0.0, 0.03)), c_rr_r=draw(fl(0.0, 0.03)), h_cog=draw(fl(0.2, 0.7))) if draw(st.booleans()) else {}
        return dict(m=base[0] * m, Iz=base[1] * draw(st.sampled_from([0.5, 1.0, 3.0])), w_half=base[2] * draw(fl(0.8, 1.5)),
                    lf=base[3] * draw(fl(0.7, 1.4)), lr=base[3] * draw(fl(0.7, 1.4)), **phys)
    if fam == "pedestrian":
        return dict(m=75 * m, Iz=50 * m)
    if fam == "diff_drive":
        return dict(m=3 * m, Iz=5 * m, wheelbase=draw(fl(0.4, 2.0)), wheelradius=draw(fl(0.05, 0.5)), radius=draw(fl(0.3, 1.5)))
    if fam == "spacecraft":
        lf = draw(fl(0.8, 2.0))
        return dict(m=50 * m, Iz=100 * draw(fl(0.5, 2)), w_half=draw(fl(0.5, 1.5)), lf=lf, lr=lf + draw(fl(0.3, 2.0)))
    if fam == "spaceship":
        return dict(m=2.0, Iz=draw(fl(0.3, 3.0)), w_half=draw(fl(0.2, 0.8)), l_c=draw(fl(0.3, 1.0)), l_f=draw(fl(0.3, 1.0)), l_r=draw(fl(0.3, 2.0)))
    if fam == "rocket":
        return dict(m=2.0, Iz=draw(fl(0.3, 3.0)), w_half=draw(fl(0.1, 0.5)), l_c=draw(fl(0.2, 0.6)), l_f=draw(fl(0.05, 0.5)), l_m=draw(fl(0.1, 0.6)), l_r=draw(fl(0.1, 0.6)))
    return dict(m=400 * m, Iz=300 * m, shape=draw(st.sampled_from([DYN_SHAPE, [[-1, -1], [1, -1], [1, 1], [-1, 1]], [[-2, -1], [2, 0], [-2, 1]], [[-2, -1.5], [2, 0], [-2, 1.5], [-1, 0]]])))


@st.composite
def params_of(draw, fam, kind):
    """Overrides for the parameters (None = defaults)."""
    if draw(st.booleans()):
        return None
    lim = lambda lo, hi: [-draw(fl(*lo)), draw(fl(*hi))]  # noqa: E731
    if fam in ("vehicle", "vehicle_dyn"):
        return dict(vx_limits=lim((0.5, 10), (5, 40)), acc_limits=lim((1, 9), (1, 6)), delta_max=draw(fl(0.2, 1.1)), ddelta_max=draw(fl(0.1, 1.5)))
    if fam == "pedestrian":
        return dict(vx_limits=lim((0.5, 3), (1, 8)), acc_limits=lim((1, 5), (1, 6)), dtheta_max=draw(fl(0.3, 6)))
    if fam == "diff_drive":
        return dict(omega_limits=lim((1, 10), (1, 10)))
    if fam == "spacecraft":
        return dict(acc_limits=lim((1, 12), (1, 12)), dpsi_limits=lim((0.5, 7), (0.5, 7)), vx_limits=lim((5, 20), (5, 20)))
    if fam == "spaceship":
        return dict(thrust_limits=lim((0.5, 3), (0.5, 3)), delta_limits=lim((0.2, 1.2), (0.2, 1.2)), ddelta_limits=lim((0.2, 1.2), (0.2, 1.2)), C_T=draw(fl(0.005, 0.5)), m_v=draw(fl(1.0, 2.0)))
    if fam == "rocket":
        return dict(F_limits=[0.0, draw(fl(0.5, 4))], delta_limits=lim((0.2, 1.2), (0.2, 1.2)), ddelta_limits=lim((0.1, 1.0), (0.1, 1.0)), C_T=draw(fl(0.005, 0.5)), m_v=draw(fl(1.0, 2.0)))
    return dict(vx_limits=lim((2, 8), (2, 15)), acc_limits=lim((2, 8), (2, 8)), dpsi_limits=lim((0.5, 3), (0.5, 3)), ddpsi_limits=lim((0.5, 3), (0.5, 3)))


@st.composite
def state_of(draw, fam, p, span=60.0, moving=True):
    """An admissible state for the parameters `p` (object)."""
    x = dict(x=draw(nice(-span, span)), y=draw(nice(-span, span)), psi=draw(BIG_ANGLE))
    if fam in ("vehicle", "vehicle_dyn"):
        x["vx"] = draw(st.one_of(nice(*p.vx_limits), st.just(0.0)))
        x["delta"] = draw(nice(-p.delta_max, p.delta_max))
        if fam == "vehicle_dyn":
            small = abs(x["vx"])
            x["vy"] = draw(st.one_of(st.just(0.0), fl(-0.3 * small, 0.3 * small)))
            x["dpsi"] = draw(st.one_of(st.just(0.0), fl(-0.8, 0.8)))
    elif fam == "pedestrian":
        x.update(vx=draw(nice(*p.vx_limits)), vy=draw(st.one_of(st.just(0.0), fl(-2, 2))), dpsi=draw(st.one_of(st.just(0.0), fl(-1, 1))))
    elif fam in ("spacecraft", "dyn_obstacle"):
        x.update(vx=draw(nice(*p.vx_limits)), vy=draw(nice(*p.vx_limits)), dpsi=draw(nice(*p.dpsi_limits)))
    elif fam in ("spaceship", "rocket"):
        x.update(vx=draw(fl(-3, 3)), vy=draw(fl(-3, 3)), dpsi=draw(fl(-1.5, 1.5)))
        x["delta" if fam == "spaceship" else "phi"] = draw(nice(*p.delta_limits))
        x["m"] = draw(st.one_of(fl(p.m_v, p.m_v + 3), st.just(float(p.m_v)), fl(p.m_v, p.m_v + 0.02)))
    return x


def cmd_limits(fam, p):
    if fam in ("vehicle", "vehicle_dyn"):
        return dict(acc=p.acc_limits, ddelta=(-p.ddelta_max, p.ddelta_max))
    if fam == "pedestrian":
        return dict(acc=p.acc_limits, dpsi=(-p.dtheta_max, p.dtheta_max))
    if fam == "diff_drive":
        return dict(omega_l=p.omega_limits, omega_r=p.omega_limits)
    if fam == "spacecraft":
        return dict(acc_left=p.acc_limits, acc_right=p.acc_limits)
    if fam == "spaceship":
        return dict(thrust=p.thrust_limits, ddelta=p.ddelta_limits)
    if fam == "rocket":
        return dict(F_left=p.F_limits, F_right=p.F_limits, dphi=p.ddelta_limits)
    return dict(acc_x=p.acc_limits, acc_y=p.acc_limits, acc_psi=p.ddpsi_limits)


@st.composite
def cmd_of(draw, fam, p, over=1.0):
    """Commands; `over` > 1 also produces values beyond the limits."""
    c = {}
    for k, (lo, hi) in cmd_limits(fam, p).items():
        lo, hi = float(lo), float(hi)
        tiny = [v for v in (1e-4, -1e-4, 8e-4, -8e-4) if lo <= v <= hi]  # commands which are small but act all the same
        inside = st.one_of(nice(lo, hi), nice(lo, hi), nice(lo, hi), st.sampled_from(tiny))
        edge = st.sampled_from([0.0, 1e3, -1e3, lo, hi, lo - 5e-3, hi + 5e-3, lo * 1.02 - 1e-3, hi * 1.02 + 1e-3])  # also just beyond
        c[k] = draw(inside if over <= 1 else st.one_of(inside, fl(lo * over - 1, hi * over + 1), edge))
    return c


@st.composite
def model_case(draw, fams=tuple(FAMILIES), span=60.0):
    fam = draw(st.sampled_from(list(fams)))
    kind = draw(st.sampled_from(VEH)) if fam in ("vehicle", "vehicle_dyn") else None
    p = draw(params_of(fam, kind))
    g = draw(geometry_of(fam, kind))
    x = draw(state_of(fam, mk_params(fam, kind, p), span))
    return dict(fam=fam, kind=kind, p=p, g=g, x=x)


@st.composite
def model_cmd_case(draw, fams=tuple(FAMILIES), span=60.0, over=1.0, dts=(0.01, 0.02, 0.05, 0.1, 0.2)):
    c = draw(model_case(fams, span))
    c["u"] = draw(cmd_of(c["fam"], mk_params(c["fam"], c["kind"], c["p"]), over))
    c["dt"] = draw(st.sampled_from(list(dts)))
    return c
