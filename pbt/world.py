"""Small random worlds for the simulator: players with a model, scripted/feedback spy agents, missions and static obstacles."""
from __future__ import annotations

import copy
import math
from dataclasses import dataclass
from decimal import Decimal as D

import numpy as np
from hypothesis import strategies as st
from shapely.geometry import LineString, Point, Polygon

from dg_commons import SE2Transform
from dg_commons.sim.agents.agent import Agent
from dg_commons.sim.goals import PlanningGoal, PolygonGoal, PoseGoal
from dg_commons.sim.models.obstacles import StaticObstacle
from dg_commons.sim.scenarios.structures import DgScenario
from dg_commons.sim.sim_perception import ObsFilter
from dg_commons.sim.simulator import SimContext, Simulator
from dg_commons.sim.simulator_structures import SimParameters
from .gens import ANGLE, fl
from .zoo import COMMANDS, STATES, cmd_limits, mk_cmd, mk_geometry, mk_model, mk_params, mk_state, sdict, state_of

SIM_FAMS = ("vehicle", "pedestrian", "diff_drive", "spacecraft", "spaceship", "rocket", "dyn_obstacle", "vehicle_dyn")
NAMES = ["Ego", "P1", "P2", "P3", "Zed"]


@dataclass(frozen=True)
class TimeGoal(PlanningGoal):
    """Time varying: fulfilled from `t` on (within an interval if `t1`)."""

    t: D
    t1: D = D("Infinity")

    def is_fulfilled(self, state, at=0) -> bool:
        return self.t <= at < self.t1

    def get_plottable_geometry(self, at=0):
        return Point(0, 0).buffer(1)

    @property
    def is_static(self):
        return False


class Hide(ObsFilter):
    """A sensor which does not see the listed players."""

    def __init__(self, hidden):
        self.hidden = set(hidden)
        self.calls = []

    def sense(self, scenario, full_obs, pov):
        from dataclasses import replace
        from dg_commons import fd

        self.calls.append((full_obs.time, pov))
        return replace(full_obs, players=fd({k: v for k, v in full_obs.players.items() if k == pov or k not in self.hidden}))


def extra_of(i):
    """What the agents log at their i-th request: nothing at every second one, and also things which are empty or zero."""
    return None if i % 2 else [[], ("extra", i), 0, "", False][i // 2 % 5]


class Spy(Agent):
    """Scripted by call count, optionally reacting to what it sees and to vandalise what it gets."""

    def __init__(self, spec, fam, params=None, hook=None):
        self.spec, self.fam, self.hook = spec, fam, hook
        self.inits, self.calls, self.returned = [], [], []
        self.mine = None
        self.lim = cmd_limits(fam, params)

    def on_episode_init(self, init):
        self.inits.append((init, dict(name=init.my_name, seed=init.seed)))
        if self.spec.get("vandal") and init.dg_scenario is not None:
            init.dg_scenario.static_obstacles = ()
            init.dg_scenario.strtree_obstacles = None

    def value(self, i, obs):
        u = dict(self.spec["plan"][i % len(self.spec["plan"])])
        if self.spec.get("feedback"):
            q = 0.0
            for k in sorted(obs.players):
                s = obs.players[k].state
                q += math.sin(3.1 * s.x + 1.7 * s.y + s.psi + 0.3 * len(k))
            k0 = next(iter(u))
            lo, hi = self.lim[k0]
            u[k0] = lo + (hi - lo) * (0.5 + 0.4 * math.sin(5 * q))
        return u

    def get_commands(self, obs):
        snap = dict(t=obs.time, obs={k: (sdict_any(o.state), o.occupancy.wkt) for k, o in obs.players.items()})
        i = len(self.calls)
        self.calls.append(snap)
        u = self.value(i, obs)
        self.returned.append(dict(u))
        if self.hook is not None:
            self.hook(self, obs, i)
        if self.spec.get("vandal"):
            for o in obs.players.values():
                o.state.x += 1000.0
                o.state.psi = 9.9
        if self.spec.get("reuse"):
            if self.mine is None:
                self.mine = mk_cmd(self.fam, u)
            for k, v in u.items():
                setattr(self.mine, k, v)
            return self.mine
        return mk_cmd(self.fam, u)

    def on_get_extra(self):
        if self.spec.get("extra"):
            i = len(self.calls) - 1
            return extra_of(i)
        return None


def sdict_any(s):
    return {f: float(getattr(s, f)) for f in s.__dataclass_fields__ if f != "idx" and isinstance(getattr(s, f), (int, float, np.floating))}


def mk_goal(g):
    if g is None:
        return None
    if g["k"] == "time":
        return TimeGoal(D(g["t"]), D(g["t1"]) if g.get("t1") else D("Infinity"))
    if g["k"] == "poly":
        return PolygonGoal(Polygon(g["pts"]))
    return PoseGoal(SE2Transform(g["q"][:2], g["q"][2]), tol=g["tol"])


def mk_obstacle(o):
    return StaticObstacle(LineString(o["pts"]) if o["k"] == "line" else Polygon(o["pts"]))


def build(spec, order=None, hooks=None, shared_sensors=None):
    """-> SimContext (fresh objects)."""
    pls = spec["players"]
    pls = pls if order is None else [pls[i] for i in order]
    models, agents, missions, sensors = {}, {}, {}, {}
    for p in pls:
        nm = p["name"]
        models[nm] = mk_model(copy.deepcopy(p["body"]))
        agents[nm] = Spy(p, p["body"]["fam"], models[nm].model_params, (hooks or {}).get(nm))
        if p.get("goal"):
            missions[nm] = mk_goal(p["goal"])
        if p.get("hide") is not None:
            sensors[nm] = Hide(p["hide"])
    kw = {}
    if sensors:
        kw["sensors"] = sensors
    ctx = SimContext(dg_scenario=DgScenario(static_obstacles=[mk_obstacle(o) for o in spec["obstacles"]]), models=models, players=agents, missions=missions,
                      param=SimParameters(dt=D(spec["dt"]), dt_commands=D(spec["dtc"]), max_sim_time=D(spec["tmax"]), sim_time_after_collision=D(spec["after"])), seed=spec.get("seed", 0), **kw)
    ctx._spies = dict(agents)  # also of players which leave
    ctx._missions = dict(missions)
    return ctx


def run(spec, sim=None, **kw):
    ctx = build(spec, **kw)
    (sim or Simulator()).run(ctx)
    return ctx


def log_data(ctx):
    """The logs and reports as plain comparable data (computation times excluded)."""
    out = {}
    for k, lg in ctx.log.items():
        out[k] = dict(states=[(t, tuple(sdict_any(s).items())) for t, s in zip(lg.states.timestamps, lg.states.values)],
                      commands=[(t, tuple(sdict_any(s).items())) for t, s in zip(lg.commands.timestamps, lg.commands.values)],
                      extra=list(zip(lg.extra.timestamps, lg.extra.values)), info=list(lg.info.timestamps))
    return out


def rep_data(ctx):
    out = []
    for r in ctx.collision_reports:
        out.append((r.at_time, frozenset(r.players)))
    return out


# ---------------------------------------------------------------------------------------------------- generators
@st.composite
def player(draw, name, fams, where, speed=1.0, vandal=True, dtc_n=6):
    fam = draw(st.sampled_from(list(fams)))
    kind = draw(st.sampled_from(("car", "bicycle"))) if fam in ("vehicle", "vehicle_dyn") else None
    p = mk_params(fam, kind, None)
    x = draw(state_of(fam, p, 1.0))
    x.update(x=where[0], y=where[1], psi=draw(ANGLE))
    for k in ("vx", "vy"):
        if k in x:
            x[k] *= speed
    plan = []
    for _ in range(draw(st.integers(1, dtc_n))):
        plan.append({k: draw(fl(float(lo), float(hi))) for k, (lo, hi) in cmd_limits(fam, p).items()})
    return dict(name=name, body=dict(fam=fam, kind=kind, p=None, g=None, x=x), plan=plan, goal=None,
                vandal=vandal and draw(st.booleans()), reuse=draw(st.booleans()), feedback=draw(st.booleans()), extra=draw(st.booleans()))


@st.composite
def goal(draw, where, tmax):
    k = draw(st.sampled_from(["none", "time", "window", "poly", "poly", "pose"]))
    if k == "none":
        return None
    if k in ("time", "window"):
        t = D(draw(st.integers(0, int(D(tmax) * 100)))) / 100
        return dict(k="time", t=str(t), t1=str(t + D(draw(st.sampled_from(["0.01", "0.1", "0.3"])))) if k == "window" else None)
    r = draw(fl(0.2, 3.0))
    cx, cy = where[0] + draw(fl(-4, 4)), where[1] + draw(fl(-4, 4))
    if k == "poly":
        return dict(k="poly", pts=[[cx - r, cy - r], [cx + r, cy - r], [cx + r, cy + r], [cx - r, cy + r]])
    return dict(k="pose", q=[cx, cy, draw(ANGLE)], tol=r)


@st.composite
def worlds(draw, dense=False, min_players=1, max_players=4, obstacles=True, goals=True, fams=SIM_FAMS, vandal=True, steps=14, sensors=True, speed=1.0):
    dt = draw(st.sampled_from(["0.1", "0.05", "0.1", "0.03", "0.0333"]))
    dtc = draw(st.sampled_from([dt, str(D(dt) * 2), "0.1", "0.07", "0.25", "0.01", "0.1004"]))
    n_steps = draw(st.integers(1, steps))
    tmax = str(D(dt) * n_steps + draw(st.sampled_from([D(0), D(0), D("0.007")])))
    n = draw(st.integers(min_players, max_players))
    names = draw(st.permutations(NAMES))[:n]
    pls = []
    gap = 3.0 if dense else 60.0
    for i, nm in enumerate(names):
        where = [draw(fl(-1, 1)) * gap * 0.5 + gap * (i % 2), draw(fl(-1, 1)) * gap * 0.3 + gap * (i // 2)] if dense else [gap * i + draw(fl(-5, 5)), draw(fl(-5, 5))]
        p = draw(player(nm, fams, where, speed=speed, vandal=vandal))
        if goals:
            p["goal"] = draw(goal(where, tmax))
        if sensors and draw(st.integers(0, 2)) == 0:
            p["hide"] = draw(st.lists(st.sampled_from(NAMES), max_size=2, unique=True))
        pls.append(p)
    obs = []
    if obstacles:
        pile = dense and pls and draw(st.integers(0, 4)) == 0  # many of them, around one of the players
        me = pls[0]["body"]["x"] if pls else None
        for _ in range(draw(st.integers(5, 12)) if pile else draw(st.integers(0, 3))):
            cx, cy = (me["x"] + draw(fl(-2.5, 2.5)), me["y"] + draw(fl(-2.5, 2.5))) if pile else (draw(fl(-1, 1)) * gap, draw(fl(-1, 1)) * gap)
            if draw(st.booleans()):
                w, h, th = draw(fl(0.2, 3)), draw(fl(0.2, 3)), draw(ANGLE)
                if pile:
                    w, h = 0.4 * w, 0.4 * h
                c, s = math.cos(th), math.sin(th)
                obs.append(dict(k="poly", pts=[[cx + c * a - s * b, cy + s * a + c * b] for a, b in ((-w, -h), (w, -h), (w, h), (-w, h))]))
            else:
                ln, th = draw(fl(1, 20)), draw(ANGLE)
                obs.append(dict(k="line", pts=[[cx - ln * math.cos(th), cy - ln * math.sin(th)], [cx + ln * math.cos(th), cy + ln * math.sin(th)]]))
    return dict(players=pls, obstacles=obs, dt=dt, dtc=dtc, tmax=tmax, after=draw(st.sampled_from(["0", "0.1", "0.5", "5", "0.04"])), seed=draw(st.integers(0, 9)))


def steps_of(spec, ctx):
    """Number of steps a run made, from its clock (and check that it is a whole number)."""
    q, r = divmod(ctx.time, D(spec["dt"]))
    return int(q), r


def replay_state(fam, model, u, dt):
    model.update(mk_cmd(fam, u), dt)
