from __future__ import annotations

import io
import math
from contextlib import contextmanager
from decimal import Decimal as D

import matplotlib

matplotlib.use("Agg")
import numpy as np
from hypothesis import strategies as st
from matplotlib import pyplot as plt
from matplotlib.animation import Animation
from matplotlib.cbook import STEP_LOOKUP_MAP
from matplotlib.collections import LineCollection, PolyCollection
from matplotlib.colors import to_rgba
from matplotlib.patches import FancyArrow
from shapely import affinity
from shapely.geometry import GeometryCollection, LinearRing, LineString, MultiLineString, MultiPoint, MultiPolygon, Point, Polygon
from shapely.ops import unary_union

from dg_commons import DgSampledSequence, SE2Transform
from dg_commons.maps.shapely_viz import ShapelyViz
from dg_commons.planning.trajectory import Trajectory
from dg_commons.sim.agents.agent import NPAgent
from dg_commons.sim.collision_visualisation import plot_collision
from dg_commons.sim.goals import PlanningGoal, PolygonGoal, PoseGoal
from dg_commons.sim.log_visualisation import plot_player_log, plot_players_logs
from dg_commons.sim.models.obstacles import StaticObstacle
from dg_commons.sim.models.vehicle import VehicleCommands, VehicleState
from dg_commons.sim.models.vehicle_ligths import LIGHTS_HAZARD, LIGHTS_HEADLIGHTS, LIGHTS_TURN_LEFT, LIGHTS_TURN_RIGHT, NO_LIGHTS, LightsColors
from dg_commons.sim.scenarios.structures import DgScenario
from dg_commons.sim.simulator import SimContext
from dg_commons.sim.simulator_animation import adjust_axes_limits, create_animation, get_lights_colors_from_cmds
from dg_commons.sim.simulator_structures import PlayerLog, SimLog, SimParameters
from dg_commons.sim.simulator_visualisation import SimRenderer, plot_trajectories
from dataclasses import dataclass
from pbt.core import ensure, ensure_close, fail, subtest
from pbt.gens import BIG_ANGLE, fl, nice
from pbt import nets, world
from pbt.zoo import COMMANDS, FAMILIES, STATES, cmd_of, mk_cmd, mk_geometry, mk_model, mk_params, mk_state, model_case, sdict, state_of

P = "C29"
RULE = ("random players of every family, states, commands, logs, goals, obstacles and geometries, drawn on an off-screen canvas; the artists (or, for shapes, "
        "the rendered pixels) are compared with an independent placement of the outlines; non-trivial = rotated bodies, redraws, several parts or holes")
ASSUMPTIONS = ["CommonRoad's own drawing of the road network is not judged",
               "contacts which could not be resolved (reports without impact point) are not drawn",
               "what counts is where artists are and what they cover, not their style (except the colour of lights and that a hole stays empty)"]


def rot(a, v):
    c, s = math.cos(a), math.sin(a)
    return np.array([c * v[0] - s * v[1], s * v[0] + c * v[1]])


def place(q, pts):
    return np.array([rot(q[2], p) + np.array(q[:2]) for p in pts])


@contextmanager
def figure(**kw):
    plt.close("all")
    fig, ax = plt.subplots(**kw)
    try:
        yield fig, ax
    finally:
        plt.close("all")


def ring(poly_patch):
    """Vertices of a matplotlib polygon without the closing one."""
    xy = np.asarray(poly_patch.get_xy(), dtype=float)
    if len(xy) > 1 and np.allclose(xy[0], xy[-1], rtol=0, atol=1e-12):
        xy = xy[:-1]
    return xy


def open_ring(pts):
    pts = np.asarray([p[:2] for p in pts], dtype=float)
    return pts[:-1] if len(pts) > 1 and np.allclose(pts[0], pts[-1]) else pts


def ctx_of(players, log=None, missions=None, obstacles=(), road=None):
    """players: {name: body case}"""
    models = {n: mk_model(b) for n, b in players.items()}
    agents = {n: NPAgent(DgSampledSequence([0.0], [mk_cmd(b["fam"], {k: 0.0 for k in COMMANDS[b["fam"]][1]})])) for n, b in players.items()}
    kw = {}
    if log is not None:
        kw["log"] = log
    return SimContext(dg_scenario=DgScenario(scenario=nets.mk_scenario(road) if road else None, static_obstacles=list(obstacles)), models=models, players=agents, missions=missions or {},
                      param=SimParameters(), **kw)


@contextmanager
def renderer(ctx):
    plt.close("all")
    r = SimRenderer(ctx, figsize=(3, 3))
    try:
        yield r, r.commonroad_renderer.ax
    finally:
        plt.close("all")


def outline_of(model, fam):
    return list(model.shape.exterior.coords) if fam == "dyn_obstacle" else list(model.model_geometry.outline)


# ------------------------------------------------------------------------------------------------- one player
@st.composite
def drawn(draw, fams=tuple(FAMILIES)):
    body = draw(model_case(fams=fams))
    fam = body["fam"]
    p = mk_params(fam, body["kind"], body["p"])
    shots = []
    for _ in range(draw(st.integers(1, 3))):
        shots.append(dict(x=draw(state_of(fam, p)), u=draw(cmd_of(fam, p))))
    for s in shots:
        if fam in ("vehicle", "vehicle_dyn"):
            s["lights"] = draw(st.sampled_from([NO_LIGHTS, LIGHTS_HEADLIGHTS, LIGHTS_TURN_LEFT, LIGHTS_TURN_RIGHT, LIGHTS_HAZARD]))
            s["t"] = draw(fl(0, 10))
    return dict(body=body, shots=shots, wheels=draw(st.booleans()), lights=draw(st.booleans()), second=draw(st.booleans()))


def colors_of(shot):
    if "lights" not in shot:
        return None
    return get_lights_colors_from_cmds(VehicleCommands(acc=shot["u"]["acc"], ddelta=0.0, lights=shot["lights"]), shot["t"])


def snapshot(fam, handles):
    polys, lights = handles
    patches = [h for h in polys if hasattr(h, "get_xy")]
    texts = [h for h in polys if hasattr(h, "get_text")]
    return dict(patches=[ring(h) for h in patches], text=[np.array(t.get_position(), dtype=float) for t in texts], names=[t.get_text() for t in texts],
                lights=[np.array(c.center, dtype=float) for c in (lights or [])], lcol=[tuple(c.get_facecolor()) for c in (lights or [])], patch_objs=patches,
                light_objs=list(lights or []))


def draw_player(r, ax, name, fam, shot, case, x=None, handles=None):
    kw = {}
    if handles is not None:
        kw = dict(model_poly=handles[0], lights_patches=handles[1])
    return r.plot_player(ax=ax, player_name=name, state=mk_state(fam, x or shot["x"]), command=mk_cmd(fam, shot["u"]), lights_colors=colors_of(shot),
                         plot_wheels=case["wheels"], plot_lights=case["lights"], **kw)


@subtest(P, drawn, quick=700, shards=4, need=tuple(FAMILIES) + ("redrawn", "wheels", "lights", "fuel", "no fuel"))
def players_are_drawn_at_their_state(case):
    """The body is its outline at the drawn state; every other part moves rigidly with it; redrawing equals drawing afresh."""
    body, fam = case["body"], case["body"]["fam"]
    ctx = ctx_of({"P1": body})
    m = ctx.models["P1"]
    g = m.model_geometry
    labels = {fam}
    with renderer(ctx) as (r, ax):
        handles = None
        for k, shot in enumerate(case["shots"]):
            x = shot["x"]
            q = [x["x"], x["y"], x["psi"]]
            tol = 1e-9 * (1 + abs(q[0]) + abs(q[1])) + 1e-7
            handles = draw_player(r, ax, "P1", fam, shot, case, handles=handles)
            got = snapshot(fam, handles)
            exp = place(q, open_ring(outline_of(m, fam)))
            ensure(len(got["patches"][0]) == len(exp) and np.abs(got["patches"][0] - exp).max() <= tol, f"{fam}: the drawn body is not the outline at the state drawn",
                   drawn=got["patches"][0][:4].tolist(), expected=exp[:4].tolist(), redraw=k)
            for o in got["patch_objs"]:
                ensure(o in ax.patches and o.get_visible(), f"{fam}: a part is not on the axes")
            if fam != "dyn_obstacle":
                ensure(got["names"] == ["P1"], "name of the player", names=got["names"])
                ensure(np.abs(got["text"][0] - np.array(q[:2])).max() <= tol, f"{fam}: the name is not at the player", at=got["text"][0].tolist())
            # the same drawn afresh: at the same state, and at the origin
            fresh = snapshot(fam, draw_player(r, ax, "P1", fam, shot, case))
            home = snapshot(fam, draw_player(r, ax, "P1", fam, shot, case, x={**x, "x": 0.0, "y": 0.0, "psi": 0.0}))
            ensure(len(fresh["patches"]) == len(got["patches"]) == len(home["patches"]), "number of parts")
            tank = x.get("m", 1.0) > getattr(m.model_params, "m_v", 0.0)
            for i, (a, b, c) in enumerate(zip(got["patches"], fresh["patches"], home["patches"])):
                ensure(a.shape == b.shape and np.abs(a - b).max() <= tol, f"{fam}: redrawing part {i} differs from drawing it afresh", redrawn=a.tolist()[:5], fresh=b.tolist()[:5], redraw=k)
                if len(c) > 1 or tank:
                    ensure(a.shape == c.shape and np.abs(a - place(q, c)).max() <= tol, f"{fam}: part {i} does not move with the body", drawn=a.tolist()[:5], expected=place(q, c).tolist()[:5])
            if fam in ("spaceship", "rocket"):
                labels.add("fuel" if tank else "no fuel")
                n = g.n_thrusters
                ensure(len(home["patches"]) == 1 + 2 * n, f"{fam}: thrusters and flames drawn", n=len(home["patches"]))
                thr = [shot["u"]["thrust"]] if fam == "spaceship" else [shot["u"]["F_left"], shot["u"]["F_right"]]
                for i in range(n):
                    nozzle, flame = Polygon(home["patches"][1 + i]), home["patches"][1 + n + i]
                    area = Polygon(flame).area if len(flame) > 2 else 0.0
                    ensure_close(nozzle.area, 2 * g.w_t_half * g.l_t_half, f"{fam}: size of the nozzle drawn", rtol=1e-6, nozzle=i)
                    if area > 1e-6 and thr[i] > 0:
                        ensure(nozzle.distance(Polygon(flame)) < 1e-6 and nozzle.intersection(Polygon(flame)).area < 1e-6 * nozzle.area, f"{fam}: a flame does not start at its nozzle", flame=i)
                    if not tank:
                        ensure(area == 0.0, f"{fam}: a flame with an empty tank", area=area)
                    else:  # a triangle as long as the thrust
                        ensure_close(area, abs(thr[i]) / g.F_max / 2 * g.w_t_half, f"{fam}: size of a flame", rtol=1e-6, atol=1e-12, flame=i, thrust=thr)
            elif fam == "spacecraft":
                ensure(len(home["patches"]) == 1 + g.n_thrusters, "thrusters drawn")
                exps = [open_ring(o) for o in g.thrusters_outline_in_body_frame]
                for i, e in enumerate(exps):
                    ensure_close(home["patches"][1 + i], e, "a thruster of a spacecraft is not at its place", atol=1e-9)
            elif fam in ("vehicle", "vehicle_dyn", "diff_drive") and case["wheels"]:
                labels.add("wheels")
                w = g.wheels_outlines if fam == "diff_drive" else g.get_rotated_wheels_outlines(x["delta"])
                ensure(len(home["patches"]) == 1 + g.n_wheels, f"{fam}: number of wheels drawn", n=len(home["patches"]) - 1)
                for i in range(g.n_wheels):
                    ensure_close(home["patches"][1 + i], open_ring(np.asarray(w[i])[:2].T), f"{fam}: a wheel is not drawn at its place", atol=1e-9)
            else:
                ensure(len(home["patches"]) == 1, f"{fam}: number of parts drawn", n=len(home["patches"]))
            if fam in ("vehicle", "vehicle_dyn") and case["lights"]:
                labels.add("lights")
                col = colors_of(shot)
                names = list(g.lights_position)
                ensure(len(got["lights"]) == len(names) == 4, "number of lights drawn", n=len(got["lights"]))
                for a, b, nm in zip(got["lights"], got["lcol"], names):
                    ensure(np.abs(a - place(q, [g.lights_position[nm]])[0]).max() <= tol, "a light is not drawn at its corner", light=nm, at=a.tolist(), redraw=k)
                    ensure_close(b, to_rgba(getattr(col, nm)), "colour of a light", light=nm, redraw=k)
                for o in got["light_objs"]:
                    ensure(o in ax.patches, "a light is not on the axes")
            else:
                ensure(not got["lights"], f"{fam}: lights drawn")
        if len(case["shots"]) > 1:
            labels.add("redrawn")
    return tuple(sorted(labels))


# ------------------------------------------------------------------------------------------------- shapes
GRID = 3.0


@st.composite
def one_shape(draw, kinds=("poly", "hole", "line", "ring", "point")):
    k = draw(st.sampled_from(kinds))
    cell = [draw(st.integers(-2, 2)) * GRID, draw(st.integers(-2, 2)) * GRID]
    rad = draw(st.one_of(fl(0.5, 1.2), fl(0.5, 1.2), st.just(0.08))) if k == "poly" else draw(fl(0.5, 1.2))
    n = draw(st.integers(3, 8))
    a0 = draw(fl(0, 6.3))
    return dict(k=k, c=cell, r=rad, n=n, a0=a0, rh=draw(fl(0.25, 0.6)), rx=draw(fl(0.6, 1.0)), cw=draw(st.lists(st.booleans(), min_size=2, max_size=2)))


def mk_shape(s):
    cx, cy = s["c"]
    pts = [(cx + s["r"] * (s["rx"] if i % 2 else 1.0) * math.cos(s["a0"] + 2 * math.pi * i / s["n"]), cy + s["r"] * (s["rx"] if i % 2 else 1.0) * math.sin(s["a0"] + 2 * math.pi * i / s["n"]))
           for i in range(s["n"])]
    cw, hole_cw = s["cw"]
    if cw:
        pts = pts[::-1]
    if s["k"] == "poly":
        return Polygon(pts)
    if s["k"] == "holes":  # a plate with several openings
        def ring(cx, cy, a, b, back):
            q = [(cx - a, cy - b), (cx + a, cy - b), (cx + a, cy + b), (cx - a, cy + b)]
            return q[::-1] if back else q
        return Polygon(ring(cx, cy, 1.4, 0.8, cw), [ring(cx + d, cy, 0.2 + 0.15 * s["rh"], 0.5 * s["rx"], hole_cw) for d in (-0.9, 0.0, 0.9)[: 2 + s["n"] % 2]])
    if s["k"] == "hole":
        out = Polygon(pts)
        h = affinity.scale(out, s["rh"], s["rh"])
        ring = list(h.exterior.coords)
        return Polygon(pts, [ring[::-1] if hole_cw else ring])
    if s["k"] == "line":
        return LineString(pts)
    if s["k"] == "ring":
        return LinearRing(pts)
    return Point(cx, cy)


@st.composite
def shapes(draw):
    how = draw(st.sampled_from(["single", "multi_poly", "multi_line", "multi_point", "collection"]))
    kinds = dict(single=("poly", "hole", "holes", "line", "ring", "point"), multi_poly=("poly", "hole", "holes"), multi_line=("line",), multi_point=("point",),
                 collection=("poly", "hole", "holes", "line", "point"))[how]
    n = 1 if how == "single" else draw(st.integers(1, 4))
    parts = draw(st.lists(one_shape(kinds), min_size=n, max_size=n, unique_by=lambda s: tuple(s["c"])))
    return dict(how=how, parts=parts, z=draw(st.sampled_from([None, 5, 32])), nested=draw(st.booleans()))


def assemble(case):
    gs = [mk_shape(s) for s in case["parts"]]
    how = case["how"]
    if how == "single":
        return gs[0]
    if how == "multi_poly":
        return MultiPolygon(gs)
    if how == "multi_line":
        return MultiLineString(gs)
    if how == "multi_point":
        return MultiPoint(gs)
    if case["nested"] and len(gs) > 1:
        return GeometryCollection([gs[0], GeometryCollection(gs[1:])])
    return GeometryCollection(gs)


@subtest(P, shapes, quick=320, shards=4, need=("single", "multi_poly", "multi_line", "multi_point", "collection", "hole", "holes"))
def shapes_are_drawn_entirely(case):
    """Every part of a geometry is painted, holes and the rest of the plane are not (judged on the rendered pixels)."""
    geo = assemble(case)
    lim, px = 8.0, 400
    plt.close("all")
    fig = plt.figure(figsize=(4, 4), dpi=px / 4)
    ax = fig.add_axes([0, 0, 1, 1])
    ax.axis("off")
    try:
        kw = dict(color=(1.0, 0.0, 0.0))
        if case["z"] is not None:
            kw["zorder"] = case["z"]
        # circles of points have a radius, lines a width
        pts_only = all(s["k"] == "point" for s in case["parts"])
        ShapelyViz(ax=ax).add_shape(geo, **({**kw, "radius": 0.6} if pts_only else kw))
        ax.set_xlim(-lim, lim)
        ax.set_ylim(-lim, lim)
        fig.canvas.draw()
        img = np.asarray(fig.canvas.buffer_rgba())[:, :, :3].astype(int)
    finally:
        plt.close("all")

    def red(x, y):
        i, j = int((lim - y) / (2 * lim) * px), int((x + lim) / (2 * lim) * px)
        p = img[min(max(i, 0), px - 1), min(max(j, 0), px - 1)]
        return p[0] > 200 and p[1] < 90 and p[2] < 90

    eps = 3.5 * 2 * lim / px
    radius = 0.6 if pts_only else 5.0
    mixed_points = [mk_shape(s) for s in case["parts"] if s["k"] == "point"]
    painted = []
    for s in case["parts"]:
        g = mk_shape(s)
        if s["k"] in ("poly", "hole", "holes"):
            painted.append(g)
            if s["r"] < 0.1:
                ensure(any(red(s["c"][0] + dx, s["c"][1] + dy) for dx in (-0.04, 0, 0.04) for dy in (-0.04, 0, 0.04)), "a small part is not drawn", at=s["c"])
        elif s["k"] in ("line", "ring"):
            painted.append(g.buffer(eps / 2))
            for f in (0.13, 0.5, 0.77):
                p = g.interpolate(f, normalized=True)
                near = [(p.x + dx, p.y + dy) for dx in (-0.04, 0, 0.04) for dy in (-0.04, 0, 0.04)]
                ensure(any(red(*c) for c in near), "a line is not drawn", at=[p.x, p.y])
        else:
            painted.append(g.buffer(radius))
            ensure(red(g.x, g.y), "a point is not drawn", at=[g.x, g.y])
    whole = unary_union(painted)
    inside, outside = whole.buffer(-eps), whole.buffer(eps)
    n_in = n_out = 0
    step = 0.37
    grid = np.arange(-lim + 0.1, lim, step)
    import shapely

    gx, gy = np.meshgrid(grid, grid)
    gx, gy = gx.ravel(), gy.ravel()
    extra = []
    for s in case["parts"]:  # look closely at every part and at every hole
        for a in np.linspace(0, 2 * math.pi, 9):
            for f in (0.0, 0.1, 0.2, 0.45, 0.6, 0.75):
                extra.append((s["c"][0] + f * s["r"] * math.cos(a), s["c"][1] + f * s["r"] * math.sin(a)))
        if s["k"] == "holes":
            extra += [(s["c"][0] + d, s["c"][1] + e) for d in (-0.9, 0.0, 0.9) for e in (-0.1, 0.0, 0.1)]
    gx, gy = np.concatenate([gx, [e[0] for e in extra]]), np.concatenate([gy, [e[1] for e in extra]])
    cin, cout = shapely.contains_xy(inside, gx, gy), ~shapely.contains_xy(outside, gx, gy)
    for x, y, a, b in zip(gx, gy, cin, cout):
        if a:
            n_in += 1
            ensure(red(x, y), "a place inside the shape is not painted", at=[float(x), float(y)], shape=geo.geom_type)
        elif b:
            n_out += 1
            ensure(not red(x, y), "a place outside the shape (or in a hole) is painted", at=[float(x), float(y)], shape=geo.geom_type)
    labels = [case["how"]]
    labels += [k for k in ("hole", "holes") if any(s["k"] == k for s in case["parts"])]
    return tuple(labels)


# ------------------------------------------------------------------------------------------------- animations
@dataclass(frozen=True)
class MovingGoal(PlanningGoal):
    x0: tuple
    v: tuple

    def is_fulfilled(self, state, at=0):
        return False

    def get_plottable_geometry(self, at=0):
        t = float(at)
        x, y = self.x0[0] + self.v[0] * t, self.x0[1] + self.v[1] * t
        return Polygon([(x - 1, y - 1), (x + 2, y - 1), (x, y + 1.5)])

    @property
    def is_static(self):
        return False


ANIM_FAMS = ("vehicle", "pedestrian", "diff_drive", "spacecraft", "spaceship", "rocket", "dyn_obstacle", "vehicle_dyn")


@st.composite
def logged(draw, fams=ANIM_FAMS, max_players=3, starts=("0", "0", "0", "0.5", "2", "13.7")):
    n = draw(st.integers(1, max_players))
    names = draw(st.permutations(["Ego", "P1", "P2"]))[:n]
    t0 = D(draw(st.sampled_from(starts)))
    dt = D(draw(st.sampled_from(["0.1", "0.05", "0.25", "0.2"])))
    longest = draw(st.integers(2, 8))
    players = []
    for i, nm in enumerate(names):
        body = draw(model_case(fams=fams, span=30.0))
        fam = body["fam"]
        p = mk_params(fam, body["kind"], body["p"])
        # one player is in the log to the end, others may leave earlier
        k = longest if i == 0 else draw(st.integers(1, longest))
        xs = [draw(state_of(fam, p, span=30.0)) for _ in range(k)]
        us = [draw(cmd_of(fam, p)) for _ in range(k)]
        if fam in ("vehicle", "vehicle_dyn"):
            us = [{**u, "lights": draw(st.sampled_from([NO_LIGHTS, LIGHTS_HEADLIGHTS, LIGHTS_TURN_LEFT, LIGHTS_TURN_RIGHT, LIGHTS_HAZARD]))} for u in us]
        goal = draw(st.sampled_from([None, "poly", "pose", "moving"]))
        extra = None
        if draw(st.booleans()):
            extra = [[i2, [dict(t=0, xs=[dict(x=draw(nice(-20, 20)), y=draw(nice(-20, 20)), psi=0.0, vx=1.0, delta=0.0) for _ in range(draw(st.integers(2, 4)))],
                                c=draw(st.sampled_from([None, "green", "orange"]))) for _ in range(draw(st.integers(1, 2)))]]
                     for i2 in range(k) if draw(st.booleans())]
        players.append(dict(name=nm, body=body, xs=xs, us=us, extra=extra, goal=goal, gq=[draw(fl(-20, 20)), draw(fl(-20, 20)), draw(fl(-3, 3))], gv=[draw(fl(-4, 4)), draw(fl(-4, 4))]))
    return dict(t0=str(t0), dt=str(dt), players=players, frame=draw(st.sampled_from([30, 50, 100, 125, 60, 1500, 33.3, 62.5, 100 if longest > 4 else 12.5])), lim=draw(st.sampled_from(["auto", "fixed", "player"])),
                obstacles=draw(st.lists(st.tuples(fl(-25, 25), fl(-25, 25)).map(list), max_size=2)),
                road=draw(st.one_of(st.none(), st.none(), nets.networks(max_size=2))), name=draw(st.sampled_from(["nowhere", "nowhere.mp4", "now.here", "nowhere.gif", "nowhere.avi"])),
                walls=draw(st.lists(st.tuples(fl(-25, 25), fl(-25, 25), fl(0.3, 30), fl(-3, 3)).map(list), max_size=2)))


def mk_log(case):
    t0, dt = D(case["t0"]), D(case["dt"])
    log = SimLog()
    for p in case["players"]:
        fam = p["body"]["fam"]
        ts = [t0 + i * dt for i in range(len(p["xs"]))]
        cs = [t0 + i * dt / 4 for i in p["cmd_at"]] if "cmd_at" in p else ts
        log[p["name"]] = PlayerLog(states=DgSampledSequence(ts, [mk_state(fam, x) for x in p["xs"]]), commands=DgSampledSequence(cs, [mk_cmd(fam, u) for u in p["us"][:len(cs)]]),
                                   extra=DgSampledSequence([ts[i] for i, _ in p["extra"] or []], [[(mk_traj(s), s["c"]) for s in tr] for _, tr in p["extra"] or []]), info=DgSampledSequence(ts, [0.0] * len(ts)))
    return log


def mk_mission(p):
    if p["goal"] == "poly":
        x, y, _ = p["gq"]
        return PolygonGoal(Polygon([(x, y), (x + 3, y), (x + 2, y + 2)]))
    if p["goal"] == "pose":
        return PoseGoal(SE2Transform(p["gq"][:2], p["gq"][2]))
    if p["goal"] == "moving":
        return MovingGoal(tuple(p["gq"][:2]), tuple(p["gv"]))
    return None


def interp(case, p, t):
    """State of the log at t: linear between samples, the last one afterwards."""
    t0, dt, xs = float(case["t0"]), float(case["dt"]), p["xs"]
    s = (t - t0) / dt
    i = int(math.floor(s + 1e-9))
    if i >= len(xs) - 1:
        return xs[-1]
    a = s - i
    return {k: (1 - a) * xs[i][k] + a * xs[i + 1][k] for k in xs[i]}


def regions(ax):
    """What the patches of the axes cover: list of shapely polygons (rings of a patch by even-odd)."""
    out = []
    for pt in ax.patches:
        if not pt.get_visible():
            continue
        acc = None
        for r in pt.get_path().to_polygons(pt.get_patch_transform(), closed_only=True):
            if len(r) >= 4:
                pg = Polygon(r).buffer(0)
                acc = pg if acc is None else acc.symmetric_difference(pg)
        if acc is not None and not acc.is_empty and acc.area > 0:
            out.append(acc)
    return out


def vertices(ax):
    """Vertices of all lines, patches and line collections in data coordinates."""
    out = [np.asarray(ln.get_xydata(), dtype=float).reshape(-1, 2) for ln in ax.lines if ln.get_visible()]
    for pt in ax.patches:
        if pt.get_visible():
            out.append(pt.get_patch_transform().transform(pt.get_path().vertices).reshape(-1, 2))
    for c in ax.collections:
        if isinstance(c, LineCollection) and c.get_visible():
            out += [np.asarray(g, dtype=float).reshape(-1, 2) for g in c.get_segments()]
    return np.concatenate(out) if out else np.zeros((0, 2))


def has_region(ax, poly, tol=1e-6):
    return any(abs(r.area - poly.area) <= tol * (1 + poly.area) and r.symmetric_difference(poly).area <= tol * (1 + poly.area) for r in regions(ax))


@contextmanager
def no_video(record):
    """Replaces the writing of the file: every frame is drawn on the figure and shown to `record`."""
    orig = Animation.save

    def save(self, filename, *a, **kw):
        record(self, None, filename, kw)
        self._init_draw()
        record(self, "init", filename, kw)
        for k, fr in enumerate(self.new_saved_frame_seq()):
            self._draw_frame(fr)
            record(self, k, filename, kw)

    Animation.save = save
    try:
        yield
    finally:
        Animation.save = orig


@subtest(P, logged, quick=220, shards=4, need=("auto", "fixed", "player", "moving goal", "static goal", "left early", "late start", "obstacle", "plans", "plans from later on", "parts", "lights", "wall", "road"))
def animations_show_the_logged_states(case):
    log = mk_log(case)
    missions = {p["name"]: mk_mission(p) for p in case["players"] if p["goal"]}
    obst = [StaticObstacle(Polygon([(x, y), (x + 1.5, y), (x + 1, y + 1.2)])) for x, y in case["obstacles"]]
    walls = [StaticObstacle(LineString([(x, y), (x + l * math.cos(a), y + l * math.sin(a)), (x + l * math.cos(a) - math.sin(a), y + l * math.sin(a) + math.cos(a))])) for x, y, l, a in case["walls"]]
    ctx = ctx_of({p["name"]: p["body"] for p in case["players"]}, log=log, missions=missions, obstacles=obst + walls, road=case["road"])
    lets = [nets.lane_polygon(l, r) for _, l, r, *_ in nets.lanelets(case["road"])] if case["road"] else []
    for p in case["players"]:  # as the simulator does with those who are done before the end
        if len(p["xs"]) < max(len(o["xs"]) for o in case["players"]):
            ctx.players.pop(p["name"])
    t0, t1 = float(case["t0"]), float(case["t0"]) + float(case["dt"]) * (max(len(p["xs"]) for p in case["players"]) - 1)
    frame = min(case["frame"], 1000) / 1000.0
    labels = {case["lim"]}
    focus = case["players"][-1]
    lims = dict(auto="auto", fixed=[[-12.0, 40.0], [-33.0, 7.5]], player=focus["name"])[case["lim"]]
    seen = []
    scratch = plt.figure(figsize=(2, 2)).add_subplot()
    other = SimRenderer(ctx, ax=scratch)

    def record(anim, k, filename, kw):
        ax = anim._fig.axes[0]
        if k is None:
            ensure(filename == (case["name"] if case["name"].endswith((".mp4", ".gif", ".avi")) else case["name"] + ".mp4"), "name of the file", asked=case["name"], name=filename)
            return
        t = t0 if k == "init" else t0 + k * frame
        if k != "init":
            seen.append(t)
        if t > t1 + 1e-9:
            fail("a frame after the end of the log", t=t, end=t1)
        now = {}
        for p in case["players"]:
            x = interp(case, p, t)
            fam = p["body"]["fam"]
            now[p["name"]] = x
            exp = Polygon(place([x["x"], x["y"], x["psi"]], open_ring(outline_of(ctx.models[p["name"]], fam))))
            ensure(has_region(ax, exp), f"{fam}: the body is not shown where the log puts it at the time of the frame", frame=k, t=t, player=p["name"], state=x)
            if len(p["xs"]) < max(len(o["xs"]) for o in case["players"]):
                labels.add("left early")
            j = int(math.floor((t - t0) / float(case["dt"]) + 1e-9))
            if k != "init" and k % 4 == 0 and abs((t - t0) / float(case["dt"]) - round((t - t0) / float(case["dt"]))) > 1e-6:
                # all parts are those of the state and of the commands which were valid at the time
                cmd = mk_cmd(fam, p["us"][min(j, len(p["us"]) - 1)])
                fresh = snapshot(fam, other.plot_player(ax=scratch, player_name=p["name"], state=mk_state(fam, x), command=cmd, lights_colors=get_lights_colors_from_cmds(cmd, t),
                                                        plot_wheels=True, plot_lights=True))
                for i, o in enumerate(fresh["patches"]):
                    if len(o) > 2 and Polygon(o).area > 1e-9:
                        labels.add("parts")
                        ensure(has_region(ax, Polygon(o)), f"{fam}: part {i} is not shown as the log says for the time of the frame", frame=k, t=t, player=p["name"])
                circles = [c for c in ax.patches if hasattr(c, "center") and hasattr(c, "radius")]
                if abs((t / 0.4) % 1.0 - 0.5) < 1e-6:  # at the switch of a blinking period
                    circles, fresh["lights"] = [], []
                for c, col in zip(fresh["lights"], fresh["lcol"]):
                    labels.add("lights")
                    ensure(any(np.abs(np.array(o.center) - c).max() < 1e-6 and np.allclose(o.get_facecolor(), col) for o in circles),
                           "a light does not show the signal of the time of the frame", frame=k, t=t, player=p["name"], command=str(cmd), at=c.tolist(),
                           shown=[list(o.get_facecolor()) for o in circles if np.abs(np.array(o.center) - c).max() < 1e-6], expected=list(col))
            if p["goal"] == "moving" and k != "init":
                labels.add("moving goal")
                ensure(has_region(ax, missions[p["name"]].get_plottable_geometry(t)), "a moving goal is not shown where it is at the time of the frame", t=t, frame=k)
            elif p["goal"] in ("poly", "pose"):
                labels.add("static goal")
                ensure(has_region(ax, missions[p["name"]].get_plottable_geometry()), "a goal is not shown", frame=k)
            plans = [tr for i, tr in p["extra"] or [] if t0 + i * float(case["dt"]) <= t + 1e-9]
            edge = any(abs(t0 + i * float(case["dt"]) - t) < 1e-6 for i, _ in p["extra"] or []) and k != "init"  # a float frame time on a sample
            if plans and not edge:
                labels.add("plans")
                if p["extra"][0][0] > 0:
                    labels.add("plans from later on")
                want = [np.array([[x["x"], x["y"]] for x in s["xs"]]) for s in plans[-1]]
                cols = [to_rgba(s["c"] or ctx.models[p["name"]].model_geometry.color) for s in plans[-1]]
                shown_ = [(c.get_segments(), c.get_colors()) for c in ax.collections if isinstance(c, LineCollection)]
                ensure(any(len(sg) == len(want) and all(np.asarray(a).shape == b.shape and np.allclose(a, b) for a, b in zip(sg, want))
                           and all(np.allclose(a[:3], b[:3]) for a, b in zip(cl, cols)) for sg, cl in shown_),
                       "the trajectories a player logged last are not shown", frame=k, t=t, player=p["name"], expected=[w.tolist() for w in want])
        for o in obst:
            labels.add("obstacle")
            ensure(has_region(ax, o.shape), "a static obstacle is not shown", frame=k)
        if lets:
            labels.add("road")
            areas = [Polygon(pth.vertices) for c in ax.collections if isinstance(c, PolyCollection) for pth in c.get_paths() if len(pth.vertices) > 3]
            for i, a in enumerate(lets):
                if a.is_valid:
                    ensure(any(abs(b.area - a.area) < 1e-6 * a.area and b.symmetric_difference(a).area < 1e-6 * a.area for b in areas if b.is_valid), "a lane of the road network is not shown", frame=k, lane=i)
        if walls:
            labels.add("wall")
            vs = vertices(ax)
            for o in walls:
                for q in o.shape.coords:
                    ensure(len(vs) and np.hypot(*(vs - np.array(q)).T).min() < 1e-6, "a static obstacle (a line) is not shown", frame=k, at=list(q), wall=list(o.shape.coords))
        (xa, xb), (ya, yb) = sorted(ax.get_xlim()), sorted(ax.get_ylim())
        if k == "init":
            return
        if case["lim"] == "fixed":
            ensure_close([xa, xb, ya, yb], [-12.0, 40.0, -33.0, 7.5], "the given limits are not those shown")
        else:
            for nm, x in now.items():
                if case["lim"] == "auto" or nm == focus["name"]:
                    ensure(xa <= x["x"] <= xb and ya <= x["y"] <= yb, "a player to be shown is out of the picture", player=nm, state=x, limits=[xa, xb, ya, yb])
        shown = [tx.get_text() for tx in ax.texts if tx.get_text().startswith("t =")]
        ensure(len(shown) == 1 and abs(float(shown[0][3:].strip().rstrip("s")) - t) <= 0.0501, "the time shown is not that of the frame", shown=shown, t=t)

    before = {n: [str(s) for s in lg.states.values] for n, lg in log.items()}
    with no_video(record):
        try:
            create_animation(case["name"], ctx, figsize=(3, 3), dt=case["frame"], dpi=30, plot_limits=lims)
        finally:
            plt.close("all")
    n = int(math.floor((t1 - t0) / frame + 1e-9))
    ensure(abs(len(seen) - n) <= 1, "the frames do not span the log", frames=len(seen), expected=n, span=[t0, t1])
    ensure(before == {n: [str(s) for s in lg.states.values] for n, lg in log.items()}, "animating changed the log")
    if t0 > 0:
        labels.add("late start")
    if not seen:
        return None
    return tuple(sorted(labels))


# ------------------------------------------------------------------------------------------------- limits
@st.composite
def crowd(draw):
    n = draw(st.integers(1, 5))
    ps = [draw(model_case(span=200.0)) for _ in range(n)]
    return dict(ps=ps, who=draw(st.integers(0, n - 1)))


@subtest(P, crowd, quick=400, need=("diff_drive", "vehicle", "spacecraft"))
def axis_limits_show_the_players(case):
    states = {f"P{i}": mk_state(b["fam"], b["x"]) for i, b in enumerate(case["ps"])}
    with figure(figsize=(2, 2)) as (fig, ax):
        adjust_axes_limits(ax, "auto", states)
        (xa, xb), (ya, yb) = ax.get_xlim(), ax.get_ylim()
        for s in states.values():
            ensure(xa < s.x < xb and ya < s.y < yb, "auto: a player is out of the picture", state=str(s), limits=[xa, xb, ya, yb])
        xs, ys = [s.x for s in states.values()], [s.y for s in states.values()]
        ensure_close([min(xs) - xa, xb - max(xs), min(ys) - ya, yb - max(ys)], [15.0] * 4, "auto: margin around the players", rtol=1e-6, atol=1e-6)
        nm = f"P{case['who']}"
        s = states[nm]
        adjust_axes_limits(ax, nm, states)
        (xa, xb), (ya, yb) = ax.get_xlim(), ax.get_ylim()
        ensure(xa < s.x < xb and ya < s.y < yb, "the player in focus is out of the picture", state=str(s), limits=[xa, xb, ya, yb])
        ensure_close([xb - xa, yb - ya], [70.0, 70.0], "size of the window around the player in focus", rtol=1e-6)
        # looking ahead: the centre is displaced along the motion
        d = np.array([(xa + xb) / 2 - s.x, (ya + yb) / 2 - s.y])
        v = getattr(s, "vx", 0.0) * np.array([math.cos(s.psi), math.sin(s.psi)])
        ensure(float(d @ v) >= -1e-6, "the window looks backwards", displacement=d.tolist(), velocity=v.tolist())
        for k in (0, 1):
            ensure(abs(v[k]) < 0.5 or d[k] * v[k] > 0, "the window does not look ahead", displacement=d.tolist(), velocity=v.tolist())
        adjust_axes_limits(ax, [[-3.0, 4.0], [5.0, 6.0]], states)
        ensure_close(list(ax.get_xlim()) + list(ax.get_ylim()), [-3, 4, 5, 6], "given limits")
    return tuple(sorted({b["fam"] for b in case["ps"]}))


# ------------------------------------------------------------------------------------------------- logs and trajectories
@st.composite
def plotted(draw):
    c = draw(logged(max_players=3))
    c["other_current"] = draw(st.booleans())
    # commands are not logged at the same times as states
    for p in c["players"]:
        p["cmd_at"] = sorted(draw(st.sets(st.integers(0, 4 * len(p["us"]) - 1), min_size=1, max_size=len(p["us"]))))
    c["only"] = draw(st.one_of(st.none(), st.lists(st.sampled_from([p["name"] for p in c["players"]]), unique=True)))
    return c


@subtest(P, plotted, quick=48, shards=4, need=("other figure current", "filtered", "between samples", "other times of commands"))
def log_plots_show_the_log(case):
    log = mk_log(case)
    labels = ["plotted"]
    plt.close("all")
    try:
        fig = plt.figure(figsize=(2, 2))
        if case["other_current"]:
            other = plt.figure(figsize=(2, 2))
            labels.append("other figure current")
        p = case["players"][0]
        plot_player_log(log[p["name"]], fig)
        fam = p["body"]["fam"]
        if case["other_current"]:
            ensure(not other.axes, "the log was drawn on another figure than the given one")
        lg = log[p["name"]]
        ts, cs = [float(t) for t in lg.states.timestamps], [float(t) for t in lg.commands.timestamps]
        expect = [(STATES[fam][1], p["xs"], ts, "states"), (COMMANDS[fam][1], p["us"][:len(cs)], cs, "commands")]
        if cs != ts:
            labels.append("other times of commands")
        lines = {}
        for ax in fig.axes:
            for ln in ax.lines:
                lines.setdefault(ln.get_label(), []).append(([float(v) for v in ln.get_xdata()], list(ln.get_ydata())))
                # between two samples: states are interpolated, a command holds from its time on
                if ln.get_label() in COMMANDS[fam][1] and ln.get_label() not in STATES[fam][1] and len(ln.get_xdata()) > 1:
                    xd, yd = np.asarray(ln.get_xdata(), dtype=float), np.asarray(ln.get_ydata(), dtype=float)
                    xd, yd = STEP_LOOKUP_MAP[ln.get_drawstyle()](xd, yd)
                    for a, b in zip(cs[:-1], cs[1:]):
                        m = (a + b) / 2
                        ensure_close(float(np.interp(m, xd, yd)), float(getattr(lg.commands.at_or_previous(m), ln.get_label())),
                                     f"the command shown between two samples is not the one in force ({ln.get_label()} at {m})", rtol=1e-6, atol=1e-9)
                        labels.append("between samples")
                elif ln.get_label() in STATES[fam][1] and ln.get_label() not in COMMANDS[fam][1]:
                    ensure(ln.get_drawstyle() == "default", "states are not interpolated between samples", field=ln.get_label(), style=ln.get_drawstyle())
        for names, vals, at, what in expect:
            for nm in names:
                want = (at, [v[nm] for v in vals])
                ensure(any(len(a) == len(want[0]) and np.allclose(a, want[0], rtol=1e-9, atol=1e-9) and len(b) == len(want[1]) and all(isinstance(c, (int, float, np.number)) and float(c) == float(d) for c, d in zip(b, want[1])) for a, b in lines.get(nm, [])),
                       f"the {what} shown are not the logged ones", field=nm, expected=want, shown=lines.get(nm))
        plt.close("all")
        fig = plt.figure(figsize=(2, 2))
        plot_players_logs(log, fig, None if case["only"] is None else set(case["only"]))
        xs = [list(ln.get_ydata()) for ax in fig.axes for ln in ax.lines if ln.get_label() == "x"]
        wanted = [[x["x"] for x in q["xs"]] for q in case["players"] if case["only"] is None or q["name"] in case["only"]]
        ensure(sorted(map(tuple, xs)) == sorted(map(tuple, wanted)), "the players shown are not the selected ones", only=case["only"])
        if case["only"] is not None:
            labels.append("filtered")
    finally:
        plt.close("all")
    return tuple(labels)


@st.composite
def trajs(draw):
    def one():
        k = draw(st.integers(1, 6))
        t = draw(st.integers(0, 5))
        return dict(t=t, xs=[dict(x=draw(nice(-50, 50)), y=draw(nice(-50, 50)), psi=draw(fl(-3, 3)), vx=draw(fl(-5, 20)), delta=0.0) for _ in range(k)])

    def batch():
        n = draw(st.integers(1, 4))
        return [one() for _ in range(n)]

    return dict(rounds=[batch() for _ in range(draw(st.integers(1, 3)))], colors=draw(st.booleans()), body=draw(model_case(fams=("vehicle",))))


def mk_traj(s):
    return Trajectory([D(s["t"]) + i for i in range(len(s["xs"]))], [VehicleState(**x) for x in s["xs"]])


@subtest(P, trajs, quick=250, shards=2, need=("redrawn", "colours", "by player"))
def trajectories_are_drawn_where_they_are(case):
    palette = ["red", "blue", "green", "orange"]
    labels = set()
    ctx = ctx_of({"P1": case["body"]})
    with renderer(ctx) as (r, ax):
        lines = points = None
        for k, batch in enumerate(case["rounds"]):
            ts = [mk_traj(s) for s in batch]
            kw = dict(colors=palette[: len(ts)]) if case["colors"] else {}
            lines, points = r.plot_trajectories(ax=ax, player_name="P1", trajectories=ts, traj_lines=lines, traj_points=points, **kw)
            segs = lines.get_segments()
            ensure(len(segs) == len(ts), "number of trajectories shown", shown=len(segs), n=len(ts))
            for i, (sg, s) in enumerate(zip(segs, batch)):
                ensure_close(np.asarray(sg), [[x["x"], x["y"]] for x in s["xs"]], "a trajectory is not shown where it is", rtol=1e-12, atol=1e-12)
                if case["colors"]:
                    labels.add("colours")
                    ensure_close(lines.get_colors()[i], to_rgba(palette[i]), "colour of a trajectory")
            ensure_close(np.asarray(points.get_offsets()), [[x["x"], x["y"]] for s in batch for x in s["xs"]], "the samples are not shown where they are", rtol=1e-12, atol=1e-12)
            ensure(lines in ax.collections and points in ax.collections, "the trajectories are not on the axes")
            labels.add("by player")
            if k:
                labels.add("redrawn")
    return tuple(sorted(labels))


def has_arrow(ax, base, vec):
    """There is an arrow from `base` along `vec` (its head may stick out by a little)."""
    base, vec = np.asarray(base, dtype=float), np.asarray(vec, dtype=float)
    n = float(np.hypot(*vec))
    if n < 0.02:  # hardly visible
        return True
    u = vec / n
    for pt in ax.patches:
        if isinstance(pt, FancyArrow):
            xy = np.asarray(pt.get_xy(), dtype=float)
            if len(xy) < 3:
                continue
            along, across = (xy - base) @ u, (xy - base) @ np.array([-u[1], u[0]])
            tip = int(np.argmax(along))
            if abs(along.min()) < 0.05 + 1e-6 * abs(base).max() and np.abs(across).max() < 0.06 and abs(across[tip]) < 1e-3 and -1e-6 <= along[tip] - n <= 0.15:
                return True
    return False


@subtest(P, lambda: world.worlds(dense=True, goals=False, vandal=False, sensors=False, steps=8), quick=200, shards=4,
         need=("collision", "with the environment", "arrow: velocity before", "arrow: velocity after", "arrow: velocity of the impact point"))
def collisions_are_drawn_as_reported(case):
    ctx = world.run(case)
    labels = set()
    resolved = [r for r in ctx.collision_reports if r.impact_point is not None and all(r.players.values())]
    for rep in resolved[:3]:
        with figure(figsize=(3, 3)) as (fig, ax):
            plot_collision(rep, ctx.log)
            ensure(fig.axes == [ax] or fig.axes[0] is ax, "drawn elsewhere")
            lines = [np.array([np.asarray(ln.get_xdata(), dtype=float), np.asarray(ln.get_ydata(), dtype=float)]) for ln in ax.lines]
            texts = [(tx.get_text(), np.array(tx.get_position(), dtype=float)) for tx in ax.texts]
            pt = np.array(rep.impact_point.coords[0])
            ensure(any(l.shape == (2, 1) and np.allclose(l[:, 0], pt) for l in lines), "the impact point is not shown", point=pt.tolist())
            ensure(has_arrow(ax, pt, 0.2 * np.asarray(rep.impact_normal)), "the normal of the impact is not shown at the impact point", point=pt.tolist(), normal=list(rep.impact_normal))
            for name, pr in rep.players.items():
                c = pr.footprint.centroid.coords[0]
                if name in ctx.log:
                    s = ctx.log[name].at_interp(rep.at_time).state
                    c = (s.x, s.y)
                w, lever = pr.velocity[1], pt - np.array(c)
                at_p = np.asarray(pr.velocity[0]) + w * np.array([-lever[1], lever[0]])
                for what, o, vel in (("velocity before", c, pr.velocity[0]), ("velocity after", c, pr.velocity_after[0]), ("velocity of the impact point", pt, at_p)):
                    ensure(has_arrow(ax, o, 0.3 * np.asarray(vel)), f"the {what} is not shown", player=name, base=list(o), velocity=list(vel))
                    if np.hypot(*vel) > 0.1:
                        labels.add("arrow: " + what)
                exp = np.array(pr.footprint.exterior.xy)
                ensure(any(l.shape == exp.shape and np.allclose(l, exp) for l in lines), "the body of a player is not shown where it was at the impact", player=name)
                where = [pos for tx, pos in texts if tx == str(name)]
                ensure(len(where) == 1, "name of a player", player=name)
                ensure(Polygon(pr.footprint.exterior).buffer(0.5).contains(Point(*where[0])), "a name is not at its player", player=name, at=where[0].tolist())
                for what, vel in (("before", pr.velocity), ("after", pr.velocity_after)):
                    ensure(any(tx == f"{vel[1]:.3f}" for tx, _ in texts), "the yaw rate of a player is not shown", what=what, player=name)
                for loc, poly in pr.locations:
                    ensure(has_region(ax, poly) or poly.area < 1e-9, "an impact region is not shown", region=loc, player=name)
                    ensure(any(tx == str(loc) for tx, _ in texts), "an impact region is not named", region=loc)
                labels.add("collision")
                if name not in ctx.log:
                    labels.add("with the environment")
    return tuple(sorted(labels)) or None
