from __future__ import annotations

import dataclasses
import inspect
import math
from decimal import Decimal as D

import numpy as np
from geometry import xytheta_from_SE2
from hypothesis import strategies as st
from shapely.geometry import Point, Polygon
from shapely.ops import unary_union

from dg_commons.sim.collision_structures import IMPACT_BACK, IMPACT_FRONT, IMPACT_LEFT, IMPACT_RIGHT
from dg_commons.sim.models.diff_drive import DiffDriveModel
from dg_commons.sim.models.pedestrian import PedestrianModel
from dg_commons.sim.models.rocket import RocketModel
from dg_commons.sim.models.spacecraft import SpacecraftModel
from dg_commons.sim.models.spaceship import SpaceshipModel
from dg_commons.sim.models.tires import Pacejka
from dg_commons.sim.models.utils import kmh2ms, ms2kmh, ms2mph
from dg_commons.sim.models.vehicle import VehicleModel, VehicleState
from dg_commons.sim.models.vehicle_dynamic import VehicleModelDyn
from pbt.core import ensure, ensure_close, subtest
from pbt.gens import BIG_ANGLE, fl, wrap
from pbt.zoo import COMMANDS, DYN_SHAPE, FAMILIES, STATES, cmd_of, mk_cmd, mk_geometry, mk_model, mk_params, mk_state, model_case, model_cmd_case, sdict, svec

P = "C08"
RULE = ("random model family, geometry, pose, velocity; the velocity is compared with the model's own pose derivative and finite differences, "
        "footprints and impact regions with an independent rigid transform of the outline; non-trivial = moving / rotated bodies")
ASSUMPTIONS = ["the yaw rate of a pedestrian is excluded (its heading follows the command directly, its dpsi state is a residual spin)",
               "the dynamic vehicle below 0.1 m/s is excluded (there it moves kinematically, its lateral and yaw rate states are not used)"]


def rot(a, v):
    c, s = math.cos(a), math.sin(a)
    return np.array([c * v[0] - s * v[1], s * v[0] + c * v[1]])


def maybe_collided(s):
    return st.tuples(s, st.sampled_from([False, False, True])).map(lambda q: dict(q[0], hit=q[1]))


@subtest(P, lambda: maybe_collided(model_cmd_case(over=1.0, dts=(0.05, 0.1))), quick=2000, shards=2, need=tuple(FAMILIES) + ("collided",))
def velocity_is_the_derivative_of_the_pose(case):
    fam, x = case["fam"], case["x"]
    m = mk_model(case)
    m.has_collided = case.get("hit", False)
    u = mk_cmd(fam, case["u"])
    if fam == "diff_drive":  # its velocity follows from the commands it is executing
        m.update(u, D(str(case["dt"])))
        x = sdict(fam, m.get_state())
    if fam == "vehicle_dyn" and x["vx"] < 0.1:
        return None
    d = sdict(fam, m.dynamics(mk_state(fam, x), u))
    v, w = m.get_velocity(in_model_frame=False)
    if fam == "diff_drive" and m.has_collided:  # its wheels are blocked
        d = dict(x=0.0, y=0.0, psi=0.0)
    ensure_close(v, [d["x"], d["y"]], f"{fam}: global velocity is not the derivative of the position", rtol=1e-9, atol=1e-9)
    if fam != "pedestrian":
        ensure_close(w, d["psi"], f"{fam}: yaw rate is not the derivative of the heading", rtol=1e-9, atol=1e-9)
    vl, wl = m.get_velocity(in_model_frame=True)
    ensure_close(vl, rot(-x["psi"], np.asarray(v, dtype=float)), f"{fam}: body-frame velocity is another vector", rtol=1e-9, atol=1e-9)
    ensure_close(wl, w, "yaw rate depends on the frame")
    ensure(svec(fam, m.get_state()).tolist() == [x[k] for k in STATES[fam][1]], "asking for the velocity changed the state")
    # black box: the body is really there a moment later
    h = 1e-4
    p0 = np.asarray(m.get_pose())[:2, 2]
    m.update(u, D(str(h)))
    p1 = np.asarray(m.get_pose())[:2, 2]
    if fam == "vehicle_dyn" and x["vx"] < 0.11:  # it may have slowed down to where it moves kinematically
        return None
    ensure_close((p1 - p0) / h, v, f"{fam}: distance covered right after", rtol=2e-2, atol=2e-2 + 1e-9 / h * (abs(x["x"]) + abs(x["y"])))
    if m.has_collided:
        return "collided"
    return fam if np.hypot(*v) > 1e-3 else None


@st.composite
def setting(draw):
    c = draw(model_case())
    part = lambda hi: st.one_of(fl(-hi, hi), fl(-hi, hi), st.sampled_from([0.0, 0.0, 1e-3, -1e-3]))  # noqa: E731
    c["v"] = [draw(part(20)), draw(part(20))]
    c["w"] = draw(part(3))
    c["frame"] = draw(st.booleans())
    return c


@subtest(P, setting, quick=1600, need=tuple(FAMILIES))
def set_and_get_velocity(case):
    fam, x = case["fam"], case["x"]
    m = mk_model(case)
    pose0 = np.asarray(m.get_pose()).tolist()
    v = np.array(case["v"])
    earlier, handed = m.get_state(), m.get_state()
    for k in STATES[fam][1]:  # a state which was handed out is the receiver's own
        setattr(handed, k, getattr(handed, k) + 1)
    ensure(sdict(fam, m.get_state()) == sdict(fam, earlier), f"{fam}: altering a state which was read alters the body")
    m.set_velocity(v.copy(), case["w"], in_model_frame=case["frame"])
    ensure(sdict(fam, earlier) == {k: x[k] for k in sdict(fam, earlier)}, f"{fam}: a state read earlier was altered by setting the velocity")
    s = sdict(fam, m.get_state())
    for k in ("x", "y", "psi", "delta", "m", "phi"):
        if k in s:
            ensure(s[k] == x[k], f"set_velocity changed {k}", before=x[k], after=s[k])
    ensure(np.asarray(m.get_pose()).tolist() == pose0, "set_velocity moved the body")
    gv, gw = m.get_velocity(in_model_frame=False)
    lv, lw = m.get_velocity(in_model_frame=True)
    expl = v if case["frame"] else rot(-x["psi"], v)
    expg = rot(x["psi"], v) if case["frame"] else v
    if fam == "diff_drive":
        ensure(svec(fam, m.get_state()).tolist() == [x[k] for k in STATES[fam][1]], "state of a wheeled robot changed")
        return fam
    if fam == "vehicle":  # no side slip: only the longitudinal part can be set
        ensure_close(lv[0], expl[0], "longitudinal velocity", rtol=1e-9, atol=1e-9)
        ensure_close(gv, rot(x["psi"], lv), "frames disagree", rtol=1e-9, atol=1e-9)
        return fam
    ensure_close(gv, expg, f"{fam}: velocity read back in the global frame", rtol=1e-9, atol=1e-8)
    ensure_close(lv, expl, f"{fam}: velocity read back in the body frame", rtol=1e-9, atol=1e-8)
    ensure(gw == case["w"] and lw == case["w"], f"{fam}: yaw rate read back", got=[gw, lw], expected=case["w"])
    return fam


@st.composite
def placed(draw):
    c = draw(maybe_collided(model_case()))
    body = draw(st.sampled_from(["plain", "round", "hollow", "dented"])) if c["fam"] == "dyn_obstacle" and c["g"] else "plain"
    if body != "plain":  # bodies of many vertices, with an opening, with a dent in a long side
        n = draw(st.integers(40, 160))
        shape = [[1.5 * math.cos(2 * math.pi * i / n), 1.1 * math.sin(2 * math.pi * i / n)] for i in range(n)]
        c["g"] = dict(c["g"], shape=shape if body != "dented" else [[-2, -1], [0.0, -1 + draw(st.sampled_from([1e-3, 1e-2, -1e-3]))], [2, -1], [2, 1], [-2, 1]])
        if body == "hollow":
            c["g"]["holes"] = [[[-0.5, -0.3], [0.6, -0.4], [0.2, 0.5]]]
    return c


def place(q, pts):
    return [tuple(rot(q[2], p) + np.array(q[:2])) for p in pts]


REGION_SIDE = {IMPACT_FRONT: (1, 0), IMPACT_BACK: (-1, 0), IMPACT_LEFT: (0, 1), IMPACT_RIGHT: (0, -1)}


@subtest(P, placed, quick=1200, shards=2, need=tuple(FAMILIES) + ("hollow",))
def footprint_and_mesh(case):
    fam, x = case["fam"], case["x"]
    m = mk_model(case)
    m.has_collided = case.get("hit", False)
    g = m.model_geometry
    q = [x["x"], x["y"], x["psi"]]
    pose = xytheta_from_SE2(m.get_pose())
    ensure_close(pose[:2], q[:2], "position of the pose", rtol=1e-12, atol=1e-12)
    ensure(abs(wrap(pose[2] - q[2])) < 1e-9, "heading of the pose")
    outline = ((case["g"] or {}).get("shape") or DYN_SHAPE) if fam == "dyn_obstacle" else list(g.outline)
    holes = (case["g"] or {}).get("holes") or []
    ref = Polygon(outline, holes)
    put = lambda at: Polygon(place(at, [p[:2] for p in outline]), [place(at, h) for h in holes])  # noqa: E731
    expected = put(q)
    fp = m.get_footprint()
    ensure(fp.is_valid and fp.geom_type == "Polygon", "the footprint is not a valid polygon")
    size = math.sqrt(ref.area)
    ensure_close(fp.area, ref.area, f"{fam}: area of the footprint", rtol=1e-9)
    ensure(fp.symmetric_difference(expected).area <= 1e-6 * (1 + abs(q[0]) + abs(q[1])) * math.sqrt(ref.area), f"{fam}: footprint covers something else than the outline placed at the pose")
    ensure(fp.hausdorff_distance(expected) <= 1e-7 * (1 + abs(q[0]) + abs(q[1])), f"{fam}: footprint is not the outline placed at the pose", distance=fp.hausdorff_distance(expected))
    tiny = mk_model(case)  # moved only a little, it is placed anew
    for _ in range(2):
        tiny.get_footprint(), tiny.get_mesh()
        tiny.update(mk_cmd(fam, {k: 0.0 for k in COMMANDS[fam][1]}), D("0.0001"))
        t = sdict(fam, tiny.get_state())
        exp = put([t["x"], t["y"], t["psi"]])
        tol = 1e-9 * (1 + abs(q[0]) + abs(q[1]))
        ensure(tiny.get_footprint().hausdorff_distance(exp) <= tol, f"{fam}: after a small motion the footprint is not at the pose")
        ensure(unary_union([r.buffer(0) for r in tiny.get_mesh().values()]).hausdorff_distance(exp) <= 1e-6 + tol, f"{fam}: after a small motion the impact regions are not at the pose")
    mesh = m.get_mesh()
    ensure(len(mesh) >= 1 and len(set(mesh)) == len(mesh), "names of the impact regions")
    for k, r in mesh.items():
        ensure(r.is_valid and r.area > 1e-3 * ref.area, f"{fam}: degenerate impact region", region=k, area=r.area)
    union = unary_union([r.buffer(0) for r in mesh.values()])
    ensure(union.symmetric_difference(fp).area <= 1e-6 * ref.area, f"{fam}: the impact regions do not cover exactly the footprint",
           missing=fp.difference(union).area, outside=union.difference(fp).area)
    ensure(sum(r.area for r in mesh.values()) <= ref.area * (1 + 1e-6), f"{fam}: impact regions overlap")
    c0 = np.array(ref.centroid.coords[0])
    for k, r in mesh.items():
        if k in REGION_SIDE:  # each region contains the part of the body it is named after
            a = np.array(REGION_SIDE[k], dtype=float)
            ext = max(float(np.dot(np.array(p[:2]) - c0, a)) for p in outline)
            pt = Point(*place(q, [tuple(c0 + a * 0.9 * ext)])[0])
            ensure(r.buffer(1e-6).contains(pt), f"{fam}: region {k} is not on the {k} side of the body")
    return (fam, "mesh") if len(mesh) > 1 else (fam, "hollow") if holes else fam


@subtest(P, lambda: model_cmd_case(over=1.0), quick=500, need=tuple(FAMILIES))
def body_data_do_not_depend_on_the_state(case):
    fam = case["fam"]
    m = mk_model(case)
    g0, p0, t0 = m.model_geometry, m.model_params, m.model_type
    ensure(g0 == mk_geometry(fam, case["kind"], case["g"]) and p0 == mk_params(fam, case["kind"], case["p"]), "geometry/parameters are not the given ones")
    before = (g0.m, g0.Iz, g0.e, hash(g0))
    m.update(mk_cmd(fam, case["u"]), D(str(case["dt"])))
    m.get_footprint(), m.get_mesh()
    m.set_velocity(np.array([1.0, 2.0]), 0.5, in_model_frame=False)
    ensure(m.model_geometry == g0 and m.model_params == p0 and m.model_type == t0, "geometry or parameters changed")
    ensure((g0.m, g0.Iz, g0.e, hash(g0)) == before, "mass properties changed")
    return fam


@st.composite
def vg(draw):
    kind = draw(st.sampled_from(["car", "truck", "bicycle"]))
    c = draw(model_case(fams=("vehicle",)))
    c["delta"] = draw(fl(-1, 1))
    return c


@subtest(P, vg, quick=500, need=("car", "truck", "bicycle"))
def vehicle_geometry_is_consistent(case):
    g = mk_geometry("vehicle", case["kind"], case["g"])
    o = Polygon(g.outline)
    minx, miny, maxx, maxy = o.bounds
    ensure_close(maxx - minx, g.length, "length of the outline")
    ensure(g.width <= maxy - miny + 1e-9, "width of the outline")
    ensure_close(g.wheelbase, g.lf + g.lr, "wheelbase")
    ensure_close(-miny, maxy, "the outline is symmetric")
    wp = np.asarray(g.wheels_position)
    n = g.n_wheels
    ensure(n == (2 if case["kind"] == "bicycle" else 4), "number of wheels", n=n)
    ensure_close(sorted(set(wp[0])), sorted({g.lf, -g.lr}), "axles")
    half, rad = g.wheel_shape
    wheels = g.get_rotated_wheels_outlines(case["delta"])
    ensure(len(wheels) == n, "number of wheel outlines")
    for i, w in enumerate(wheels):
        w = np.asarray(w)
        ensure_close(w[:2, :4].mean(axis=1), wp[:2, i], "a wheel is not at its place", atol=1e-9)
        ang = case["delta"] if wp[0, i] > 0 else 0.0
        exp = np.array(place([wp[0, i], wp[1, i], ang], [(rad, -half), (-rad, -half), (-rad, half), (rad, half)])).T
        ensure_close(w[:2, :4], exp, "outline of a wheel (front wheels turn, rear wheels do not)", atol=1e-9)
        if ang == 0.0:
            ensure(o.buffer(1e-6).contains(Polygon(w[:2].T)), "a wheel sticks out of the body")
    for name, (lx, ly) in g.lights_position.items():
        ensure((lx > 0) == name.startswith("front") and (ly > 0) == name.endswith("left"), "a light is on the wrong side", light=name, at=[lx, ly])
        ensure(o.buffer(1e-6).contains(Point(lx, ly)), "a light is not on the body", light=name)
        ensure_close(lx, o.bounds[2] if name.startswith("front") else o.bounds[0], "a light is not at the end of the body", atol=1e-6)
    return case["kind"]


DEFAULT = {"vehicle": VehicleModel, "vehicle_dyn": VehicleModelDyn, "pedestrian": PedestrianModel, "diff_drive": DiffDriveModel, "spacecraft": SpacecraftModel,
           "spaceship": SpaceshipModel, "rocket": RocketModel}


@subtest(P, lambda: model_cmd_case(fams=tuple(DEFAULT), over=1.0, dts=(0.05, 0.1)), quick=250, need=tuple(DEFAULT) + ("car", "truck", "bicycle"))
def default_bodies_are_those_of_the_default_parts(case):
    """A model from a default factory is the one which is put together from the default geometry and parameters of its kind."""
    fam, kind = case["fam"], case["kind"]
    x, u = mk_state(fam, case["x"]), mk_cmd(fam, case["u"])
    factory = getattr(DEFAULT[fam], f"default_{kind}" if kind else "default")
    got, exp = factory(x), mk_model({**case, "p": None, "g": None})
    ensure(type(got) is type(exp), "type of the model", got=str(type(got)))
    ensure(got.get_state() == x, "the default model does not start in the given state", got=str(got.get_state()))
    if fam == "vehicle_dyn":
        ensure((got.pacejka_front, got.pacejka_rear) == (getattr(Pacejka, f"default_{kind}_front")(), getattr(Pacejka, f"default_{kind}_rear")()), "tyres of the default model")
        low = x.to_vehicle_state()
        ensure(type(low) is VehicleState, "kinematic state")
        ensure_close([low.x, low.y, low.psi, low.vx, low.delta], [case["x"][k] for k in ("x", "y", "psi", "vx", "delta")], "kinematic part of the state", rtol=0, atol=0)
    ensure(got.model_geometry == exp.model_geometry, "geometry of the default model", got=str(got.model_geometry))
    ensure(got.get_footprint().symmetric_difference(exp.get_footprint()).area < 1e-9, "footprint of the default model")
    ensure(got.model_params == exp.model_params, "parameters of the default model", got=str(got.model_params))
    dyn_a, dyn_b = got.dynamics(x, u), exp.dynamics(x, u)
    if isinstance(dyn_a, tuple):
        dyn_a, dyn_b = dyn_a[0], dyn_b[0]
    ensure_close(svec(fam, dyn_a), svec(fam, dyn_b), "dynamics of the default model", rtol=1e-12, atol=1e-12)
    for m in (got, exp):
        m.update(u, D(str(case["dt"])))
    ensure_close(svec(fam, got.get_state()), svec(fam, exp.get_state()), "motion of the default model", rtol=1e-12, atol=1e-12)
    return (fam, kind) if kind else (fam,)


@subtest(P, lambda: st.fixed_dictionaries(dict(v=st.one_of(fl(-200, 200), st.integers(-100, 100)))), quick=150)
def speeds_convert_between_units(case):
    v = case["v"]
    ensure_close(ms2kmh(v) / 1000.0, v * 3600.0 / 1e6, "m/s to km/h", rtol=1e-12)
    ensure_close(kmh2ms(ms2kmh(v)), v, "km/h and back", rtol=1e-12)
    ensure_close(ms2mph(v), v * 3600.0 / 1609.344, "m/s to miles per hour", rtol=1e-5)


def same(a, b):
    seq = (list, tuple)
    return list(a) == list(b) if isinstance(a, seq) and isinstance(b, seq) else a == b


@subtest(P, placed, quick=1000, need=("given geometry", "given parameters", "parameter factory", "spacecraft", "spaceship", "rocket", "diff_drive", "turned nozzle"))
def bodies_are_built_as_asked(case):
    """Every value given to a factory is the value of the body, and the outline has the given dimensions."""
    fam, kind = case["fam"], case["kind"]
    g, p = mk_geometry(fam, kind, case["g"]), mk_params(fam, kind, case["p"])
    labels = [fam]
    for obj, given, what in ((g, case["g"], "geometry"), (p, case["p"], "parameters")):
        for k, val in (given or {}).items():
            if k in ("shape", "holes"):
                continue
            labels.append(f"given {what}")
            ensure(same(getattr(obj, k), val), f"{fam}: the {what} built are not the given ones", field=k, given=val, got=getattr(obj, k))
    factory = getattr(type(p), "default", None) or getattr(type(p), f"default_{kind}", None)
    if factory is not None and case["p"]:
        accepted = {k: tuple(v) if isinstance(v, list) else v for k, v in case["p"].items() if k in inspect.signature(factory).parameters}
        built, plain = factory(**accepted), factory()
        for k in dataclasses.fields(type(p)):
            expected = accepted[k.name] if k.name in accepted else getattr(plain, k.name)
            ensure(getattr(built, k.name) == expected, f"{fam}: a default factory lost a value it was given", field=k.name, expected=expected, got=getattr(built, k.name))
            if k.name in accepted:
                labels.append("parameter factory")
    if fam in ("spacecraft", "spaceship", "rocket", "diff_drive"):
        back, front, half = {
            "spacecraft": lambda: (g.lr, g.lf, g.w_half),
            "spaceship": lambda: (g.l_r, g.l_f + g.l_c, g.w_half),
            "rocket": lambda: (g.l_r, g.l_m + g.l_f + g.l_c, g.w_half),
            "diff_drive": lambda: (g.radius, g.radius, g.radius),
        }[fam]()
        poly = Polygon(g.outline)
        ensure(poly.is_valid, "the outline is not a simple polygon")
        ensure_close(poly.bounds, [-back, -half, front, half], f"{fam}: extents of the outline (rear, right, front, left)", rtol=1e-6, atol=1e-6)
        ensure_close(g.width, 2 * half, f"{fam}: width", rtol=1e-9)
        mirrored = Polygon([(a, -b) for a, b in g.outline])
        ensure(mirrored.symmetric_difference(poly).area <= 1e-6 * poly.area, f"{fam}: the outline is not symmetric")
        if fam == "rocket":
            ensure_close(g.l, back + front, "total length of the rocket")
        elif fam == "spaceship":
            ensure_close(g.l, back + front, "total length of the spaceship")
        if fam != "diff_drive":  # the shape: a rectangle with a round nose, or a rectangle with a triangular cone
            if fam == "spacecraft":
                nose = [(front * math.cos(a), half * math.sin(a)) for a in np.linspace(-math.pi / 2, math.pi / 2, 200)]
                exact = Polygon([(-back, half), (-back, -half), *nose])
            else:
                exact = Polygon([(-back, half), (-back, -half), (front - g.l_c, -half), (front, 0.0), (front - g.l_c, half)])
            ensure(poly.difference(exact).area <= 2e-4 * exact.area, f"{fam}: the outline exceeds the body", area=poly.area, expected=exact.area)
            ensure(exact.difference(poly).area <= (1e-2 if fam == "spacecraft" else 1e-6) * exact.area, f"{fam}: shape of the outline", area=poly.area, expected=exact.area)
        if fam == "diff_drive":
            ensure_close(poly.area, math.pi * half**2, "area of a round robot", rtol=1e-2)
            wp = np.asarray(g.wheels_position)
            ensure_close(abs(wp[1, 0] - wp[1, 1]), g.wheelbase, "distance between the wheels")
            ensure_close(wp[1, 0] + wp[1, 1], 0.0, "wheels are not symmetric", atol=1e-12)
            ensure_close(wp[0], [0.0, 0.0], "the wheels are not on the axis through the centre", atol=1e-12)
            for i, w in enumerate(g.wheels_outlines):  # a wheel is centred on its mount and as long as its diameter
                w = np.asarray(w)[:2]
                ensure_close((w.max(axis=1) + w.min(axis=1)) / 2, wp[:2, i], "a wheel is not at its place", atol=1e-12)
                ensure_close(w.max(axis=1) - w.min(axis=1), [2 * g.wheelradius, 2 * g.wheel_shape[0]], "size of a wheel", atol=1e-12)
        if fam in ("spacecraft", "spaceship", "rocket"):
            phi = case["x"].get("phi", case["x"].get("delta", 0.0))
            outs = g.thrusters_outline_in_body_frame if fam == "spacecraft" else g.thrusters_outline_in_body_frame(phi)
            ensure(len(outs) == g.n_thrusters, f"{fam}: number of thrusters drawn", n=len(outs))
            pos = g.thrusters_position if fam == "spacecraft" else g.thrusters_position(phi)
            half_w, half_l = g.thruster_shape if fam == "spacecraft" else (g.w_t_half, g.l_t_half / 2)
            # a nozzle turns with its joint: it points away from the direction in which it pushes the body
            mounts = {
                "spacecraft": [(-back, -half, 0.0), (-back, half, 0.0)],
                "spaceship": [(-back, 0.0, phi + math.pi)],
                "rocket": [(g.l_m, -half / 10, phi + math.pi / 2), (g.l_m, half / 10, -phi - math.pi / 2)] if fam == "rocket" else None,
            }[fam]
            for ring, q, (mx, my, ang) in zip(outs, pos, mounts):
                ensure_close(np.asarray(q), [[math.cos(ang), -math.sin(ang), mx], [math.sin(ang), math.cos(ang), my], [0, 0, 1]], f"{fam}: where a nozzle is mounted", atol=1e-9, phi=phi)
                axis = np.mean(np.asarray(ring)[:-1, :2], axis=0) - (mx, my)
                ensure_close(axis, [0, 0] if fam == "spacecraft" else [half_l * math.cos(ang), half_l * math.sin(ang)], f"{fam}: direction of a nozzle", atol=1e-6, phi=phi)
                if abs(phi) > 0.05:
                    labels.append("turned nozzle")
            for ring, q in zip(outs, pos):  # a nozzle: a rectangle of the given size, symmetric about the axis it is mounted on
                nozzle = Polygon(ring)
                ensure(nozzle.is_valid, f"{fam}: a nozzle is not a simple polygon", ring=[list(a) for a in ring])
                ensure_close(nozzle.area, 4 * half_w * half_l, f"{fam}: size of a nozzle", rtol=1e-6, atol=1e-9)
                q = np.asarray(q)
                local = Polygon((np.asarray(ring)[:, :2] - q[:2, 2]) @ q[:2, :2])
                mirror = Polygon([(a, -b) for a, b in local.exterior.coords])
                ensure(local.symmetric_difference(mirror).area <= 1e-6 * nozzle.area, f"{fam}: a nozzle is not symmetric about its axis")
                ensure_close([local.bounds[1], local.bounds[3]], [-half_w, half_w], f"{fam}: width of a nozzle", rtol=1e-6, atol=1e-9)
    return labels
