from __future__ import annotations

import copy
import math

import numpy as np
from hypothesis import strategies as st
from shapely import affinity
from shapely.geometry import LineString
from shapely.geometry import box as shp_box

from dg_commons.sim.collision import EnvPlayer, resolve_collision, resolve_collision_with_environment
from dg_commons.sim.collision_utils import CollisionException
from dg_commons.sim.models.obstacles import StaticObstacle
from dg_commons.sim.scenarios.structures import DgScenario
from dg_commons.sim.simulator import SimContext
from dg_commons.sim.simulator_structures import SimParameters
from dg_commons.sim.agents.agent import NPAgent
from dg_commons.seq import DgSampledSequence
from pbt.core import ensure, ensure_close, subtest
from pbt.gens import ANGLE, fl, nice
from pbt.zoo import STATES, geometry_of, mk_model, mk_params, state_of, svec

P = "C09"
RULE = ("two random bodies (all model families whose velocity is free) are brought to a random overlap depth along a random direction and get random "
        "velocities; the outcome of the collision resolution is compared with the laws of impact; non-trivial = the collision was resolved "
        "(label 'resolved') or recognised as separating ('separating')")
ASSUMPTIONS = ["bodies with free planar velocity only (the kinematic bicycle and the differential drive cannot take a lateral velocity or spin)",
               "energy in the reports is translational kinetic energy, as documented in the code",
               "where the impact geometry is documented as unsupported (CollisionException) nothing is required here (C10, C13)",
               "static obstacles have infinite mass (the default)"]
DYN = ("vehicle_dyn", "pedestrian", "spacecraft", "spaceship", "rocket", "dyn_obstacle")


def rot(a, v):
    c, s = math.cos(a), math.sin(a)
    return np.array([c * v[0] - s * v[1], s * v[0] + c * v[1]])


def cross(a, b):
    return float(a[0] * b[1] - a[1] * b[0])


@st.composite
def body(draw):
    fam = draw(st.sampled_from(DYN))
    kind = draw(st.sampled_from(("car", "truck", "bicycle"))) if fam == "vehicle_dyn" else None
    g = draw(geometry_of(fam, kind)) or {}
    e = draw(st.sampled_from([None, 0.0, 1.0, 0.2, 0.6]))
    if e is not None:
        g = {**g, "e": e}
    x = draw(state_of(fam, mk_params(fam, kind, None), 20.0))
    sp = draw(st.sampled_from([0.0, 1.0, 6.0, 20.0]))
    return dict(fam=fam, kind=kind, p=None, g=g or None, x=x, v=[draw(fl(-sp, sp)), draw(fl(-sp, sp))], w=draw(st.one_of(st.just(0.0), fl(-3, 3))))


@st.composite
def pair(draw):
    return dict(a=draw(body()), b=draw(body()), dir=draw(ANGLE), depth=draw(st.one_of(fl(0.005, 0.4), fl(1e-4, 0.02))),
                closing=draw(st.one_of(st.none(), fl(0.0, 15.0), fl(15.0, 90.0))), off=draw(fl(-0.8, 0.8)))


def set_pose(b, x, y, psi):
    b["x"].update(x=x, y=y, psi=psi)


def place(case):
    """Bring B towards A along the direction until they overlap by `depth`; give them a closing velocity."""
    a, b = copy.deepcopy(case["a"]), copy.deepcopy(case["b"])
    d = np.array([math.cos(case["dir"]), math.sin(case["dir"])])
    lat = np.array([-d[1], d[0]])
    pa = np.array([a["x"]["x"], a["x"]["y"]])
    fa = mk_model(a).get_footprint()

    set_pose(b, 0.0, 0.0, b["x"]["psi"])
    fb = mk_model(b).get_footprint()

    def at(r):
        q = pa + d * r + lat * case["off"]
        set_pose(b, float(q[0]), float(q[1]), b["x"]["psi"])
        return affinity.translate(fb, float(q[0]), float(q[1]))

    # farthest distance at which they still overlap
    lo, hi = None, 20.25
    for r in np.arange(20.0, -0.01, -0.25):
        if fa.intersects(at(float(r))):
            lo = float(r)
            break
        hi = float(r)
    if lo is None:
        return None
    for _ in range(40):
        mid = 0.5 * (lo + hi)
        if fa.intersects(at(mid)):
            lo = mid
        else:
            hi = mid
    at(lo - case["depth"])
    if case["closing"] is not None:
        a["v"] = (np.array(a["v"]) * 0.2 + d * case["closing"] * 0.6).tolist()
        b["v"] = (np.array(b["v"]) * 0.2 - d * case["closing"] * 0.6).tolist()
    return a, b


def build(c, tf=(0.0, 0.0, 0.0), v0=(0.0, 0.0)):
    c = copy.deepcopy(c)
    q = rot(tf[2], [c["x"]["x"], c["x"]["y"]]) + np.array(tf[:2])
    set_pose(c, float(q[0]), float(q[1]), c["x"]["psi"] + tf[2])
    m = mk_model(c)
    m.set_velocity(rot(tf[2], c["v"]) + np.array(v0), c["w"], in_model_frame=False)
    return m


def ctx_of(models: dict):
    return SimContext(dg_scenario=DgScenario(), models=models, players={k: NPAgent(DgSampledSequence(timestamps=[0], values=[0])) for k in models}, param=SimParameters())


def vel(m):
    v, w = m.get_velocity(in_model_frame=False)
    return np.array(v, dtype=float), float(w)


def resolve(ma, mb, names=("A", "B")):
    """None: separating, 'unsupported': exception, else report."""
    sc = ctx_of({names[0]: ma, names[1]: mb})
    try:
        return resolve_collision(names[0], names[1], sc)
    except CollisionException:
        return "unsupported"


def rel_normal(ma, mb, pt, n):
    (va, wa), (vb, wb) = vel(ma), vel(mb)
    pa, pb = np.asarray(ma.get_pose())[:2, 2], np.asarray(mb.get_pose())[:2, 2]
    ra, rb = pt - pa, pt - pb
    rel = va + wa * np.array([-ra[1], ra[0]]) - vb - wb * np.array([-rb[1], rb[0]])
    return float(rel @ n)


def energy(m, v, w):
    g = m.model_geometry
    return 0.5 * g.m * float(v @ v) + 0.5 * g.Iz * w * w


@subtest(P, pair, quick=2400, shards=6, need=("resolved", "separating") + DYN)
def laws_of_impact(case):
    ab = place(case)
    if ab is None:
        return None
    a, b = ab
    ma, mb = build(a), build(b)
    from dg_commons.sim.collision_utils import compute_impact_geometry

    (va, wa), (vb, wb) = vel(ma), vel(mb)
    sa, sb = svec(a["fam"], ma.get_state()), svec(b["fam"], mb.get_state())
    fa, fb = ma.get_footprint(), mb.get_footprint()
    r = resolve(ma, mb)
    if r == "unsupported":
        return None
    pa, pb = np.asarray(ma.get_pose())[:2, 2], np.asarray(mb.get_pose())[:2, 2]
    ensure(ma.get_footprint().equals(fa) and mb.get_footprint().equals(fb), "the resolution moved a body")
    vels = ("vx", "vy", "dpsi")
    for fam, m, s in ((a["fam"], ma, sa), (b["fam"], mb, sb)):
        for k, o, nw in zip(STATES[fam][1], s, svec(fam, m.get_state())):
            ensure(k in vels or o == nw, f"the resolution changed {k} of a {fam}", before=o, after=nw)
    (va1, wa1), (vb1, wb1) = vel(ma), vel(mb)
    if r is None:
        # they have to be separating at the contact point, and are left alone
        n, pt = compute_impact_geometry(fa, fb)
        chk_a, chk_b = build(a), build(b)
        ensure(rel_normal(chk_a, chk_b, np.array(pt.coords[0]), n) < 1e-9, "approaching bodies were left unresolved")
        ensure(svec(a["fam"], ma.get_state()).tolist() == sa.tolist() and svec(b["fam"], mb.get_state()).tolist() == sb.tolist(), "separating bodies were altered")
        ensure(not ma.has_collided and not mb.has_collided, "separating bodies flagged as collided")
        return "separating"
    n, pt = np.array(r.impact_normal, dtype=float), np.array(r.impact_point.coords[0])
    ga, gb = ma.model_geometry, mb.model_geometry
    ensure(list(r.players) == ["A", "B"] and r.at_time == 0, "participants/time of the report")
    ensure(ma.has_collided is True and mb.has_collided is True, "bodies not flagged as collided")
    ensure_close(float(np.hypot(*n)), 1.0, "the impact normal is not a unit vector")
    ra, rb = pt - pa, pt - pb
    vn0 = float((va + wa * np.array([-ra[1], ra[0]]) - vb - wb * np.array([-rb[1], rb[0]])) @ n)
    vn1 = rel_normal(ma, mb, pt, n)
    ensure(vn0 >= -1e-9, "separating bodies were resolved", vn=vn0)
    e = min(ga.e, gb.e)
    sc = 1 + abs(vn0) + np.abs(va).max() + np.abs(vb).max() + abs(wa) + abs(wb)
    ensure_close(vn1, -e * vn0, "the contact points do not separate with the configured restitution", atol=1e-9 * sc)
    mom0, mom1 = ga.m * va + gb.m * vb, ga.m * va1 + gb.m * vb1
    msc = (ga.m + gb.m) * sc
    ensure_close(mom1, mom0, "linear momentum is not conserved", atol=1e-9 * msc)
    dja, djb = ga.m * (va1 - va), gb.m * (vb1 - vb)
    ensure_close(dja, -djb, "the two impulses are not opposite", atol=1e-9 * msc)
    ensure(abs(cross(dja, n)) <= 1e-9 * msc, "the impulse is not along the normal", impulse=dja.tolist(), n=n.tolist())
    ensure(float(dja @ n) <= 1e-9 * msc, "the impulse pulls the bodies together")
    # angular momentum about the contact point and about the origin
    for o in (pt, np.zeros(2)):
        L0 = ga.Iz * wa + ga.m * cross(pa - o, va) + gb.Iz * wb + gb.m * cross(pb - o, vb)
        L1 = ga.Iz * wa1 + ga.m * cross(pa - o, va1) + gb.Iz * wb1 + gb.m * cross(pb - o, vb1)
        ensure_close(L1, L0, "angular momentum is not conserved", atol=1e-9 * (msc * 60 + (ga.Iz + gb.Iz) * sc))
    E0, E1 = energy(ma, va, wa) + energy(mb, vb, wb), energy(ma, va1, wa1) + energy(mb, vb1, wb1)
    ensure(E1 <= E0 + 1e-9 * (1 + E0), "the collision created kinetic energy", before=E0, after=E1)
    for nm, m, f, other, v, w, v1, w1 in (("A", ma, fa, fb, va, wa, va1, wa1), ("B", mb, fb, fa, vb, wb, vb1, wb1)):
        rp = r.players[nm]
        ensure_close(np.asarray(rp.velocity[0], dtype=float), v, f"report of {nm}: velocity before", atol=1e-12)
        ensure_close(float(rp.velocity[1]), w, f"report of {nm}: yaw rate before", atol=1e-12)
        ensure_close(np.asarray(rp.velocity_after[0], dtype=float), v1, f"report of {nm}: velocity after is not what the model has", atol=1e-9 * sc)
        ensure_close(float(rp.velocity_after[1]), w1, f"report of {nm}: yaw rate after is not what the model has", atol=1e-9 * sc)
        g = m.model_geometry
        ensure_close(rp.energy_delta, 0.5 * g.m * (float(v1 @ v1) - float(v @ v)), f"report of {nm}: energy", atol=1e-9 * g.m * sc * sc)
        ensure(rp.footprint.equals(f), f"report of {nm}: footprint")
        ensure(rp.at_fault is False, "somebody is at fault without any road")
    return ["resolved", a["fam"], b["fam"]]


@st.composite
def pair_moved(draw):
    c = draw(pair())
    c["tf"] = [draw(nice(-30, 30)), draw(nice(-30, 30)), draw(ANGLE)]
    c["v0"] = [draw(nice(-15, 15)), draw(nice(-15, 15))]
    c["how"] = draw(st.sampled_from(["frame", "galilei", "swap"]))
    return c


@subtest(P, pair_moved, quick=1600, shards=6, need=("frame", "galilei", "swap"))
def outcome_does_not_depend_on_frame_or_roles(case):
    ab = place(case)
    if ab is None:
        return None
    a, b = ab
    ma, mb = build(a), build(b)
    from dg_commons.sim.collision_utils import compute_impact_geometry

    (va, wa), (vb, wb) = vel(ma), vel(mb)
    try:
        n, pt = compute_impact_geometry(ma.get_footprint(), mb.get_footprint())
    except CollisionException:
        return None
    vn = rel_normal(ma, mb, np.array(pt.coords[0]), n)
    if abs(vn) < 1e-6:
        return None
    r1 = resolve(ma, mb)
    dva, dwa = vel(ma)[0] - va, vel(ma)[1] - wa
    dvb, dwb = vel(mb)[0] - vb, vel(mb)[1] - wb
    how = case["how"]
    tf, v0 = (case["tf"] if how == "frame" else (0.0, 0.0, 0.0)), (case["v0"] if how == "galilei" else (0.0, 0.0))
    ca, cb = build(a, tf, v0), build(b, tf, v0)
    try:
        na, pta = compute_impact_geometry(ca.get_footprint(), cb.get_footprint())
        nb, ptb = compute_impact_geometry(cb.get_footprint(), ca.get_footprint())
    except CollisionException:
        return None  # a supported contact may become unsupported by rounding only: C10 looks at that
    if np.hypot(*(np.array(pta.coords[0]) - (rot(tf[2], pt.coords[0]) + np.array(tf[:2])))) > 1e-5 or float(na @ rot(tf[2], n)) < 0.999:
        return None  # near-degenerate contact (C10)
    if how == "swap" and (float(na @ nb) > -0.999 or pta.distance(ptb) > 1e-6):
        return None  # both centroids on the same side of the contact line
    (cva, cwa), (cvb, cwb) = vel(ca), vel(cb)
    r2 = resolve(cb, ca, ("B", "A")) if how == "swap" else resolve(ca, cb)
    ensure((r1 is None) == (r2 is None), f"{how}: resolved in one case only")
    tol = dict(rtol=2e-4, atol=2e-4 * (1 + abs(vn)))
    ensure_close(vel(ca)[0] - cva, rot(tf[2], dva), f"{how}: change of velocity of the first body", **tol)
    ensure_close(vel(cb)[0] - cvb, rot(tf[2], dvb), f"{how}: change of velocity of the second body", **tol)
    ensure_close(vel(ca)[1] - cwa, dwa, f"{how}: change of yaw rate of the first body", **tol)
    ensure_close(vel(cb)[1] - cwb, dwb, f"{how}: change of yaw rate of the second body", **tol)
    return how if r1 is not None else None


@st.composite
def wall(draw):
    return dict(a=draw(body()), dir=draw(ANGLE), depth=draw(st.one_of(fl(0.005, 0.4), fl(1e-4, 0.02))), tilt=draw(fl(-0.6, 0.6)), off=draw(fl(-6, 6)),
                kind=draw(st.sampled_from(["box", "line", "bent", "small"])), closing=draw(st.one_of(st.none(), fl(0.0, 15.0), fl(15.0, 90.0))))


def wall_shape(case, fa):
    """A wall / line / small block that body A penetrates by `depth` in direction `dir`."""
    d = np.array([math.cos(case["dir"]), math.sin(case["dir"])])
    c = np.array(fa.centroid.coords[0])
    reach = max(float((np.array(q) - c) @ d) for q in fa.exterior.coords)
    base = {"box": shp_box(0, -30, 8, 30), "small": shp_box(0, -0.5, 1.0, 0.5), "line": LineString([(0, -30), (0, 30)]), "bent": LineString([(0, -30), (0, 0), (0.5, 25)])}[case["kind"]]
    if case["kind"] in ("box", "line"):
        base = affinity.translate(base, 0, case["off"])
    if case["kind"] == "small":
        base = affinity.rotate(base, case["tilt"], origin=(0, 0), use_radians=True)
    base = affinity.rotate(base, case["dir"], origin=(0, 0), use_radians=True)
    q = c + d * (reach - case["depth"])
    return affinity.translate(base, float(q[0]), float(q[1]))


@subtest(P, wall, quick=1600, shards=4, need=("resolved", "separating", "line", "box") + DYN)
def environment_is_an_infinite_mass(case):
    a = copy.deepcopy(case["a"])
    if case["closing"] is not None:
        d = np.array([math.cos(case["dir"]), math.sin(case["dir"])])
        a["v"] = (np.array(a["v"]) * 0.2 + d * case["closing"]).tolist()
    ma = build(a)
    shape = wall_shape(case, ma.get_footprint())
    if not ma.get_footprint().intersects(shape):
        return None
    obs = StaticObstacle(shape)
    va, wa = vel(ma)
    sa, fa = svec(a["fam"], ma.get_state()), ma.get_footprint()
    wkt0 = shape.wkt
    from dg_commons.sim.collision_utils import compute_impact_geometry

    try:
        compute_impact_geometry(fa, shape)
    except CollisionException:
        return None
    r = resolve_collision_with_environment("A", ma, obs, 3)  # where the geometry of the contact is known it can be resolved
    ensure(obs.shape is shape and shape.wkt == wkt0, "the obstacle was altered")
    ensure(ma.get_footprint().equals(fa), "the resolution moved the body")
    pa = np.asarray(ma.get_pose())[:2, 2]
    va1, wa1 = vel(ma)
    n0, pt0 = compute_impact_geometry(fa, shape)
    if r is None:
        ra = np.array(pt0.coords[0]) - pa
        ensure(float((va + wa * np.array([-ra[1], ra[0]])) @ n0) < 1e-9, "a body running into the environment was left unresolved")
        ensure(svec(a["fam"], ma.get_state()).tolist() == sa.tolist() and not ma.has_collided, "a separating body was altered")
        return "separating"
    n, pt = np.array(r.impact_normal, dtype=float), np.array(r.impact_point.coords[0])
    ra = pt - pa
    g = ma.model_geometry
    vn0 = float((va + wa * np.array([-ra[1], ra[0]])) @ n)
    vn1 = float((va1 + wa1 * np.array([-ra[1], ra[0]])) @ n)
    sc = 1 + abs(vn0) + np.abs(va).max() + abs(wa)
    ensure(vn0 >= -1e-9, "a separating body was resolved", vn=vn0)
    ensure_close(vn1, -min(g.e, obs.geometry.e) * vn0, "restitution at the wall", atol=1e-9 * sc)
    dj = g.m * (va1 - va)
    ensure(abs(cross(dj, n)) <= 1e-9 * g.m * sc, "the impulse is not along the normal")
    ensure_close(g.Iz * (wa1 - wa), cross(ra, dj), "the spin does not match the impulse at the contact point", atol=1e-8 * (g.Iz + g.m) * sc)
    E0, E1 = energy(ma, va, wa), energy(ma, va1, wa1)
    ensure(E1 <= E0 + 1e-9 * (1 + E0), "the collision created kinetic energy", before=E0, after=E1)
    ensure(ma.has_collided is True, "the body is not flagged")
    ensure(set(r.players) == {"A", EnvPlayer} and r.at_time == 3, "participants/time of the report")
    rp, re = r.players["A"], r.players[EnvPlayer]
    ensure_close(np.asarray(rp.velocity[0], dtype=float), va, "report: velocity before", atol=1e-12)
    ensure_close(np.asarray(rp.velocity_after[0], dtype=float), va1, "report: velocity after is not what the model has", atol=1e-9 * sc)
    ensure_close([float(rp.velocity[1]), float(rp.velocity_after[1])], [wa, wa1], "report: yaw rates", atol=1e-9 * sc)
    ensure_close(rp.energy_delta, 0.5 * g.m * (float(va1 @ va1) - float(va @ va)), "report: energy", atol=1e-9 * g.m * sc * sc)
    ensure(rp.at_fault is True and re.at_fault is False, "the fault lies with the one who hits the environment")
    ensure(not np.any(re.velocity[0]) and not np.any(re.velocity_after[0]) and re.velocity[1] == 0 == re.velocity_after[1] and re.energy_delta == 0,
           "the environment does not stand still")
    ensure(len(re.locations) == 1 and re.footprint.distance(shape) == 0 and re.locations[0][1].equals(re.footprint), "footprint of the environment")
    if shape.geom_type == "Polygon":
        ensure(re.footprint.symmetric_difference(shape).area <= 1e-9 * shape.area, "the footprint of the environment is not the obstacle", got=re.footprint.wkt)
    else:
        ensure(re.footprint.difference(shape.buffer(0.05)).area <= 1e-9, "the footprint of the environment is not close to the obstacle", got=re.footprint.wkt)
    out = ["resolved", a["fam"], case["kind"]]
    if case["kind"] == "box":  # a moving body of enormous mass at the same place
        hb = dict(fam="dyn_obstacle", kind=None, p=None, v=[0.0, 0.0], w=0.0,
                  g=dict(m=1e15, Iz=1e15, e=obs.geometry.e, shape=[list(map(float, q)) for q in np.array(shape.exterior.coords[:-1]) - np.array(shape.centroid.coords[0])]),
                  x=dict(x=shape.centroid.x, y=shape.centroid.y, psi=0.0, vx=0.0, vy=0.0, dpsi=0.0))
        mc, mh = build(a), build(hb)
        r2 = resolve(mc, mh)
        if r2 not in (None, "unsupported") and pt0.distance(r2.impact_point) < 1e-7:
            ensure_close(vel(mc)[0], va1, "differs from hitting a body of enormous mass", rtol=1e-5, atol=1e-5 * sc)
            ensure_close(vel(mc)[1], wa1, "differs from hitting a body of enormous mass (spin)", rtol=1e-5, atol=1e-5 * sc)
            out.append("huge_body")
    return out
