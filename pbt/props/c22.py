from __future__ import annotations

import dataclasses
import math
import os
import subprocess
import sys
from decimal import Decimal as D
from fractions import Fraction as F

from frozendict import frozendict
from geometry import SE2_from_xytheta
from hypothesis import strategies as st

from dg_commons import DgSampledSequence
from dg_commons.controllers.pure_pursuit import PurePursuit, PurePursuitParam
from dg_commons.controllers.speed import SpeedBehavior, SpeedController
from dg_commons.controllers.steer import SteerController
from dg_commons.sim.agents.agent import NPAgent, PolicyAgent
from dg_commons.sim.agents.lane_follower import LFAgent
from dg_commons.sim.models.vehicle import VehicleCommands, VehicleModel, VehicleState
from dg_commons.sim.models.vehicle_structures import VehicleGeometry
from dg_commons.sim.models.vehicle_ligths import LightsValues
from dg_commons.sim.models.vehicle_utils import VehicleParameters
from dg_commons.sim.simulator_structures import InitSimObservations, PlayerObservations, SimObservations
from pbt.core import ensure, ensure_close, ensure_raises, subtest
from pbt.gens import fl, nice, se2, seqs, ts_decode, ts_one, wrap
from pbt.lanes import comp, mk_lane, rel, ref_lane, rot

P = "C22"
RULE = ("closed-loop drives of the lane follower on random long lanes (curvature up to 1/50 m, wavy) from offset starts, with and without an "
        "emergency; random command plans and policies; labels: curve/straight, emergency kind, query class")
ASSUMPTIONS = ["the bounds of the closed loop (0.8 m, 0.6 m/s after 8 s) are empirical for cars with the default parameters; the commands are judged at every step"]
SWITCH = 0.3


@st.composite
def road(draw):
    k = draw(st.sampled_from(["straight", "arc", "wavy"]))
    n = 36
    seg = draw(st.sampled_from([4.0, 5.0, 6.0]))
    if k == "straight":
        ks = [0.0] * n
    elif k == "arc":
        kk = draw(fl(-0.005, 0.005))
        ks = [kk] * n
    else:
        a, w = draw(fl(0.003, 0.02)), draw(fl(0.08, 0.2))
        ks = [a * math.cos(w * seg * i) for i in range(n)]
    return dict(start=draw(se2()), segs=[[seg, x] for x in ks], r=[1.75] * (n + 1), raw=draw(st.booleans()))


@st.composite
def drive_case(draw):
    return dict(lane=draw(road()), u0=draw(fl(0, 15)), lat=draw(fl(-1.5, 1.5)), hd=draw(fl(-0.3, 0.3)), v0=draw(fl(0, 15)), d0=draw(fl(-0.2, 0.2)),
                nominal=draw(st.one_of(st.none(), fl(4, 14))), geo=draw(st.sampled_from(["car", "car", "short", "long"])), em=draw(st.sampled_from([None, None, "left", "front"])),
                te=draw(st.integers(1, 40)), dt=draw(st.sampled_from(["0.1", "0.05"])), pp=draw(st.sampled_from([None, None, "tuned"])), t0=draw(st.sampled_from(["0", "0", "3"])))


def geo(kind):
    g = VehicleGeometry.default_car()
    return dict(car=lambda: g, short=lambda: dataclasses.replace(g, lf=0.9, lr=1.0), long=lambda: dataclasses.replace(g, lf=1.6, lr=1.5))[kind]()


class Fresh(PurePursuit):
    asked = 0

    def get_desired_steering(self):
        self.asked += 1
        return super().get_desired_steering()


def run(c, T=11.0):
    spec = c["lane"]
    lane, ref = mk_lane(spec), ref_lane(spec)
    g, par = geo(c["geo"]), VehicleParameters.default_car()
    sb = None
    if c["nominal"] is not None:
        sb = SpeedBehavior()
        sb.params.nominal_speed = c["nominal"]
    pp = Fresh(PurePursuitParam(length=g.wheelbase, lr=g.lr, k_lookahead=0.9)) if c["pp"] else None
    ag = LFAgent(lane, par, g, speed_behavior=sb, pure_pursuit=pp, return_extra=True)
    ag.on_episode_init(InitSimObservations(my_name="me", seed=0))
    p = comp(ref.center(ref.beta(c["u0"])), [0, c["lat"], c["hd"]])
    m = VehicleModel(VehicleState(x=p[0], y=p[1], psi=p[2], vx=c["v0"], delta=c["d0"]), g, par)
    dt = D(c["dt"])
    t = D(c["t0"])
    hist = []
    for i in range(int(T / float(dt))):
        s = m.get_state()
        pl = {"me": PlayerObservations(s, m.get_footprint())}
        if c["em"] and i == c["te"]:
            o = comp([s.x, s.y, s.psi], [4.0, 0.0, math.pi] if c["em"] == "front" else [3.0, 2.0, -math.pi / 2])
            pl["other"] = PlayerObservations(VehicleState(x=o[0], y=o[1], psi=o[2], vx=8.0, delta=0.0), None)
        cmd = ag.get_commands(SimObservations(frozendict(pl), t))
        hist.append((s, cmd))
        m.update(cmd, dt)
        t += dt
    if pp is not None:
        ensure(ag.pure_pursuit is pp and pp.asked > 0, "the given pure pursuit controller is not used", key="pp_unused")
    if sb is not None:
        ensure(ag.speed_behavior is sb, "the given speed behaviour is not used")
    return ref, par, hist, m.get_state(), ag


def lateral(ref, s, around):
    best = min((math.dist(ref.center(ref.beta(x))[:2], (s.x, s.y)), x) for x in [around + k * 0.5 for k in range(-30, 31)])
    q = ref.center(ref.beta(best[1]))
    return rel(q, [s.x, s.y, s.psi]), best[1]


@subtest(P, drive_case, quick=64, need=("followed", "emergency"), shards=8)
def lane_followers_follow_the_lane(c):
    ref, par, hist, last, ag = run(c)
    nominal = c["nominal"] or 40 / 3.6
    for s, cmd in hist:
        ensure(isinstance(cmd, VehicleCommands), "no vehicle commands")
        ensure(par.acc_limits[0] - 1e-9 <= cmd.acc <= par.acc_limits[1] + 1e-9, "acceleration outside the limits", got=cmd.acc)
        ensure(abs(cmd.ddelta) <= par.ddelta_max + 1e-9, "steering rate outside the limits", got=cmd.ddelta)
        ensure(cmd.lights in LightsValues, "unknown lights")
    dist = c["u0"]
    path = []
    for s, _ in hist:
        r, dist = lateral(ref, s, dist)
        path.append((s, r, dist))
    n = len(hist)
    dt = float(D(c["dt"]))
    labels = set()
    if c["em"] is None:
        for i, (s, r, d) in enumerate(path):
            if i * dt > 8:
                ensure(abs(r[1]) < 0.8 and abs(r[2]) < 0.25, "the vehicle is not on the lane", key="offlane", lateral=r[1], heading=r[2], t=i * dt)
                ensure(abs(s.vx - nominal) < 0.6, "the speed does not approach the reference", got=s.vx, ref=nominal)
        ensure(max(abs(r[1]) for _, r, _ in path) < max(abs(c["lat"]) + 2.0, 1.0), "the vehicle leaves the lane")
        ensure(path[-1][2] > c["u0"] + 20, "the vehicle does not advance")
        labels.add("followed")
    else:
        te = c["te"]
        for i in range(te, n):
            s, cmd = hist[i]
            if s.vx > 1.0 and i > te:
                ensure(cmd.acc < 0, "does not brake after an emergency", key="emergency", v=s.vx, acc=cmd.acc)
        if n * dt - te * dt > 5:
            ensure(abs(last.vx) < 0.5, "does not stop after an emergency", v=last.vx)
        labels.add("emergency")
    ex = ag.on_get_extra()
    ensure(ex is not None and len(ex) == 1, "no extra although wanted")
    tr = ex[0][0]
    ensure(math.dist((tr.values[1].x, tr.values[1].y), ag.pure_pursuit.find_goal_point()[1][:2, 2]) < 1e-6, "the drawn goal point is not the one followed")
    return labels


class Fixed(PurePursuit):
    def __init__(self, delta):
        super().__init__()
        self.delta = delta

    def get_desired_steering(self):
        return self.delta


class FixedSpeed(SpeedBehavior):
    def __init__(self, v, emergency_at=None):
        super().__init__()
        self.v, self.ea = v, emergency_at

    def get_speed_ref(self, at):
        return self.v, self.ea is not None and abs(at - self.ea) < 1e-9


@st.composite
def given_case(draw):
    return dict(delta=draw(fl(-0.4, 0.4)), v=draw(fl(2, 15)), dt="0.1", ea=draw(st.sampled_from([None, None, 3.0, 1.5])))


@subtest(P, given_case, quick=60, shards=4)
def given_behaviours_and_controllers_are_used(c):
    spec = dict(start=[0, 0, 0], segs=[[10.0, 0.0]] * 40, r=[2.0] * 41, raw=False)
    g, par = VehicleGeometry.default_car(), VehicleParameters.default_car()
    pp, sb = Fixed(c["delta"]), FixedSpeed(c["v"], c["ea"])
    ag = LFAgent(mk_lane(spec), par, g, speed_behavior=sb, pure_pursuit=pp)
    other = LFAgent(mk_lane(spec), par, g)
    ag.on_episode_init(InitSimObservations(my_name="me", seed=0))
    other.on_episode_init(InitSimObservations(my_name="you", seed=0))
    ensure(sb.my_name == "me", "the behaviour does not know its player")
    ensure(other.pure_pursuit is not pp and other.speed_behavior is not sb, "agents share their controllers")
    m = VehicleModel(VehicleState(x=5, y=0, psi=0, vx=5.0, delta=0.0), g, par)
    t = D(0)
    for _ in range(80):
        m.update(ag.get_commands(SimObservations(frozendict(me=PlayerObservations(m.get_state(), None)), t)), D("0.1"))
        t += D("0.1")
    s = m.get_state()
    ensure(abs(s.delta - c["delta"]) < 0.05, "does not steer as the given controller says", key="pp_unused", got=s.delta, wanted=c["delta"])
    ensure(abs(s.vx - (c["v"] if c["ea"] is None else 0)) < 0.6, "does not drive at the speed of the given behaviour", got=s.vx, wanted=c["v"])
    ensure(ag.on_get_extra() is None, "an extra although not wanted")
    return "emergency" if c["ea"] else "cruise"


class Scripted(SpeedBehavior):
    """reports what it is told to, and notes what it is given"""
    def __init__(self, plan):
        super().__init__()
        self.plan, self.obs, self.asked = plan, [], []

    def update_observations(self, obs):
        self.obs.append(obs)

    def get_speed_ref(self, at):
        self.asked.append(at)
        return self.plan[len(self.asked) - 1]


class Noting(PurePursuit):
    def __init__(self, param):
        super().__init__(param)
        self.poses, self.alongs = [], []

    def update_pose(self, pose, along_path):
        self.poses.append(pose)
        self.alongs.append(along_path)
        super().update_pose(pose, along_path)


@st.composite
def chain_case(draw):
    n = draw(st.integers(2, 8))
    return dict(lane=draw(road()), u0=draw(st.one_of(fl(5, 60), fl(-6, 5), st.sampled_from([-1.0, 0.0]))), lat=draw(fl(-1.5, 1.5)), hd=draw(fl(-0.5, 0.5)), v0=draw(fl(0, 15)), d0=draw(fl(-0.3, 0.3)),
                plan=[[draw(fl(0, 14)), draw(st.sampled_from([False] * 6 + [True]))] for _ in range(n)], geo=draw(st.sampled_from(["car", "short", "long"])),
                gap=draw(st.sampled_from(["0.1", "0.25", "1"])), t0=draw(st.sampled_from(["0", "0", "7.5"])), again=draw(st.booleans()))


@subtest(P, chain_case, quick=400, shards=2, need=("emergency", "again"))
def commands_are_those_of_the_controllers(c):
    """The agent connects its parts: the same controllers, fed by hand with what is observed, give the same commands."""
    spec = c["lane"]
    lane, ref = mk_lane(spec), ref_lane(spec)
    g, par = geo(c["geo"]), VehicleParameters.default_car()
    prm = PurePursuitParam(length=g.wheelbase, lr=g.lr, k_lookahead=0.9)
    sb, pp = Scripted([tuple(x) for x in c["plan"]]), Noting(prm)
    ag = LFAgent(lane, par, g, speed_behavior=sb, pure_pursuit=pp)
    if c["again"]:  # it was someone else before, and its parts served on another lane
        pp.update_path(mk_lane(spec, move=(30.0, -20.0, 1.0)))
        ag.on_episode_init(InitSimObservations(my_name="other", seed=0))
    ag.on_episode_init(InitSimObservations(my_name="me", seed=0))
    ensure(sb.my_name == "me" and ag.my_name == "me", "the agent or its behaviour does not know its player", got=sb.my_name)
    mine = PurePursuit(prm)
    mine.update_path(lane)
    speed, steer = SpeedController.from_vehicle_params(model_param=par), SteerController.from_vehicle_params(vehicle_param=par)
    p = comp(ref.center(ref.beta(c["u0"])), [0, c["lat"], c["hd"]])
    m = VehicleModel(VehicleState(x=p[0], y=p[1], psi=p[2], vx=c["v0"], delta=c["d0"]), g, par)
    o = VehicleModel(VehicleState(x=p[0] + 40, y=p[1] + 40, psi=0.3, vx=3.0, delta=0), g, par)
    t, braking = D(c["t0"]), False
    for i, (v, em) in enumerate(c["plan"]):
        s = m.get_state()
        players = frozendict(other=PlayerObservations(o.get_state(), o.get_footprint()), me=PlayerObservations(s, m.get_footprint()))
        cmd = ag.get_commands(SimObservations(players, t))
        ensure(dict(sb.obs[-1]) == dict(players), "the behaviour is not told what is observed")
        ensure(len(sb.asked) == i + 1 and abs(sb.asked[-1] - float(t)) < 1e-9, "the behaviour is not asked once for the time of the observations", asked=sb.asked, t=str(t))
        pose = SE2_from_xytheta([s.x, s.y, s.psi])
        ensure_close(pp.poses[-1], pose, "the pure pursuit controller is not told the observed pose")
        along = lane.lane_pose_from_SE2_generic(pose).along_lane
        ensure_close(pp.alongs[-1], along, "the pure pursuit controller is not told the progress on the lane", rtol=1e-6, atol=1e-6)
        braking = braking or em
        want_v = 0.0 if braking else v
        speed.update_measurement(measurement=s.vx)
        speed.update_reference(reference=want_v)
        mine.update_pose(pose=pose, along_path=along)
        mine.update_speed(speed=want_v)
        steer.update_measurement(measurement=s.delta)
        steer.update_reference(mine.get_desired_steering())
        ensure_close(cmd.acc, speed.get_control(float(t)), "the acceleration is not that of the speed controller for the reference", rtol=1e-6, atol=1e-9, i=i)
        ensure_close(cmd.ddelta, steer.get_control(float(t)), "the steering rate is not that of the steering controller for the pure pursuit angle", rtol=1e-5, atol=1e-6, i=i)
        m.update(cmd, D(c["gap"]))
        o.update(VehicleCommands(acc=0.5, ddelta=0.1), D(c["gap"]))
        t += D(c["gap"])
    return tuple(l for l, on in (("emergency", braking), ("again", c["again"])) if on) or "cruise"


@st.composite
def plan_case(draw):
    s = draw(seqs(1, 8, values=st.lists(fl(-3, 3), min_size=2, max_size=2)))
    n = len(s["ts"])
    s["q"] = draw(st.lists(st.tuples(st.integers(0, n - 1), st.sampled_from(["at", "after", "before", "between"]), st.integers(1, 9)), min_size=1, max_size=6))
    return s


@subtest(P, plan_case, quick=1200, need=("at", "between", "before_start", "after_end"))
def scripted_agents_follow_their_plan(c):
    ts = ts_decode(c["kind"], c["ts"])
    plan = DgSampledSequence[VehicleCommands](ts, [VehicleCommands(*v) for v in c["vals"]])
    ag = NPAgent(plan)
    ag.on_episode_init(InitSimObservations(my_name="me", seed=0))
    ex = [F(t) for t in ts]
    labels = set()
    for i, mode, k in c["q"]:
        x = ex[i]
        if mode == "after":
            x = ex[-1] + F(k, 3)
        elif mode == "before":
            x = ex[i] - F(k, 10**6)
        elif mode == "between" and i + 1 < len(ex):
            x = ex[i] + (ex[i + 1] - ex[i]) * F(k, 10)
        t = D(x.numerator) / D(x.denominator)
        x = F(t)
        prev = [j for j, a in enumerate(ex) if a <= x]
        obs = SimObservations(frozendict(me=PlayerObservations(VehicleState(0, 0, 0, 0, 0), None)), t)
        if not prev:
            ensure_raises(lambda: ag.get_commands(obs), Exception, "a command before the plan starts")
            labels.add("before_start")
            continue
        ensure(ag.get_commands(obs) == VehicleCommands(*c["vals"][prev[-1]]), "not the command planned for this time", at=str(t))
        labels.add("at" if ex[prev[-1]] == x else ("after_end" if prev[-1] == len(ex) - 1 else "between"))
    ensure(list(plan.values) == [VehicleCommands(*v) for v in c["vals"]], "the plan changed")
    return labels


@st.composite
def policy_case(draw):
    n = draw(st.integers(1, 4))
    return dict(st=draw(st.lists(st.lists(fl(-5, 5), min_size=5, max_size=5), min_size=n, max_size=n)), me=draw(st.integers(0, n - 1)), k=draw(fl(-2, 2)), same=draw(st.booleans()))


@subtest(P, policy_case, quick=500)
def policy_agents_apply_their_policy(c):
    seen = []
    fixed = VehicleCommands(acc=c["k"], ddelta=0.1)

    def policy(x):
        seen.append(x)
        return fixed if c["same"] else VehicleCommands(acc=c["k"] * x.vx, ddelta=x.psi)

    ag = PolicyAgent(policy)
    ag.on_episode_init(InitSimObservations(my_name=f"P{c['me']}", seed=0))
    states = [VehicleState(*v) for v in c["st"]]
    obs = SimObservations(frozendict({f"P{i}": PlayerObservations(s, None) for i, s in enumerate(states)}), D(1))
    r = ag.get_commands(obs)
    s = states[c["me"]]
    ensure(seen == [s], "the policy is not asked once with the agent's own state", got=seen)
    ensure(r == (fixed if c["same"] else VehicleCommands(acc=c["k"] * s.vx, ddelta=s.psi)), "not what the policy returned", got=r)
    return "fixed" if c["same"] else "feedback"


CODE = """
from decimal import Decimal as D
from frozendict import frozendict
from dg_commons.sim.agents.lane_follower import LFAgent
from dg_commons.maps.lanes import DgLanelet, LaneCtrPoint
from dg_commons import SE2Transform
from dg_commons.sim.models.vehicle_structures import VehicleGeometry
from dg_commons.sim.models.vehicle_utils import VehicleParameters
from dg_commons.sim.models.vehicle import VehicleState
from dg_commons.sim.simulator_structures import *
lane = DgLanelet([LaneCtrPoint(SE2Transform([5.0 * i, 0], 0), 2) for i in range(20)])
ag = LFAgent(lane, VehicleParameters.default_car(), VehicleGeometry.default_car())
ag.on_episode_init(InitSimObservations(my_name="me", seed=0))
for t in range(0, 10):
    print(ag.get_commands(SimObservations(frozendict(me=PlayerObservations(VehicleState(5, 1, 0, 5, 0), None)), D(t))))
"""


@subtest(P, lambda: st.tuples(st.integers(1, 400), st.integers(401, 1000)).map(list), quick=2, thorough=6)
def commands_do_not_depend_on_the_hash_seed(c):
    outs = []
    for seed in c:
        p = subprocess.run([sys.executable, "-W", "ignore", "-c", CODE], env=dict(os.environ, PYTHONHASHSEED=str(seed)), capture_output=True, text=True, timeout=120)
        ensure(p.returncode == 0 and p.stdout.count("\n") >= 10, "no commands", err=p.stderr[-500:])
        outs.append("\n".join(l for l in p.stdout.splitlines() if l.startswith("Vehicle")))
    ensure(outs[0] == outs[1] and outs[0], "the commands differ between two runs of the interpreter", a=outs[0][:200], b=outs[1][:200])
    return "same"
