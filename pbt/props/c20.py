from __future__ import annotations

import math

import numpy as np
from geometry import SE2_from_xytheta, xytheta_from_SE2
from hypothesis import strategies as st

from dg_commons.controllers.pure_pursuit import PurePursuit, PurePursuitParam
from dg_commons.sim.models.vehicle_structures import VehicleGeometry
from pbt.core import ensure, ensure_close, ensure_raises, subtest
from pbt.gens import BIG_ANGLE, fl, nice, se2, wrap
from pbt.lanes import comp, mk_lane, ref_lane, rel, rot, smooth_lane

P = "C20"
RULE = ("random smooth lanes, poses near them (any heading), speeds and parameters; labels: lookahead reached / at the window's start or "
        "end / beyond the lane's end, sign of the steering, saturation of the lookahead")
ASSUMPTIONS = [
    "the goal point is found by a bounded search: within 1e-3 m of the best point for lanes turning at most 1.2 rad with radius of curvature above 12.5 m",
    "steering angle = atan(wheelbase * 2 sin(alpha) / lookahead), alpha the bearing of the goal point seen from the rear axle, as documented in the lecture the code refers to",
]


@st.composite
def case(draw):
    mn = draw(fl(1, 6))
    return dict(lane=draw(smooth_lane()), u=draw(st.one_of(fl(0, 1), fl(0, 1), fl(-0.3, 0), fl(1, 1.2))), lat=draw(fl(-3, 3)), hd=draw(st.one_of(fl(-1.0, 1.0), BIG_ANGLE, st.just(0.0))), v=draw(st.one_of(fl(-5, 60), fl(0, 20))),
                par=draw(st.sampled_from([None, "geo"])) if draw(st.integers(0, 2)) == 0 else dict(mn=mn, mx=mn + draw(fl(0.1, 30)), k=draw(fl(0.1, 2)), md=draw(fl(0, 4)), len=draw(fl(0.5, 6)), lr=draw(fl(0.2, 3))),
                geo=dict(lf=draw(fl(0.5, 2)), lr=draw(fl(0.5, 2))), move=draw(se2(big=True)))


def make(c):
    if c["par"] is None:
        return PurePursuit(), (3, 30, 0.8, 2, 3.5, 1.75)
    if c["par"] == "geo":
        g = VehicleGeometry.default_car()
        import dataclasses

        g = dataclasses.replace(g, lf=c["geo"]["lf"], lr=c["geo"]["lr"])
        return PurePursuit.from_model_geometry(g), (3, 30, 0.8, 2, g.lf + g.lr, g.lr)
    p = c["par"]
    return PurePursuit(PurePursuitParam(look_ahead_minmax=(p["mn"], p["mx"]), k_lookahead=p["k"], min_distance=p["md"], length=p["len"], lr=p["lr"])), (p["mn"], p["mx"], p["k"], p["md"], p["len"], p["lr"])


def drive(pp, lane, pose, along, v):
    pp.update_path(lane)
    pp.update_pose(SE2_from_xytheta(pose), float(along))
    pp.update_speed(v)
    s, q = pp.find_goal_point()
    return float(s), [float(x) for x in xytheta_from_SE2(q)], float(pp.get_desired_steering())


@subtest(P, case, quick=1500, need=("lookahead", "left", "right", "saturated_low", "saturated_high", "beyond"), shards=4)
def goal_point_and_steering(c):
    spec = c["lane"]
    lane, ref = mk_lane(spec), ref_lane(spec)
    pp, (mn, mx, k, md, length, lr) = make(c)
    along = c["u"] * ref.L
    pose = comp(ref.center(ref.beta(along)), [0, c["lat"], c["hd"]])
    ensure_raises(lambda: make(c)[0].get_desired_steering(), RuntimeError, "steering without observations")
    s, goal, steer = drive(pp, lane, pose, along, c["v"])
    look = min(max(k * c["v"], mn), mx)
    labels = set()
    if k * c["v"] <= mn:
        labels.add("saturated_low")
    if k * c["v"] >= mx:
        labels.add("saturated_high")
    lo, hi = along + md, along + md + look
    ensure(lo - 1e-9 <= s <= hi + 1e-9, "the goal point is outside its window", got=s, window=(lo, hi))
    ensure_close(goal[:2], ref.center(ref.beta(s))[:2], "the goal point is not the point of the path at its progress", atol=1e-4)
    if s > ref.L:
        labels.add("beyond")

    def dist(x):
        return math.dist(ref.center(ref.beta(x))[:2], pose[:2])

    n = 200
    diffs = [dist(lo + (hi - lo) * i / n) - look for i in range(n + 1)]
    best = min(abs(x) for x in diffs)
    offered = min(diffs) <= 0 <= max(diffs)
    got = abs(dist(s) - look)
    best = 0.0 if offered else best
    ensure(got <= best + 2e-3 + 1e-3 * (best > 0.05) * best, "another point of the window is nearer to the lookahead distance", key="lookahead", got=got, best=best)
    if offered:
        ensure(got < 3e-3, "not at the lookahead distance although the path offers such a point", key="lookahead", got=got, look=look)
        labels.add("lookahead")
    elif s - lo < 0.01:
        labels.add("at_start")
    elif hi - s < 0.01:
        labels.add("at_end")
    rear = rot(pose, -lr)
    d = complex(goal[0], goal[1]) - rear
    alpha = wrap(math.atan2(d.imag, d.real) - pose[2])
    ex = math.atan(length * 2 * math.sin(alpha) / look)
    ensure_close(steer, ex, "steering angle", key="steering", atol=1e-5, alpha=alpha)
    if abs(math.sin(alpha)) > 1e-4:
        ensure((steer > 0) == (math.sin(alpha) > 0), "steers away from the goal point", steer=steer, alpha=alpha)
        labels.add("left" if steer > 0 else "right")
    # rigid motion
    mv = c["move"]
    s2, g2, st2 = drive(pp, mk_lane(spec, mv), comp(mv, pose), along, c["v"])
    if best < 1e-3 or abs(s2 - s) < 1e-3:
        ensure(abs(st2 - steer) < 5e-3, "the steering depends on the reference frame", got=st2, was=steer)
        ensure(math.dist(g2[:2], comp(mv, goal)[:2]) < 2e-2, "the goal point depends on the reference frame", got=g2, expected=comp(mv, goal))
    # mirror image
    mspec = dict(spec, start=[spec["start"][0], -spec["start"][1], -spec["start"][2]], segs=[[l, -kk] for l, kk in spec["segs"]])
    s3, g3, st3 = drive(make(c)[0], mk_lane(mspec), [pose[0], -pose[1], -pose[2]], along, c["v"])
    if abs(s3 - s) < 1e-3:
        ensure(abs(st3 + steer) < 5e-3, "the mirrored scene is not steered mirrored", got=st3, was=steer)
    # the same question again
    s4, g4, st4 = drive(pp, lane, pose, along, c["v"])
    ensure(s4 == s and st4 == steer, "the answer depends on earlier questions", got=st4, was=steer)
    return labels


@st.composite
def straight_case(draw):
    return dict(x=draw(fl(-50, 50)), y=draw(fl(-50, 50)), a=draw(BIG_ANGLE), n=draw(st.integers(2, 6)), l=draw(fl(2, 10)), v=draw(fl(0, 30)), u=draw(fl(0, 0.9)), off=draw(fl(-2, 2)))


@subtest(P, straight_case, quick=400)
def straight_ahead_means_no_steering(c):
    spec = dict(start=[c["x"], c["y"], c["a"]], segs=[[c["l"], 0.0]] * (c["n"] - 1), r=[2.0] * c["n"], raw=False)
    lane, ref = mk_lane(spec), ref_lane(spec)
    along = c["u"] * ref.L
    pp, qq = PurePursuit(), PurePursuit()
    _, _, s = drive(pp, lane, ref.center(ref.beta(along)), along, c["v"])
    ensure(abs(s) < 1e-6, "steers although the goal point is straight ahead", got=s)
    qq.param.k_lookahead = 5.0
    ensure(pp.param.k_lookahead == 0.8 and PurePursuit().param.k_lookahead == 0.8, "controllers share their parameters", key="shared")
    if abs(c["off"]) > 0.01:  # left of the line: steer to the right, and the other way around
        _, _, s = drive(pp, lane, comp(ref.center(ref.beta(along)), [0, c["off"], 0]), along, c["v"])
        ensure(s * c["off"] < 0, "steers away from the path", got=s, offset=c["off"])
        return "offset"
    return "straight"
