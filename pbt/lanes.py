"""Lanes as plain data, and a reference model of lane coordinates (constant-twist arcs between control points)."""
from __future__ import annotations

import math

import numpy as np
from hypothesis import strategies as st

from dg_commons import SE2Transform
from dg_commons.maps.lanes import DgLanelet, LaneCtrPoint

from .gens import ANGLE, fl, wrap


def rot(p, z):
    return complex(p[0], p[1]) + z * complex(math.cos(p[2]), math.sin(p[2]))


def comp(a, b):
    z = rot(a, complex(b[0], b[1]))
    return [z.real, z.imag, a[2] + b[2]]


def rel(a, b):
    z = complex(b[0] - a[0], b[1] - a[1]) * complex(math.cos(a[2]), -math.sin(a[2]))
    return [z.real, z.imag, wrap(b[2] - a[2])]


def arc(s, k):
    """Displacement along an arc of length s and curvature k."""
    if abs(k * s) < 1e-9:
        return [s, 0.0, k * s]
    return [math.sin(k * s) / k, (1 - math.cos(k * s)) / k, k * s]


def log(r):
    """Body twist (v, w) of unit duration leading to the relative pose r."""
    d, w = complex(r[0], r[1]), r[2]
    if abs(w) < 1e-7:
        return d, w
    return d / (complex(math.sin(w), 2 * math.sin(w / 2) ** 2) / w), w


def exp(v, w, a):
    if abs(w) < 1e-7:
        d = v * a
    else:
        d = v * complex(math.sin(w * a), 2 * math.sin(w * a / 2) ** 2) / w
    return [d.real, d.imag, w * a]


class RefLane:
    """The documented meaning of lane coordinates; poses are [x, y, theta]."""

    def __init__(self, pts, radii):
        self.q = [list(p) for p in pts]
        self.r = list(radii)
        self.n = len(self.q)
        self.tw = [log(rel(a, b)) for a, b in zip(self.q, self.q[1:])]
        self.len = [abs(v) for v, _ in self.tw]
        self.cum = [0.0]
        for x in self.len:
            self.cum.append(self.cum[-1] + x)
        self.L = self.cum[-1]

    def split(self, beta):
        i = min(max(int(math.floor(beta)), 0), self.n - 2)
        return i, beta - i

    def center(self, beta):
        if beta < 0:
            return comp(self.q[0], [beta, 0, 0])
        if beta >= self.n - 1:
            return comp(self.q[-1], [beta - (self.n - 1), 0, 0])
        i, a = self.split(beta)
        v, w = self.tw[i]
        return comp(self.q[i], exp(v, w, a))

    def along(self, beta):
        if beta < 0:
            return beta
        if beta >= self.n - 1:
            return self.L + beta - (self.n - 1)
        i, a = self.split(beta)
        return self.cum[i] + a * self.len[i]

    def beta(self, along):
        if along < 0:
            return along
        if along >= self.L:
            return self.n - 1 + along - self.L
        for i in range(self.n - 1):
            if along < self.cum[i + 1]:
                return i + (along - self.cum[i]) / self.len[i]
        return self.n - 1.0

    def radius(self, beta):
        if beta < 0:
            return self.r[0]
        if beta >= self.n - 1:
            return self.r[-1]
        i, a = self.split(beta)
        return self.r[i] * (1 - a) + self.r[i + 1] * a

    def samples(self, ext=60.0, per=40):
        """Dense [(along, pose)] including straight extensions."""
        out = []
        for k in range(240):
            out.append(-ext * (1 - k / 240))
        for i in range(self.n - 1):
            for k in range(per):
                out.append(self.cum[i] + self.len[i] * k / per)
        for k in range(241):
            out.append(self.L + ext * k / 240)
        return [(s, self.center(self.beta(s))) for s in out]


@st.composite
def smooth_lane(draw, max_turn=1.2, kmax=0.08, nmin=2, nmax=12, seg=(0.5, 6.0), rmin=1.0, rmax=3.0, const_r=False):
    """Arcs joined with continuous tangents: {"start": pose, "segs": [[length, curvature]], "r": [...]}."""
    n = draw(st.integers(nmin, nmax))
    uniform = draw(st.booleans())
    l0 = draw(fl(*seg))
    kind = draw(st.sampled_from(["straight", "arc", "wavy"]))
    k0 = draw(fl(-kmax, kmax))
    segs, turn = [], 0.0
    for _ in range(n - 1):
        l = l0 if uniform else draw(fl(*seg))
        k = 0.0 if kind == "straight" else (k0 if kind == "arc" else draw(fl(-kmax, kmax)))
        if abs(turn + k * l) > max_turn:
            k = 0.0
        turn += k * l
        segs.append([l, k])
    r0 = draw(fl(rmin, rmax))
    r = [r0 if const_r or kind == "straight" and uniform else draw(fl(rmin, rmax)) for _ in range(n)]
    return dict(start=[draw(fl(-100, 100)), draw(fl(-100, 100)), draw(ANGLE)], segs=segs, r=r, raw=draw(st.booleans()))


def lane_points(spec):
    pts = [list(spec["start"])]
    for l, k in spec["segs"]:
        pts.append(comp(pts[-1], arc(l, k)))
    return pts


def norm_angle(spec, a):
    """Half of the lanes keep unwrapped headings, half have them in (-pi, pi]."""
    return a if spec.get("raw") else wrap(a)


def mk_lane(spec, move=None) -> DgLanelet:
    pts = lane_points(spec)
    if move is not None:
        pts = [comp(move, p) for p in pts]
    return DgLanelet([LaneCtrPoint(SE2Transform(p[:2], norm_angle(spec, p[2])), r=r) for p, r in zip(pts, spec["r"])])


def ref_lane(spec, move=None) -> RefLane:
    pts = lane_points(spec)
    if move is not None:
        pts = [comp(move, p) for p in pts]
    return RefLane(pts, spec["r"])


def vertices(spec):
    """left, right, center vertex arrays."""
    ref = ref_lane(spec)
    left, right = [], []
    for p, r in zip(ref.q, ref.r):
        a, b = rot(p, 1j * r), rot(p, -1j * r)
        left.append([a.real, a.imag])
        right.append([b.real, b.imag])
    return np.array(left), np.array(right), np.array([p[:2] for p in ref.q])
