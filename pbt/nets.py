"""Lanelet networks as plain data."""
from __future__ import annotations

import math

import numpy as np
from commonroad.scenario.lanelet import Lanelet, LaneletNetwork
from commonroad.scenario.scenario import Scenario
from hypothesis import strategies as st
from shapely.geometry import Polygon

from .gens import ANGLE, fl
from .lanes import arc, comp, rot


@st.composite
def piece(draw):
    """A road piece: consecutive lanelets along one line, possibly with a neighbour and a fork, or a ring."""
    kind = draw(st.sampled_from(["chain", "chain", "chain", "ring"]))
    d = dict(kind=kind, w=draw(st.sampled_from([1.5, 2.0, 1.0, 1.75])))
    if kind == "chain":
        n = draw(st.integers(1, 3))
        d["lets"] = [[draw(st.integers(1, 4)), draw(fl(3, 10)), draw(st.sampled_from([0.0, 0.0, 0.05, -0.05, 0.1]))] for _ in range(n)]
        d["fork"] = draw(st.sampled_from([None, None, 0.08, -0.08]))
        d["side"] = draw(st.sampled_from([0, 0, 1, -1]))  # a parallel lane, in the opposite (1) or the same (-1) direction
    else:
        d["R"] = draw(fl(4, 12))
        d["k"] = draw(st.integers(1, 4))
        d["arm"] = draw(st.sampled_from([False, False, True]))  # a dead end within the ring
    d["at"] = [draw(fl(-25, 25)), draw(fl(-25, 25)), draw(ANGLE)]
    return d


@st.composite
def networks(draw, min_size=1, max_size=3):
    return dict(pieces=draw(st.lists(piece(), min_size=min_size, max_size=max_size)))


def _let(line, w, shift=0.0):
    """(left, right, center) of a strip of half width w around poses, moved to the left by shift."""
    l, r, c = [], [], []
    for p in line:
        for dst, off in ((l, shift + w), (r, shift - w), (c, shift)):
            z = rot(p, 1j * off)
            dst.append([z.real, z.imag])
    return [np.array(x) for x in (l, r, c)]


def _line(start, n, length, k):
    out = [list(start)]
    for _ in range(n):
        out.append(comp(out[-1], arc(length / n, k)))
    return out


def lanelets(spec):
    out, nid = [], 100
    for pc in spec["pieces"]:
        w = pc["w"]
        if pc["kind"] == "chain":
            p, ids = pc["at"], []
            lines = []
            for n, length, k in pc["lets"]:
                k = max(-0.9 / (length + 3), min(0.9 / (length + 3), k))
                lines.append(_line(p, max(n, 2) if k else n, length, k))
                p = lines[-1][-1]
            base = nid
            fork = base + len(lines) if pc["fork"] else None
            for i, ln in enumerate(lines):
                succ = [base + i + 1] if i + 1 < len(lines) else []
                if fork and i == len(lines) - 1 and i > 0:
                    pass
                if fork and i == 0:
                    succ = succ + [fork]
                out.append([nid, *_let(ln, w), [base + i - 1] if i else [], succ])
                nid += 1
            if fork:
                out.append([nid, *_let(_line(lines[0][-1], 4, 8.0, pc["fork"]), w), [base], []])
                nid += 1
            if pc["side"]:
                b2 = nid
                for i, ln in enumerate(lines):
                    l, r, c = _let(ln, w, 2 * w)
                    if pc["side"] == 1:  # opposite direction
                        l, r, c = r[::-1], l[::-1], c[::-1]
                        pred, succ = ([b2 + i + 1] if i + 1 < len(lines) else []), ([b2 + i - 1] if i else [])
                    else:
                        pred, succ = ([b2 + i - 1] if i else []), ([b2 + i + 1] if i + 1 < len(lines) else [])
                    out.append([nid, l, r, c, pred, succ])
                    nid += 1
        else:
            k, R = pc["k"], max(pc["R"], w + 1.5)
            tot = 24
            base = nid
            pts = _line(pc["at"], tot, 2 * math.pi * R, 1 / R)
            pts[-1] = pts[0]
            for i in range(k):
                a, b = i * tot // k, (i + 1) * tot // k
                ln = pts[a:b + 1]
                out.append([nid, *_let(ln, w), [base + (i - 1) % k], [base + (i + 1) % k]])
                nid += 1
            if pc["arm"] and R > 6:
                ww = 0.8
                st_ = comp(pts[6], [0, w * 0.5, math.pi / 2])
                out.append([nid, *_let(_line(st_, 2, R * 0.6, 0.0), ww), [base], []])
                nid += 1
    return out


def lane_polygon(l, r):
    return Polygon(list(map(tuple, r)) + list(map(tuple, l[::-1])))


def mk_network(spec) -> LaneletNetwork:
    return LaneletNetwork.create_from_lanelet_list([Lanelet(l, c, r, i, pred, succ) for i, l, r, c, pred, succ in lanelets(spec)])


def mk_scenario(spec) -> Scenario:
    s = Scenario(dt=0.1)
    s.add_objects(mk_network(spec))
    return s
