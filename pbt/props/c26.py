"""C26: vehicle lights."""
from __future__ import annotations

import math
from dataclasses import asdict
from decimal import Decimal as D

import matplotlib

matplotlib.use("Agg")
import matplotlib.colors as mcolors  # noqa: E402
from hypothesis import strategies as st  # noqa: E402
from matplotlib.figure import Figure  # noqa: E402

from dg_commons.sim.models.pedestrian import PedestrianCommands  # noqa: E402
from dg_commons.sim.models.vehicle import VehicleCommands, VehicleState  # noqa: E402
from dg_commons.sim.models.vehicle_ligths import LIGHTS_HAZARD, LIGHTS_HEADLIGHTS, LIGHTS_TURN_LEFT, LIGHTS_TURN_RIGHT, NO_LIGHTS, LightsValues, get_phased_lights, lightscmd2phases  # noqa: E402
from dg_commons.sim.models.vehicle_structures import VehicleGeometry  # noqa: E402
from dg_commons.sim.simulator_animation import get_lights_colors_from_cmds, lights_colors_from_lights_cmd  # noqa: E402
from dg_commons.sim.simulator_visualisation import plot_vehicle  # noqa: E402
from pbt.core import ensure, ensure_close, ensure_raises, subtest  # noqa: E402
from pbt.gens import fl, nice, se2  # noqa: E402
from pbt.lanes import rot  # noqa: E402

P = "C26"
RULE = "random histories of light queries over signals, accelerations and times (labels: signal, braking, phase), and drawings of vehicles with their lights"
ASSUMPTIONS = ["indicators are on around t = 0 and change every 0.4 s, at odd multiples of 0.2 s; queries within 1e-6 of a change are skipped",
               "braking means a negative commanded acceleration; an indicator which is on hides the brake light behind it"]

RED, BRAKE, ORANGE, WHITE, YELLOW = (0.5, 0.0, 0.0), (1.0, 0.0, 0.0), (1.0, 0.5, 0.3), (0.9, 0.9, 0.9), (1.0, 1.0, 0.0)
SIGNALS = ["none", "headlights", "turn_left", "turn_right", "hazard"]
PERIOD = 0.4


def expected(sig, acc, t, period=PERIOD):
    """{light: colour} or None next to a change."""
    q = t / period
    if abs(abs(q - math.floor(q)) - 0.5) < 1e-6:
        return None
    on = math.floor(q + 0.5) % 2 == 0
    rear = BRAKE if acc < 0 else RED
    front = YELLOW if sig == "headlights" else WHITE
    left = on and sig in ("turn_left", "hazard")
    right = on and sig in ("turn_right", "hazard")
    return dict(front_left=ORANGE if left else front, front_right=ORANGE if right else front, back_left=ORANGE if left else rear, back_right=ORANGE if right else rear)


T = st.one_of(fl(0, 30), st.integers(0, 60).map(lambda k: k * 0.4), st.integers(0, 300).map(lambda k: k * 0.1 + 0.05), fl(-3, 0))
ACC = st.one_of(fl(-8, 5), st.sampled_from([0.0, -0.0, -1e-9, 1e-9, -1.0, 1.0]))
QUERY = st.fixed_dictionaries(dict(sig=st.sampled_from(SIGNALS), acc=ACC, t=T, dec=st.booleans(), via=st.sampled_from(["cmds", "signal"])))


def show(q):
    t = D(repr(q["t"])) if q["dec"] else q["t"]
    if q["via"] == "cmds":
        return get_lights_colors_from_cmds(VehicleCommands(acc=q["acc"], ddelta=0.0, lights=q["sig"]), t)
    return lights_colors_from_lights_cmd(q["sig"], q["acc"], t)


@subtest(P, lambda: st.lists(QUERY, min_size=1, max_size=12), quick=2500, need=("none braking", "turn_left", "turn_right braking", "hazard", "headlights braking", "history"))
def colours_follow_signal_braking_and_time(qs):
    labels = set()
    results = []
    for q in qs:
        got = show(q)
        results.append((q, got))
        want = expected(q["sig"], q["acc"], q["t"])
        if want is None:
            continue
        d = asdict(got)
        for k, c in want.items():
            ensure(tuple(d[k]) == c, f"{k} shows {d[k]} instead of {c} for {q}, query {len(results)}", key=k)
        ensure(set(d) == set(want), f"lights {set(d)}")
        labels.add(q["sig"] + (" braking" if q["acc"] < 0 else ""))
        if len(results) > 1:
            labels.add("history")
    for q, got in results:  # what was answered earlier stays as it is
        want = expected(q["sig"], q["acc"], q["t"])
        ensure(want is None or {k: tuple(v) for k, v in asdict(got).items()} == want, f"the earlier answer to {q} changed to {got}", key="earlier")
    return sorted(labels)


@subtest(P, lambda: st.fixed_dictionaries(dict(sig=st.sampled_from(SIGNALS), t=fl(0, 50), period=fl(0.05, 3.0), n=st.integers(1, 5))), quick=500)
def phases_alternate_with_their_period(c):
    ensure(set(LightsValues) == set(SIGNALS) == {NO_LIGHTS, LIGHTS_HEADLIGHTS, LIGHTS_TURN_LEFT, LIGHTS_TURN_RIGHT, LIGHTS_HAZARD}, "defined signals")
    ph = lightscmd2phases[c["sig"]]
    want = expected(c["sig"], 0.0, c["t"], c["period"])
    if want is None:
        return None
    got = asdict(get_phased_lights(ph, c["t"], c["period"]))
    ensure({k: tuple(v) for k, v in got.items()} == want, f"{got} instead of {want}")
    # one full cycle later the same, half a cycle later the other phase
    later = asdict(get_phased_lights(ph, c["t"] + 2 * c["n"] * c["period"], c["period"]))
    e2 = expected(c["sig"], 0.0, c["t"] + 2 * c["n"] * c["period"], c["period"])
    ensure(e2 is None or later == got, "not periodic")
    other = asdict(get_phased_lights(ph, c["t"] + c["period"], c["period"]))
    e3 = expected(c["sig"], 0.0, c["t"] + c["period"], c["period"])
    if e3 is not None:
        blinks = c["sig"] in ("turn_left", "turn_right", "hazard")
        ensure((other != got) is blinks, f"{c['sig']} {'does not blink' if blinks else 'blinks'}")
    return "period"


@subtest(P, lambda: st.fixed_dictionaries(dict(sig=st.sampled_from(["left", "", "NONE", "brake", "hazards"]), acc=ACC, t=T)), quick=60)
def undefined_signals_and_players_without_lights(c):
    ensure_raises(lambda: lights_colors_from_lights_cmd(c["sig"], c["acc"], c["t"]), Exception, msg="an undefined signal has colours")
    ensure(get_lights_colors_from_cmds(PedestrianCommands(acc=c["acc"], dpsi=0.0), c["t"]) is None, "a pedestrian has lights")
    return "none"


AX = []


def axes():
    if not AX:
        AX.append(Figure().add_subplot())
    AX[0].clear()
    return AX[0]


@subtest(P, lambda: st.fixed_dictionaries(dict(kind=st.sampled_from(["car", "truck", "bicycle"]), frames=st.lists(st.tuples(se2(big=True), QUERY).map(list), min_size=1, max_size=5))), quick=120, need=("drawn",))
def drawn_lights_show_the_colours_at_the_corners(c):
    vg = getattr(VehicleGeometry, "default_" + c["kind"])()
    ax = axes()
    poly = patches = None
    lab = None
    for pose, q in c["frames"]:
        x = VehicleState(x=pose[0], y=pose[1], psi=pose[2], vx=1.0, delta=0.1)
        poly, patches = plot_vehicle(ax, "P", x, show(q), vg, 0.7, vehicle_poly=poly, lights_patches=patches, plot_wheels=True, plot_ligths=True)
        want = expected(q["sig"], q["acc"], q["t"])
        if want is None:
            continue
        names = list(vg.lights_position)
        ensure(set(names) == set(want) and len(patches) == 4, f"lights {names}")
        for n, p in zip(names, patches):
            z = rot(pose, complex(*vg.lights_position[n]))
            ensure_close(float(p.center[0]), z.real, f"position of {n}", abs_tol=1e-9)
            ensure_close(float(p.center[1]), z.imag, f"position of {n}", abs_tol=1e-9)
            got = mcolors.to_rgb(p.get_facecolor())
            ensure(all(abs(a - b) < 1e-9 for a, b in zip(got, want[n])), f"{n} is drawn {got} instead of {want[n]}")
            side = 1 if "left" in n else -1
            end = 1 if "front" in n else -1
            ensure(vg.lights_position[n][1] * side > 0 and vg.lights_position[n][0] * end > 0, f"{n} is at {vg.lights_position[n]}")
            ensure_close(end * vg.lights_position[n][0], max(end * q[0] for q in vg.outline), f"{n} is not at the end of the body", abs_tol=1e-6)
        lab = "drawn"
    return lab
