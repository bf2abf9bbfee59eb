"""P24: channel realizations are fixed, reproducible and restorable draws of the configured channel."""
import itertools

import numpy as np

import hermespy.channel as ch
from hermespy.channel.cdl.cluster_delay_lines import ClusterDelayLineSample, LOSState, O2IState
from hermespy.channel.cdl.indoor_factory import FactoryType
from hermespy.channel.fading.fading import CustomAntennaCorrelation
from hermespy.core import Signal
from hermespy.simulation import StaticTrajectory
from hermespy.core import Transformation
from ..core import chunks, expect, histories
from .p23 import A, B, BW, F, MODELS, SLOW, device, fading, matrix, samples, sequence
from .p35 import roundtrip

DEVICES = None
LINKS = ((0, 1, 0.0), (1, 0, 0.0), (2, 1, 0.5))  # Transmitter, receiver, time


def devices():
    global DEVICES
    if DEVICES is None:
        DEVICES = (device("TDR", A, (30.0, 2, 0)), device("D", B, (-1.0, 0, 5), seed=2), device("DD", (3.0, -7.0, 8.0), seed=3))
    return DEVICES


def S(**values):
    def apply(c):
        for k, v in values.items():
            setattr(c, k, v)

    return apply


def add_target(c):
    c.add_target(ch.VirtualRadarTarget(ch.FixedCrossSection(7.0), StaticTrajectory(Transformation.From_Translation(np.array((3.0, 33.0, 4.0))))))


def drop_target(c):
    c.targets.clear()


FADING = [S(gain=0.5), S(doppler_frequency=4e5, los_angle=0.7), S(correlation_distance=20.0), S(los_doppler_frequency=9e5), S(antenna_correlation=CustomAntennaCorrelation(matrix(3)))]
CLUSTER = [S(gain=0.5), S(oxygen_absorption=False, delay_normalization=ch.DelayNormalization.TOF)]
CHANNELS = dict(MODELS)
CHANNELS.update({
    "delay consistent": lambda g: ch.RandomDelayChannel((1e-7, 5e-7), 20.0, gain=g, seed=1),
    "fading consistent": fading(correlation_distance=10.0),
    "single consistent": lambda g: ch.SingleTargetRadarChannel((40.0, 90.0), 1.0, (0.0, 1.0), (0.2, 2.0), velocity=(1.0, 500.0), decorrelation_distance=15.0, gain=g, seed=1),
    "urban macro": lambda g: ch.UrbanMacrocells(gain=g, seed=2),
    "office los": lambda g: ch.IndoorOffice(expected_state=LOSState.LOS, gain=g, seed=3),
    "micro nlos": lambda g: ch.UrbanMicrocells(expected_state=O2IState.NLOS, gain=g, seed=3),
    "macro o2i": lambda g: ch.UrbanMacrocells(expected_state=O2IState.O2I, gain=g, seed=3),
    "rural o2i": lambda g: ch.RuralMacrocells(expected_state=O2IState.O2I, gain=g, seed=3),
    "factory": lambda g: ch.IndoorFactory(9000.0, 3000.0, FactoryType.DH, 2.0, gain=g, seed=3),
    "factory nlos": lambda g: ch.IndoorFactory(9000.0, 3000.0, FactoryType.SL, expected_state=LOSState.NLOS, gain=g, seed=3),
})
CONFIGURE = {
    "ideal": [S(gain=0.5)],
    "delay": [S(gain=0.5), S(delay=4e-7), S(delay=(1e-7, 3e-7)), S(model_propagation_loss=False, decorrelation_distance=5.0)],
    "spatial": [S(gain=0.5), S(model_propagation_loss=False), S(model_propagation_loss=True)],
    "fading": FADING, "tdl": FADING, "cost259": FADING, "exponential": FADING,
    "single": [S(gain=0.5), S(target_range=70.0), S(target_velocity=(0.0, 200.0)), S(target_exists=False), S(radar_cross_section=9.0, target_azimuth=0.5, target_zenith=(0.1, 1.0)), S(attenuate=True, decorrelation_distance=9.0)],
    "no": [S(gain=0.5), S(target_exists=True)],
    "multi": [S(gain=0.5), S(interference=False), S(interference=True), add_target, drop_target, S(attenuate=True, decorrelation_distance=9.0)],
    "cdl": [S(gain=0.5), S(rms_delay=5e-8), S(rayleigh_factor=3.0), S(decorrelation_distance=5.0)],
    "urban": CLUSTER + [S(expected_state=O2IState.O2I)], "macro": CLUSTER + [S(expected_state=O2IState.LOS)], "micro": CLUSTER + [S(expected_state=None)],
    "rural": CLUSTER + [S(expected_state=O2IState.LOS)],
    "indoor": CLUSTER + [S(expected_state=LOSState.NLOS), S(office_type=ch.OfficeType.OPEN)], "office": CLUSTER + [S(expected_state=None)],
    "factory": CLUSTER + [S(expected_state=LOSState.LOS), S(factory_type=FactoryType.SL), S(clutter_height=1.0, volume=5000.0, surface=900.0)],
}
SLUGGISH = SLOW + tuple(m for m in CHANNELS if m.split()[0] in ("urban", "office", "micro", "macro", "rural", "factory", "cdl"))
CONSTANT = ("ideal", "delay", "delay zero", "spatial delay", "spatial lossless", "no target")
REFERENCE = {}


def configurations(model):
    return CONFIGURE[model.split()[0]]


def outcome(sample):
    n = 1 if isinstance(sample, ClusterDelayLineSample) else 3
    h = sample.state(n, 5000).dense_state()
    x = sequence(sample.num_transmit_antennas, n)
    y = samples(sample.propagate(Signal.Create(x, BW, F)))
    return h, y, sample.expected_energy_scale, sample.time, sample.carrier_frequency, sample.bandwidth


def reference(model, trace, link):
    """Outcome of sampling `link` first after the realizations and configurations of `trace` only."""
    key = (model, trace, link)
    if key not in REFERENCE:
        c = CHANNELS[model](1.0)
        r = None
        for op in trace:
            if op == "R":
                r = c.realize()
            else:
                configurations(model)[op](c)
        a, b, t = LINKS[link]
        REFERENCE[key] = outcome(r.sample(devices()[a], devices()[b], t, F, BW))
    return REFERENCE[key]


def same(got, want, what):
    scale = max(np.abs(want[0]).max(initial=0), 1e-30)
    for g, w, name in ((got[0], want[0], "state"), (got[1], want[1], "propagation")):
        expect(g.shape == w.shape, "%s: %s of shape %s instead of %s", what, name, g.shape, w.shape)
        d = np.abs(g - w).max(initial=0)
        expect(d <= 1e-9 * scale * (1 if name == "state" else 10), "%s: %s off by %.3g of %.3g", what, name, d, scale)
    expect(abs(got[2] - want[2]) <= 1e-9 * abs(want[2]), "%s: energy scale %g instead of %g", what, got[2], want[2])
    expect(got[3:] == want[3:], "%s: link %s instead of %s", what, got[3:], want[3:])


def run_history(acc, model, history):
    c = CHANNELS[model](1.0)
    trace = ("R",)
    live = [(c.realize(), trace)]
    gains = [c.gain]
    for op in history:
        acc.step()
        if op[0] == "realize":
            trace += ("R",)
            r = c.realize(cache=op[1])
            if op[1]:
                expect(c.realization is r, "the cached realization isn't the last one")
            else:
                expect(c.realization is not r, "cached a realization not to be cached")
                live.append((r, trace))
                gains.append(c.gain)
                continue
            live.append((r, trace))
            gains.append(c.gain)
        elif op[0] == "configure":
            trace += (op[1],)
            configurations(model)[op[1]](c)
        elif op[0] == "sample":
            r, t = live[op[1]]
            a, b, time = LINKS[op[2]]
            d = devices()
            if op[3] == "devices":
                s = r.sample(d[a], d[b], time, F, BW)
            else:
                s = r.sample(d[a].state(time), d[b].state(time), time, carrier_frequency=F, bandwidth=BW)
            same(outcome(s), reference(model, t, op[2]), "sample of realization %d" % op[1])
        elif op[0] == "restore":
            r, t = live[op[1]]
            live[op[1]] = roundtrip(r), t
        elif op[0] == "propagate":
            trace += ("R",)
            a, b, time = LINKS[op[1]]
            d = devices()
            x = sequence(d[a].antennas.num_transmit_antennas, 1 if model in SLUGGISH else 3)
            y = samples(c.propagate(Signal.Create(x, BW, F), d[a], d[b], time))
            want = reference(model, trace, op[1])
            expect(y.shape == want[1].shape and np.abs(y - want[1]).max(initial=0) <= 1e-8 * max(np.abs(want[0]).max(initial=0), 1e-30), "propagation over a new realization")
            live.append((c.realization, trace))
            gains.append(c.gain)
    for i, (r, t) in enumerate(live):
        expect(abs(r.gain - gains[i]) < 1e-12, "gain %g of realization %d instead of %g", r.gain, i, gains[i])
    # In the end, each realization still is what has been drawn
    for i, (r, t) in reversed(list(enumerate(live))):
        for l in range(len(LINKS)) if not model in SLUGGISH else (0,):
            a, b, time = LINKS[l]
            same(outcome(r.sample(devices()[a], devices()[b], time, F, BW)), reference(model, t, l), "final sample of realization %d" % i)
    acc.state(model, trace, tuple(h[0] for h in history))


def check_draws(acc, model):
    """Realizations are drawn anew, reproducibly and depending on the seed."""
    c = CHANNELS[model](1.0)
    d = devices()
    get = lambda r, l: outcome(r.sample(d[LINKS[l][0]], d[LINKS[l][1]], LINKS[l][2], F, BW))
    first, second = c.realize(), c.realize()
    one, two = get(first, 0), get(second, 0)
    twin = CHANNELS[model](1.0)
    same(get(twin.realize(), 0), one, "equally seeded channel")
    same(get(twin.realize(), 0), two, "second realization of an equally seeded channel")
    if model not in CONSTANT:
        differ = lambda o: one[0].shape != o[0].shape or np.abs(one[0] - o[0]).max() > 1e-6 * np.abs(one[0]).max()
        expect(any(differ(get(c.realize(), 0)) for _ in range(6)), "all realizations are equal")
        others = []
        for seed in range(1234, 1240):
            c.seed = seed
            others.append(get(c.realize(), 0))
        expect(any(map(differ, others)), "realizations of different seeds are equal")
    c.seed = twin.seed
    same(get(c.realize(), 0), one, "realization after seeding again")
    # Defaults of the link
    for r in (first, roundtrip(first)):
        s = r.sample(d[0], d[1])
        expect((s.time, s.carrier_frequency, s.bandwidth) == (0.0, d[0].carrier_frequency, d[0].sampling_rate), "defaults of a sample")
    acc.step(8)
    acc.state("draws", model)


def check_consistent(acc, model, distance):
    """Draws of spatially consistent models depend continuously on the positions of the devices."""
    c = CHANNELS[model](1.0)
    for k in ("correlation_distance", "decorrelation_distance"):
        if hasattr(c, k):
            setattr(c, k, distance)
    r = c.realize()
    tx, rx = device("D", A), device("D", B, seed=2)

    def parameters(da, db):
        s = r.sample(device("D", np.add(A, da)), device("D", np.add(B, db), seed=2), 0.0, F, BW)
        return parameters_of(s)

    zero = parameters((0, 0, 0), (0, 0, 0))
    for axis in np.eye(3):
        for step in (1e-7, 1e-5):
            for da, db in ((axis * step, 0 * axis), (0 * axis, axis * step), (axis * step, -axis * step)):
                got = parameters(da, db)
                acc.step()
                for k in zero:
                    d = np.abs(np.exp(2j * np.pi * np.asarray(got[k])) - np.exp(2j * np.pi * np.asarray(zero[k]))).max(initial=0)
                    expect(d <= 1e4 * step / min(distance, 1.0) / 10, "%s changes by %.3g moving by %.0e m", k, d, step)
    if distance == float("inf"):
        far = parameters((100.0, 50, 1), (3.0, 9, 2))
        for k in zero:
            expect(np.allclose(far[k], zero[k], rtol=1e-9), "%s of a static realization depends on the position", k)
    acc.state(model, distance)


def parameters_of(s):
    if isinstance(s, ch.MultipathFadingSample):
        return {"spatial": np.angle(s.spatial_response) / (2 * np.pi), "los phases": s.los_phases / (2 * np.pi), "nlos phases": s.nlos_phases / (2 * np.pi), "los angles": s.los_angles / (2 * np.pi), "nlos angles": s.nlos_angles / (2 * np.pi)}
    return {"delay": np.array([s.delay * 1e6])}


def run_cases(acc, shard):
    for kind, *args in shard:
        fn = {"history": run_history, "draws": check_draws, "consistent": check_consistent}[kind]
        acc.run("realization/%s/%s" % (kind, args[0]), lambda: fn(acc, *args), {"kind": kind, "arguments": [str(a) for a in args]})


def alphabet(model, t):
    ops = [("realize", True), ("sample", 0, 0, "devices"), ("sample", -1, 2, "states"), ("restore", -1), ("propagate", 0)]
    ops += [("configure", i) for i in range(len(configurations(model)))]
    if t or model not in SLUGGISH:
        ops += [("realize", False), ("sample", -1, 1, "devices"), ("restore", 0)]
    return ops


def main(check):
    t = check.thorough
    cases = []
    for m in CHANNELS:
        slow = m in SLUGGISH
        if m == "fading standard":
            continue
        core = [("realize", True), ("sample", 0, 0, "devices"), ("restore", 0), ("configure", 0), ("configure", len(configurations(m)) - 1)]
        for h in histories(alphabet(m, t) if t or not slow else core, 3 if t and not slow else 2):
            cases.append(("history", m, h))
        if t:
            cases += [("history", m, h) for h in histories(core, 3 if slow else 4, 3 if slow else 4)]
        elif not slow:
            cases += [("history", m, h) for h in histories(core, 3, 3)]
        cases.append(("draws", m))
    for m in ("delay range", "fading", "fading correlated", "tdl", "tdl los", "cost259", "exponential"):
        for distance in (1.0, 5.0, 50.0, float("inf")):
            cases.append(("consistent", m, distance))
    check.explore(run_cases, chunks(cases, 512), case_timeout=300)
    check.bounds = {"channels": len(CHANNELS) - 1, "depth": 4 if t else 3, "depth of cluster delay line models": 3 if t else 2, "cases": len(cases)}
    check.assumptions = ["targets and correlation models handed to a channel are not modified in place"]
