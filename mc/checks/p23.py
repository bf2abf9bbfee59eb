"""P23: channel propagation is linear, matches the channel state and is reciprocal."""
import itertools

import numpy as np

import hermespy.channel as ch
from hermespy.channel.fading.correlation import CorrelationType, StandardAntennaCorrelation
from hermespy.channel.fading.fading import CustomAntennaCorrelation
from hermespy.core import AntennaMode, Signal, Transformation
from hermespy.core.signal_model import SignalBlock
from hermespy.simulation import SimulatedCustomArray, SimulatedDevice, SimulatedIdealAntenna, SimulatedLinearAntenna, StaticTrajectory
from ..core import chunks, expect

F, BW, T0 = 1e9, 1e7, 0.0
MODES = {"D": AntennaMode.DUPLEX, "T": AntennaMode.TX, "R": AntennaMode.RX}
A, B = (1.0, 2.0, 10.0), (30.0, -3.0, 1.5)


def array(modes):
    elements = []
    for i, m in enumerate(modes):
        pose = Transformation.From_RPY(np.array([0.0, 0.0, 0.0]), np.array([0.05 * i, 0.02 * i * i, 0.0]))
        if m.islower():
            elements.append(SimulatedLinearAntenna(MODES[m.upper()], 0.3 + 0.4 * i, pose=pose))
        else:
            elements.append(SimulatedIdealAntenna(MODES[m], pose))
    return SimulatedCustomArray(elements)


def device(modes, position, velocity=None, seed=1):
    return SimulatedDevice(antennas=array(modes), pose=StaticTrajectory(Transformation.From_RPY(np.array([0.1, -0.2, 0.3]), np.array(position)), None if velocity is None else np.array(velocity)), carrier_frequency=F, seed=seed)


def counts(modes):
    m = modes.upper()
    return sum(c != "R" for c in m), sum(c != "T" for c in m)


def matrix(n):
    m = np.array([[0.3 ** abs(i - j) for j in range(n)] for i in range(n)], dtype=complex)
    return m


def multi(gain, interference=True, attenuate=False):
    c = ch.MultiTargetRadarChannel(interference, attenuate=attenuate, gain=gain, seed=1)
    for i, (p, v) in enumerate((((10.0, 3.0, 4.0), (500.0, 0, 30.0)), ((-20.0, 1.0, 2.0), (0, -700.0, 0)))):
        c.add_target(ch.VirtualRadarTarget(ch.FixedCrossSection(2.0 + i), StaticTrajectory(Transformation.From_Translation(np.array(p)), np.array(v)), static=i == 1))
    return c


def fading(**kw):
    return lambda g: ch.MultipathFadingChannel([0.0, 1.4e-7, 3e-7], [1.0, 0.5, 0.25], [2.0, 0.0, np.inf], gain=g, seed=1, **kw)


MODELS = {
    "ideal": lambda g: ch.IdealChannel(gain=g),
    "delay": lambda g: ch.RandomDelayChannel(2.5e-7, gain=g, seed=1),
    "delay range": lambda g: ch.RandomDelayChannel((1e-7, 5e-7), model_propagation_loss=False, gain=g, seed=1),
    "delay zero": lambda g: ch.RandomDelayChannel(0.0, gain=g, seed=1),
    "spatial delay": lambda g: ch.SpatialDelayChannel(gain=g, seed=1),
    "spatial lossless": lambda g: ch.SpatialDelayChannel(model_propagation_loss=False, gain=g, seed=1),
    "fading": fading(),
    "fading doppler": fading(doppler_frequency=1e6, los_angle=0.3),
    "fading los doppler": fading(los_doppler_frequency=2e6, doppler_frequency=3e5),
    "fading correlated": fading(antenna_correlation=CustomAntennaCorrelation(matrix(4))),
    "fading standard": fading(antenna_correlation=StandardAntennaCorrelation(CorrelationType.MEDIUM_A)),
    "fading unsorted": lambda g: ch.MultipathFadingChannel([3e-7, 0.0, 1.4e-7], [0.25, 1.0, 0.5], [np.inf, 2.0, 0.0], gain=g, seed=1),
    "tdl": lambda g: ch.TDL(ch.TDLType.A, 1e-7, gain=g, seed=1),
    "tdl los": lambda g: ch.TDL(ch.TDLType.E, 3e-8, doppler_frequency=1e5, gain=g, seed=1),
    "cost259": lambda g: ch.Cost259(ch.Cost259Type.URBAN, gain=g, seed=1),
    "exponential": lambda g: ch.Exponential(1e-7, 1e-7, gain=g, seed=1),
    "single target": lambda g: ch.SingleTargetRadarChannel(40.0, 1.0, velocity=np.array([500.0, 0, 0]), attenuate=False, gain=g, seed=1),
    "single range": lambda g: ch.SingleTargetRadarChannel((40.0, 90.0), 1.0, (0.0, 1.0), (0.2, 2.0), velocity=(1.0, 500.0), gain=g, seed=1),
    "no target": lambda g: ch.SingleTargetRadarChannel(40.0, 1.0, target_exists=False, gain=g, seed=1),
    "multi target": multi,
    "multi attenuated": lambda g: multi(g, attenuate=True),
    "multi silent": lambda g: multi(g, interference=False),
    "cdl a": lambda g: ch.CDL(ch.CDLType.A, 1e-8, gain=g, seed=1),
    "cdl e": lambda g: ch.CDL(ch.CDLType.E, 1e-8, gain=g, seed=1),
    "urban micro": lambda g: ch.UrbanMicrocells(gain=g, seed=1),
    "indoor office": lambda g: ch.IndoorOffice(gain=g, seed=3),
    "rural": lambda g: ch.RuralMacrocells(gain=g, seed=2),
}
SLOW = ("cdl a", "cdl e", "urban micro", "indoor office", "rural")
SQUARE = ("fading standard",)  # Defined for 1, 2 and 4 antennas only
LINKS = ["D:D", "DD:D", "D:DD", "DD:DD", "DDD:DD", "TDR:RD", "TT:RRR", "RT:TR", "d:D", "dDd:dd", "tTr:rR"]


def link(spec):
    a, b = spec.split(":")
    return a, b, counts(a)[0], counts(b)[1]


def samples(y):
    return np.asarray(y.to_dense())


def padded(a, n):
    return np.pad(a, ((0, 0), (0, max(0, n - a.shape[1]))))


def close(a, b, what, tol=1e-9, scale=None):
    n = max(a.shape[1], b.shape[1])
    expect(a.shape[0] == b.shape[0], "%s: %d streams instead of %d", what, a.shape[0], b.shape[0])
    a, b = padded(a, n), padded(b, n)
    s = scale or max(np.abs(b).max(initial=0), 1e-30)
    d = np.abs(a - b).max(initial=0)
    expect(d <= tol * s, "%s: off by %.3g of %.3g", what, d, s)


def sequence(streams, n, seed=0):
    k = np.arange(1, streams * n + 1) + 31 * seed
    return (np.cos(1.7 * k * k) + 1j * np.sin(0.9 * k)).reshape(streams, n)


def reference(h, x):
    """Time-variant convolution with impulse responses (R, T, S, L)."""
    r, t, s, l = h.shape
    out = np.zeros((r, s + l - 1), complex)
    for i in range(s):
        out[:, i : i + l] += np.einsum("rtl,t->rl", h[:, :, i], x[:, i])
    return out


def world(model, spec, gain=1.0, moving=False, swap=False, bw=BW):
    a, b, nt, nr = link(spec)
    tx = device(a, A, (300.0, 20.0, 0) if moving else None)
    rx = device(b, B, (-100.0, 0.0, 50.0) if moving else None, seed=2)
    c = MODELS[model](gain)
    r = c.realize()
    return c, r, tx, rx, r.sample(tx, rx, T0, F, bw), nt, nr


def check_link(acc, model, spec, n, moving, deep):
    c, real, tx, rx, s, nt, nr = world(model, spec, moving=moving)
    expect((s.num_transmit_antennas, s.num_receive_antennas) == (nt, nr), "antennas of the sample")
    expect((s.carrier_frequency, s.bandwidth, s.time) == (F, BW, T0), "link state")
    full = s.state(n, 10000)
    h = full.dense_state()
    expect(h.shape[:3] == (nr, nt, n), "state of dimensions %s for %d receive and %d transmit antennas and %d samples", h.shape, nr, nt, n)
    scale = max(np.abs(h).max(initial=0), 1e-30)
    acc.state(model, spec, n, moving, np.round(h.flat[0], 9))

    def propagate(x, **kw):
        sig = Signal.Create(x.copy(), BW, F, noise_power=0.5, delay=0.25, **kw)
        y = s.propagate(sig)
        close(samples(sig), x, "transmitted signal after its propagation", 0)
        expect((y.sampling_rate, y.carrier_frequency, y.noise_power, y.delay) == (BW, F, 0.5, 0.25), "metadata of the propagated signal %s", (y.sampling_rate, y.carrier_frequency, y.noise_power, y.delay))
        expect(y.num_streams == nr, "%d propagated streams instead of %d", y.num_streams, nr)
        expect(y.num_samples >= n, "%d propagated of %d transmitted samples", y.num_samples, n)
        acc.step()
        return samples(y)

    # Every basis impulse: the linear map as such
    columns = {}
    for a in range(nt):
        for i in range(n) if deep else (0, n - 1):
            x = np.zeros((nt, n), complex)
            x[a, i] = 1.0
            columns[a, i] = y = propagate(x)
            close(y, reference(h, x), "response to an impulse of antenna %d at sample %d" % (a, i), scale=scale)
            expect(np.abs(y[:, :i]).max(initial=0) == 0, "response before the impulse")
    x1, x2 = sequence(nt, n, 1), sequence(nt, n, 2)
    y1, y2 = propagate(x1), propagate(x2)
    close(y1, reference(h, x1), "propagation against the channel state", scale=scale * n)
    close(propagate((0.5 - 2j) * x1 + 3j * x2), (0.5 - 2j) * y1 + 3j * y2, "superposition", scale=10 * scale * n)
    close(propagate(x1), y1, "repeated propagation", 0)
    close(propagate(np.zeros_like(x1)), np.zeros_like(y1), "propagated silence", 0)

    # Truncated states hold the first taps
    for taps in range(1, min(h.shape[3], 4) + 1):
        q = s.state(n, taps)
        expect(q.num_delay_taps == q.dense_state().shape[3] <= taps, "%d taps of at most %d", q.num_delay_taps, taps)
        g = q.dense_state()
        expect(np.allclose(g, h[:, :, :, : g.shape[3]], rtol=1e-9, atol=1e-9 * scale), "state truncated to %d taps", taps)
        if g.shape[3] < taps:
            expect(np.abs(h[:, :, :, g.shape[3] :]).max(initial=0) <= 1e-9 * scale, "taps lost")
        acc.step()

    # Sparse signals are propagated by block
    half = n // 2
    if n > 2:
        sig = Signal.Create([SignalBlock(nt, half, 0, x1[:, :half].tobytes()), SignalBlock(nt, n - half, 4 * n, x1[:, half:].tobytes())], BW, F)
        y = s.propagate(sig)
        blocks = list(y.blocks)
        expect(len(blocks) == 2 and [b.offset for b in blocks] == [0, 4 * n], "blocks %s of a propagated sparse signal", [b.offset for b in blocks])
        close(np.asarray(blocks[0]), reference(h[:, :, :half], x1[:, :half]), "first block", scale=scale * n)
        close(np.asarray(blocks[1]), reference(h[:, :, : n - half], x1[:, half:]), "second block", scale=scale * n)
        acc.step()

    # Wrong numbers of streams are rejected
    try:
        s.propagate(Signal.Create(np.ones((nt + 1, n), complex), BW, F))
    except ValueError:
        pass
    else:
        raise AssertionError("propagated %d streams of %d antennas" % (nt + 1, nt))


def check_gain(acc, model, spec, gain, moving):
    _, _, _, _, one, nt, nr = world(model, spec, 1.0, moving)
    _, _, _, _, s, _, _ = world(model, spec, gain, moving)
    x = sequence(nt, 6)
    want = samples(one.propagate(Signal.Create(x.copy(), BW, F)))
    sig = Signal.Create(x.copy(), BW, F)
    y = s.propagate(sig)
    acc.step(2)
    close(samples(sig), x, "transmitted signal", 0)
    expect(abs(s.expected_energy_scale - gain * one.expected_energy_scale) <= 1e-9 * one.expected_energy_scale * max(gain, 1e-9), "energy scale %.6g of gain %g instead of %.6g", s.expected_energy_scale, gain, gain * one.expected_energy_scale)
    close(samples(y), gain**0.5 * want, "power gain %g" % gain, scale=max(np.abs(want).max(initial=0), 1e-30))
    expect(y.num_streams == nr, "%d streams", y.num_streams)
    h, g = one.state(6, 100).dense_state(), s.state(6, 100).dense_state()
    expect(np.allclose(g, gain**0.5 * h, rtol=1e-9, atol=1e-12 * np.abs(h).max(initial=0)), "gain of the channel state")
    acc.state("gain", model, spec, gain)


def check_reciprocal(acc, model, spec, moving):
    c, real, tx, rx, s, nt, nr = world(model, spec, moving=moving)
    r = real.reciprocal_sample(s, rx, tx, T0, F, BW)
    expect((r.num_transmit_antennas, r.num_receive_antennas) == (counts(spec.split(":")[1])[0], counts(spec.split(":")[0])[1]), "antennas of the reciprocal sample")
    h, g = s.state(4, 10000).dense_state(), r.state(4, 10000).dense_state()
    n = max(h.shape[3], g.shape[3])
    p = lambda q: np.pad(q, ((0, 0), (0, 0), (0, 0), (0, n - q.shape[3])))
    close(p(g).reshape(g.shape[0], -1), p(h).transpose(1, 0, 2, 3).reshape(g.shape[0], -1), "reciprocal channel state", scale=max(np.abs(h).max(initial=0), 1e-30))
    x = sequence(r.num_transmit_antennas, 4)
    close(samples(r.propagate(Signal.Create(x, BW, F))), reference(g, x), "reciprocal propagation", scale=max(np.abs(h).max(initial=0), 1e-30) * 4)
    acc.step(2)
    acc.state("reciprocal", model, spec)


def check_delay(acc, delay, bw, spec):
    """Delay channels delay by the configured time and nothing else."""
    a, b, nt, nr = link(spec)
    for loss in (False, True):
        c = ch.RandomDelayChannel(delay, model_propagation_loss=loss, gain=1.0, seed=1)
        s = c.realize().sample(device(a, A), device(b, B), 0.0, F, bw)
        zero = ch.RandomDelayChannel(0.0, model_propagation_loss=False, seed=1).realize().sample(device(a, A), device(b, B), 0.0, F, bw)
        x = sequence(nt, 5)
        y, z = samples(s.propagate(Signal.Create(x.copy(), bw, F))), samples(zero.propagate(Signal.Create(x.copy(), bw, F)))
        d = int(np.floor(delay * bw + 0.5)) if abs(delay * bw % 1 - 0.5) > 1e-6 else None
        amplitude = 1.0 if not loss or delay == 0 else 299792458.0 / F / (4 * np.pi * delay * 299792458.0)
        if d is not None:
            close(y, amplitude * np.pad(z, ((0, 0), (d, 0))), "delay of %g samples" % (delay * bw))
        expect(abs(s.expected_energy_scale - amplitude**2) < 1e-12 * max(1, amplitude**2), "energy scale %g instead of %g", s.expected_energy_scale, amplitude**2)
        acc.step()
    acc.state(delay, bw, spec)


def run_cases(acc, shard):
    for kind, *args in shard:
        fn = {"link": check_link, "gain": check_gain, "reciprocal": check_reciprocal, "delay": check_delay}[kind]
        label = args[0] if kind != "delay" else "delay"
        acc.run("channel/%s/%s" % (kind, label), lambda: fn(acc, *args), {"kind": kind, "arguments": [str(a) for a in args]})


def main(check):
    t = check.thorough
    cases = []
    for m in MODELS:
        for l in LINKS:
            if m in SQUARE and any(x == 3 for x in link(l)[2:]):
                continue
            slow = m in SLOW
            if slow and not t and l not in ("D:D", "TDR:RD", "RT:TR", "dDd:dd"):
                continue
            for moving in (False, True):
                cases.append(("link", m, l, 5 if slow else 8, moving, not slow or t))
                if t and not slow:
                    cases += [("link", m, l, n, moving, True) for n in (1, 2, 3, 21)]
            for g in (0.0, 0.25, 3.0) if not slow else (0.0, 0.25):
                if slow and not t and l not in ("D:D", "dDd:dd"):
                    continue
                cases.append(("gain", m, l, g, True))
            if all(x in "Dd:" for x in l) and (not slow or l in ("D:D", "dDd:dd") or t):
                for moving in (False, True)[: 1 if slow else 2]:
                    cases.append(("reciprocal", m, l, moving))
    for d in (0.0, 1e-7, 1.4e-7, 2.6e-7, 7.2e-7):
        for bw in (1e7, 4e7):
            for l in LINKS[:7]:
                cases.append(("delay", d, bw, l))
    check.explore(run_cases, chunks(cases, 64), case_timeout=300)
    check.bounds = {"models": len(MODELS), "links": len(LINKS), "cases": len(cases), "samples": 8}
    check.assumptions = ["one seed per model, since the map is decided for each drawn realization on all basis impulses",
                         "reciprocity of cluster delay line models is decided for devices at rest only"]
