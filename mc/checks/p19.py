"""P19: ideal channel estimations know the channel the latest sample of their link applies to each symbol."""
import itertools

import numpy as np

import hermespy.modem as mo
from hermespy.channel import IdealChannel, MultipathFadingChannel
from hermespy.core import Signal, Transformation
from hermespy.modem import ElementType, GridElement, GridResource, GuardSection, PilotSection, PrefixType, SymbolSection, Symbols
from hermespy.simulation import OFDMIdealChannelEstimation, SimulatedDevice, SimulatedIdealAntenna, SimulatedUniformArray, SingleCarrierIdealChannelEstimation
from ..core import Acc, chunks, expect, histories

BANDWIDTH = 1e6
CHANNELS = {
    "ideal": lambda: IdealChannel(gain=0.36),
    "flat": lambda: MultipathFadingChannel([0.0], [1.0], [0.0], gain=0.5, los_doppler_frequency=0.0, doppler_frequency=0.0, seed=3),
    "moving": lambda: MultipathFadingChannel([0.0], [1.0], [1.0], gain=2.0, doppler_frequency=3e3, seed=4),
    "paths": lambda: MultipathFadingChannel([0.0, 1e-6, 2e-6], [1.0, 0.5, 0.25], [2.0, 0.0, 0.0], doppler_frequency=0.0, seed=5),
    "moving paths": lambda: MultipathFadingChannel([0.0, 2e-6], [1.0, 0.5], [0.0, 0.0], doppler_frequency=2e3, seed=6),
}


def single(cls, **kw):
    return lambda: cls(num_preamble_symbols=2, num_postamble_symbols=1, num_data_symbols=4, modulation_order=4, **kw)


def grid(structure, pilot=False, dc=False):
    def make():
        resources = [GridResource(8, PrefixType.CYCLIC, 0.5, [GridElement(ElementType.DATA)]), GridResource(4, PrefixType.CYCLIC, 0.375, [GridElement(ElementType.REFERENCE), GridElement(ElementType.DATA)])]
        w = mo.OFDMWaveform(grid_resources=resources, grid_structure=structure(), num_subcarriers=8, modulation_order=4, dc_suppression=dc)
        if pilot:
            w.pilot_section = PilotSection()
        return w
    return make


SINGLE = {"rrc": single(mo.RootRaisedCosineWaveform, roll_off=0.9), "short rrc": single(mo.RootRaisedCosineWaveform, roll_off=0.5, filter_length=5), "rc": single(mo.RaisedCosineWaveform, roll_off=0.2), "rect": single(mo.RectangularWaveform), "fmcw": single(mo.FMCWWaveform, num_samples_per_chirp=5)}
OFDM = {"ofdm": grid(lambda: [SymbolSection(3, [0])]), "mixed": grid(lambda: [SymbolSection(1, [0]), GuardSection(3e-6), SymbolSection(2, [1, 0])]), "pilot": grid(lambda: [SymbolSection(2, [0, 1])], pilot=True), "dc": grid(lambda: [SymbolSection(2, [0])], dc=True)}


def device(num, oversampling, x):
    return SimulatedDevice(carrier_frequency=1e9, bandwidth=BANDWIDTH, oversampling_factor=oversampling, antennas=SimulatedUniformArray(SimulatedIdealAntenna(), 0.15, [num, 1, 1]), pose=Transformation.From_Translation(np.array([x, 0.0, 0.0])))


def through(sample, samples, oversampling):
    out = sample.propagate(Signal.Create(samples, BANDWIDTH * oversampling, 1e9))
    return np.asarray(out.to_dense().view(np.ndarray))


def placed(w, block, symbol):
    """Symbols of a frame of which a single one is transmitted."""
    if isinstance(w, mo.OFDMWaveform):
        raw = np.zeros((1, w.words_per_frame, w.num_subcarriers), dtype=complex)
    else:
        raw = np.zeros((1, w._num_frame_symbols, 1), dtype=complex)
    raw[0, block, symbol] = 1.0
    return Symbols(raw)


def reference(w, sample, nt, nr, oversampling, delay):
    """Gain of each symbol of a frame starting after a delay, observed by transmitting it alone."""
    blocks, symbols = (w.words_per_frame, w.num_subcarriers) if isinstance(w, mo.OFDMWaveform) else (w._num_frame_symbols, 1)
    n = w.samples_per_frame(BANDWIDTH, oversampling)
    gains = np.zeros((nr, nt, blocks, symbols), dtype=complex)
    for b, s in itertools.product(range(blocks), range(symbols)):
        frame = np.asarray(w.modulate(placed(w, b, s), BANDWIDTH, oversampling)).flatten()
        unit = w.demodulate(frame, BANDWIDTH, oversampling).raw[0, b, s]
        for t in range(nt):
            samples = np.zeros((nt, delay + n), dtype=complex)
            samples[t, delay:] = frame
            for r, stream in enumerate(through(sample, samples, oversampling)):
                got = w.demodulate(np.pad(stream, (0, n))[delay : delay + n], BANDWIDTH, oversampling).raw[0, b, s]
                gains[r, t, b, s] = got if not isinstance(w, mo.OFDMWaveform) or abs(unit) > 1e-9 else np.nan
    return gains


def estimate(acc, case):
    """The estimate equals the gain by which each symbol is received."""
    _, name, channel, antennas, oversampling, delay = case
    nt, nr = antennas
    a, b = device(nt, oversampling, 0.0), device(nr, oversampling, 40.0)
    link = CHANNELS[channel]()
    if name in SINGLE:
        w, make = SINGLE[name](), SingleCarrierIdealChannelEstimation
    else:
        w, make = OFDM[name](), OFDMIdealChannelEstimation
    estimation = make(link, a, b)
    w.channel_estimation = estimation
    expect(estimation.waveform is w and estimation.channel is link and estimation.transmitter is a and estimation.receiver is b, "the estimation isn't attached")
    realization = link.realize()
    blocks, symbols = (w.words_per_frame, w.num_subcarriers) if name in OFDM else (w._num_frame_symbols, 1)
    rng = np.random.default_rng(1)
    received = Symbols(rng.normal(size=(nr, blocks, symbols)) + 1j)
    try:
        w.estimate_channel(received, BANDWIDTH, oversampling, 0.0)
    except RuntimeError:
        pass
    else:
        expect(False, "a channel was estimated before being sampled")
    for time in (0.0, 0.7e-3):
        sample = realization.sample(a, b, time)
        truth = reference(w, sample, nt, nr, oversampling, delay)
        stated = w.estimate_channel(received, BANDWIDTH, oversampling, delay / BANDWIDTH / oversampling)
        states = np.asarray(stated.dense_states())
        expect(np.array_equal(stated.raw, received.raw), "estimation changed the symbols")
        expect(states.shape == truth.shape, "states of shape %s instead of %s", states.shape, truth.shape)
        valid = ~np.isnan(truth)
        error = np.abs(states - truth)[valid]
        precision = 2e-2 if channel == "moving paths" else 1e-6
        expect(bool(np.all(error <= precision * max(1.0, np.abs(truth[valid]).max()))), "states differ by up to %s from the gains %s: %s", error.max(), np.round(truth.flatten()[:4], 4), np.round(states.flatten()[:4], 4))
        acc.step()
    acc.state(case)


def latest(acc, case):
    """The estimate refers to the latest sample of its own link, whatever was sampled in between."""
    _, name, ops = case
    a, b, c = device(1, 1, 0.0), device(1, 1, 40.0), device(1, 1, 90.0)
    link, other = CHANNELS["flat"](), CHANNELS["flat"]()
    w = (SINGLE.get(name) or OFDM[name])()
    w.channel_estimation = (SingleCarrierIdealChannelEstimation if name in SINGLE else OFDMIdealChannelEstimation)(link, a, b)
    blocks, symbols = (w.words_per_frame, w.num_subcarriers) if name in OFDM else (w._num_frame_symbols, 1)
    received = Symbols(np.ones((1, blocks, symbols), dtype=complex))
    realization, expected = link.realize(), None
    for op in ops:
        if op == "realize":
            realization = link.realize()
        elif op == "sample":
            expected = realization.sample(a, b)
        elif op == "reciprocal":
            realization.sample(b, a)
        elif op == "third":
            realization.sample(a, c)
        elif op == "other":
            other.realize().sample(a, b)
        elif op == "later":
            expected = realization.sample(a, b, 0.02)
        if expected is None:
            continue
        gain = through(expected, np.ones((1, 1), dtype=complex), 1)[0, 0]
        states = np.asarray(w.estimate_channel(received, BANDWIDTH, 1, 0.0).dense_states())
        scale = reference(w, IdealChannel().realize().sample(a, b), 1, 1, 1, 0)
        expect(bool(np.all(np.abs(states - gain * scale) <= 1e-6)), "the state is %s instead of %s after %s", states.flatten()[0], gain * scale.flatten()[0], op)
        acc.step()
    acc.state((name, ops))


CASES = {"estimate": estimate, "latest": latest}


def run_cases(acc, cases):
    for case in cases:
        acc.run(case[0] + "/" + case[1], lambda c=case: CASES[c[0]](acc, c), case)


def main(check):
    t = check.thorough
    cases = []
    for name in SINGLE:
        cases += [("estimate", name, channel, n, o, delay) for channel in ("ideal", "flat", "moving") for n in ((1, 1), (2, 1), (1, 2), (2, 3)) for o in (1, 2, 4) for delay in ((0, 1, 7, 150, 400) if t else (0, 7, 150)) if channel != "ideal" or n[0] == n[1]]
    for name in OFDM:
        cases += [("estimate", name, channel, n, o, delay) for channel in CHANNELS for n in ((1, 1), (2, 1), (1, 2), (2, 3)) for o in ((1, 2, 4) if t else (1, 2)) for delay in ((0, 1, 7, 150, 400) if t else (0, 150)) if (channel != "ideal" or n[0] == n[1]) and (t or o == 1 or n == (1, 1))]
    ops = ["realize", "sample", "later", "reciprocal", "third", "other"]
    cases += [("latest", name, h) for name in ("rect", "ofdm") for h in histories(ops, 5 if t else 4) if set(h) & {"sample", "later"}]
    try:  # compile the sparse states' routines once, before the processes fork
        estimate(Acc("P19"), ("estimate", "ofdm", "paths", (1, 1), 1, 0))
    except Exception:
        pass  # reported by the exploration
    check.explore(run_cases, chunks(cases, 100), case_timeout=60)
    check.bounds = {"cases": len(cases), "channels": list(CHANNELS), "antennas": "up to 2 x 3", "frame starts": "up to 400 samples", "operations": 5 if t else 4}
    check.assumptions = ["single-carrier estimates are compared over frequency-flat channels, multi-carrier ones over delays within the prefix", "estimates of moving multipath channels average over each word and are compared with a tolerance of 2%"]
