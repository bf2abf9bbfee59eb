"""P34: synchronizations find every frame at its first sample."""
import itertools

import numpy as np

import hermespy.modem as mo
from hermespy.core import Signal
from hermespy.modem import CorrelationSynchronization, CustomPilotSymbolSequence, ElementType, GridElement, GridResource, OFDMCorrelationSynchronization, PilotSection, PrefixType, SchmidlCoxPilotSection, SchmidlCoxSynchronization, SimplexLink, SymbolSection, Symbols
from ..core import chunks, expect
from .p33 import BANDWIDTH, Counting, Known, device

SEQUENCE = np.exp(0.5j * np.pi * np.random.default_rng(5).integers(0, 4, 64))


def single(cls, sync=mo.SingleCarrierCorrelationSynchronization, **kw):
    def make():
        w = cls(num_preamble_symbols=16, num_data_symbols=14, modulation_order=4, **kw)
        w.pilot_symbol_sequence = CustomPilotSymbolSequence(SEQUENCE)
        w.synchronization = sync()
        return w
    return make


def orthogonal(cls, pilot, sync, subcarriers, words=2):
    def make():
        w = cls(grid_resources=[GridResource(subcarriers, PrefixType.CYCLIC, 0.25, [GridElement(ElementType.DATA)])], grid_structure=[SymbolSection(words, [0])], num_subcarriers=subcarriers, modulation_order=4)
        w.pilot_section = pilot()
        w.synchronization = sync()
        return w
    return make


def chirp():
    w = mo.ChirpFSKWaveform(chirp_duration=32e-6, num_pilot_chirps=3, num_data_chirps=4, guard_interval=8e-6, modulation_order=4)
    w.synchronization = mo.ChirpFSKCorrelationSynchronization()
    return w


WAVES = {
    "rrc": single(mo.RootRaisedCosineWaveform, roll_off=0.5),
    "rect": single(mo.RectangularWaveform),
    "fmcw": single(mo.FMCWWaveform, num_samples_per_chirp=8),
    "chirp": chirp,
    "ofdm": orthogonal(mo.OFDMWaveform, PilotSection, OFDMCorrelationSynchronization, 32),
    "otfs": orthogonal(mo.OTFSWaveform, PilotSection, OFDMCorrelationSynchronization, 32),
    "ocdm": orthogonal(mo.OCDMWaveform, PilotSection, OFDMCorrelationSynchronization, 32),
    "schmidl": orthogonal(mo.OFDMWaveform, SchmidlCoxPilotSection, SchmidlCoxSynchronization, 64),
    "schmidl ovs": orthogonal(mo.OFDMWaveform, SchmidlCoxPilotSection, SchmidlCoxSynchronization, 48),
}
GAINS = {"one": [1.0], "phase": [-0.3 + 0.4j], "two": [1.0, -0.6j], "three": [0.2j, -1.0, 0.5 + 0.5j]}


def frames_of(w, oversampling, count, seed):
    """Modulated frames, which do not repeat their pilots within their data."""
    rng = np.random.default_rng(seed)
    return [w.modulate(w.place(w.map(rng.integers(0, 2, w.bits_per_frame(w.num_data_symbols)).astype(np.uint8))), BANDWIDTH, oversampling).flatten() for _ in range(count)]


def lay(frames, gaps, tail):
    """Frames at the ends of their gaps, and the sample each starts at."""
    total = sum(gaps) + sum(f.size for f in frames) + tail
    signal, starts, position = np.zeros(total, dtype=complex), [], 0
    for frame, gap in zip(frames, gaps):
        position += gap
        signal[position : position + frame.size] = frame
        starts.append(position)
        position += frame.size
    return signal, starts


def ambiguous(samples, pilot, starts, frame_length, threshold=0.9):
    """Whether samples other than the frames' first resemble the pilot as well, by direct correlation."""
    profile = np.abs(np.correlate(np.pad(samples, (0, pilot.size)), pilot, "valid"))[: samples.size]
    profile /= profile.max()
    away = np.ones(samples.size, dtype=bool)
    away[starts] = False
    return np.any(profile[away] >= threshold) or np.any(profile[starts] < threshold)


def indistinct(samples, half, starts, frame_length):
    """Whether both halves of a window beginning elsewhere are as similar as those of a pilot."""
    product = np.append(0, np.cumsum(samples[:-half].conj() * samples[half:]))
    profile = np.abs(product[half:] - product[:-half])
    for s in starts:
        first = max(0, s - frame_length + 1)
        others = np.delete(profile[first : s + frame_length], s - first)
        if others.size and others.max() >= (1 - 1e-6) * profile[s]:
            return True
    away = np.ones(profile.size, dtype=bool)
    for s in starts:
        away[max(0, s - int(0.9 * frame_length) + 1) : s + int(0.9 * frame_length)] = False
    return np.any(profile[away] >= 0.75 * profile.max()) or np.any(profile[starts] < 0.8 * profile.max())


def ambiguity(w, name, samples, starts, oversampling):
    n = w.samples_per_frame(BANDWIDTH, oversampling)
    if name.startswith("schmidl"):
        return indistinct(samples, w.num_subcarriers * oversampling // 2, starts, n)
    return ambiguous(samples, np.asarray(w.pilot_signal(BANDWIDTH, oversampling).view(np.ndarray)).flatten(), starts, n)


def found(w, samples, oversampling):
    indices = w.synchronization.synchronize(samples, BANDWIDTH, oversampling)
    return [int(i) for i in indices]


def detect(acc, case):
    """Every frame is found, wherever it is, through every constant channel and at every carrier offset."""
    _, name, oversampling, gaps, tail, gain, offset, seed = case
    w = WAVES[name]()
    n = w.samples_per_frame(BANDWIDTH, oversampling)
    frames = frames_of(w, oversampling, len(gaps), seed)
    expect(all(f.size == n for f in frames), "frames of %s samples instead of %d", [f.size for f in frames], n)
    samples, starts = lay(frames, gaps, tail)
    if ambiguity(w, name, samples, starts, oversampling):
        acc.count("ambiguous")
        return
    signal = np.outer(GAINS[gain], samples * np.exp(2j * np.pi * offset * np.arange(samples.size)))
    original = signal.copy()
    got = found(w, signal, oversampling)
    expect(got == starts, "frames detected at %s instead of %s", got, starts)
    expect(np.array_equal(signal, original), "the signal was modified")
    if gain == "one" and not name.startswith("schmidl"):
        expect(found(w, signal[0], oversampling) == starts, "frames of a vector detected at %s", found(w, signal[0], oversampling))
    acc.step()
    acc.state((name, oversampling, gaps, tail, gain, offset))


def link(acc, case):
    """A link recovers the bits of frames arriving at unknown times."""
    _, name, oversampling, gaps, tail, parts = case
    m = SimplexLink()
    m.waveform = WAVES[name]()
    m.waveform.channel_estimation = Known(np.eye(1))
    m.bits_source = Counting()
    tx = device(1, oversampling)
    transmission = m.transmit(tx.state(), len(gaps) * m.frame_duration(BANDWIDTH))
    frames = [np.asarray(f.signal.to_dense().view(np.ndarray)).flatten() for f in transmission.frames]
    rate = BANDWIDTH * oversampling
    if parts:  # Every frame in its own block
        blocks, starts, position = [], [], 0
        for f, g in zip(frames, gaps):
            blocks.append((position, np.pad(f, (g, tail))[None, :]))
            starts.append(position + g)
            position += g + f.size + tail + 5
        signal = Signal.Create([b for _, b in blocks], rate, 1e9, offsets=[o for o, _ in blocks])
        checked = [(b.flatten(), [s - o]) for (o, b), s in zip(blocks, starts)]
    else:
        samples, starts = lay(frames, gaps, tail)
        signal = Signal.Create(samples[None, :], rate, 1e9)
        checked = [(samples, starts)]
    if any(ambiguity(m.waveform, name, s, at, oversampling) for s, at in checked):
        acc.count("ambiguous")
        return
    reception = m.receive(signal, device(1, oversampling, 2).state())
    expect(reception.num_frames == len(frames), "%d of %d frames received", reception.num_frames, len(frames))
    for f, (sent, got, start) in enumerate(zip(transmission.frames, reception.frames, starts)):
        expect(abs(got.timestamp - start / rate) < 1e-12, "frame %d stamped %s instead of %s", f, got.timestamp, start / rate)
        expect(np.array_equal(sent.bits, got.decoded_bits), "bits of frame %d differ", f)
    acc.step()
    acc.state((name, oversampling, gaps, tail, parts))


def settings(acc, case):
    """Pilots are detected down to the relative threshold, and only once within the guard ratio of a frame."""
    _, name, amplitudes, spacing, threshold, guard, order = case
    w = WAVES[name]()
    sync = type(w.synchronization)(threshold, guard) if order == "constructor" else type(w.synchronization)()
    w.synchronization = sync
    if order == "setter":
        sync.guard_ratio, sync.threshold = guard, threshold
    expect((sync.threshold, sync.guard_ratio) == (threshold, guard), "threshold %s and guard ratio %s", sync.threshold, sync.guard_ratio)
    n = w.samples_per_frame(BANDWIDTH, 1)
    pilot = np.asarray(w.pilot_signal(BANDWIDTH, 1).view(np.ndarray)).flatten()
    step = max(pilot.size, int(spacing * n))
    starts = [7 + i * step for i in range(len(amplitudes))]
    samples = np.zeros(starts[-1] + 2 * n, dtype=complex)
    for a, s in zip(amplitudes, starts):
        samples[s : s + pilot.size] += a * pilot
    # Reference: local maxima above the threshold, of which stronger ones suppress weaker ones within the guard
    profile = np.array([abs(np.vdot(pilot, samples[d : d + pilot.size])) if d >= 0 else 0.0 for d in range(samples.size - pilot.size)])
    profile /= profile.max()
    sides = np.delete(profile, starts)
    if sides.max() > 0.9 * min(threshold, 1.0) or any(abs(profile[s] - threshold) < 1e-6 for s in starts):
        acc.count("ambiguous")
        return
    strong, wanted = sorted((s for s in starts if profile[s] >= threshold), key=lambda s: -profile[s]), []
    for s in strong:
        if all(abs(s - o) >= int(guard * n) for o in wanted):
            wanted.append(s)
    got = found(w, samples[None, :], 1)
    expect(got == sorted(wanted), "pilots of amplitudes %s at %s detected at %s instead of %s", amplitudes, starts, got, sorted(wanted))
    for bad in (-0.01, 1.01):
        for attribute in ("threshold", "guard_ratio"):
            try:
                setattr(sync, attribute, bad)
            except ValueError:
                pass
            else:
                expect(False, "%s of %s accepted", attribute, bad)
    acc.step()
    acc.state((name, amplitudes, spacing, threshold, guard))


def nothing(acc, case):
    """Nothing is found in empty or silent signals."""
    _, name, oversampling, count, streams = case
    w = WAVES[name]()
    with np.errstate(all="ignore"):
        got = found(w, np.zeros((streams, count), dtype=complex), oversampling)
    expect(got == [], "frames detected at %s of %d silent samples", got, count)
    expect(w.synchronization.waveform is w, "synchronization of another waveform")
    free = type(w.synchronization)()
    for other in (None, free):
        if other is not None:
            w.synchronization = other
            expect(other.waveform is w, "the replacing synchronization isn't attached")
    acc.step()
    acc.state((name, oversampling, count, streams))


CASES = {"detect": detect, "link": link, "settings": settings, "nothing": nothing}


def run_cases(acc, cases):
    for case in cases:
        acc.run(case[0], lambda c=case: CASES[c[0]](acc, c), case)


def main(check):
    t = check.thorough
    cases = []
    for name in WAVES:
        # Every position of a single frame
        n = WAVES[name]().samples_per_frame(BANDWIDTH, 1)
        cases += [("detect", name, 1, (g,), tail, gain, 0.0, g) for g in range(0, n + 2, 1 if t else 3) for tail in ((0, 1, n) if t else (0, n)) for gain in (GAINS if t else ("two",) if name.startswith("schmidl") else ("one", "two"))]
        # Positions of several frames
        gaps = (0, 1, 2, 9, n // 2, n, 2 * n + 3) if t else (0, 1, n // 2, 2 * n + 3)
        cases += [("detect", name, o, g, tail, gain, 0.0, k) for o in ((1, 2, 4) if t else (1, 2)) for m in ((2, 3, 4) if t else (2, 3)) for k, g in enumerate(itertools.product(gaps, repeat=m)) for tail in (0, 5) for gain in ("phase", "three") if t or m < 3 or (tail == 5) == (gain == "three")]
        if name.startswith("schmidl"):
            cases += [("detect", name, o, (g, h), 3, gain, f, g) for o in (1, 2) for g in range(0, 60, 7) for h in (0, 4, n) for gain in GAINS for f in (0.001, -0.0123, 0.2, 0.5)]
        cases += [("link", name, o, g, tail, parts) for o in (1, 2) for g in [(a,) for a in gaps] + list(itertools.product(gaps, repeat=2)) for tail in (0, 5) for parts in (False, True)]
        cases += [("nothing", name, o, c, s) for o in (1, 2) for c in (0, 1, 2, n - 1, n, 2 * n) for s in (1, 2)]
    amplitudes = [a for m in (1, 2, 3) for a in itertools.product((1.0, 0.93, 0.7, 0.45), repeat=m) if max(a) == 1.0 and len(set(a)) == len(a)]
    cases += [("settings", name, a, spacing, threshold, guard, order) for name in ("rect", "ofdm", "ocdm", "fmcw", "rrc") for a in amplitudes for spacing in (0.6, 0.9, 1.5) for threshold in (0.4, 0.6, 0.9, 1.0) for guard in (0.0, 0.5, 0.8, 1.0) for order in ("constructor", "setter")]
    check.explore(run_cases, chunks(cases, 200), case_timeout=60)
    check.bounds = {"cases": len(cases), "waveforms": list(WAVES), "frames": 4 if t else 3, "positions": "every single sample" if t else "every third sample", "streams": 3}
    check.assumptions = ["frames whose data correlates with the pilot as much as the pilot itself can't be told apart and are skipped", "channels are flat and noiseless"]
