"""P11: single-carrier and chirp waveforms place, shape, estimate and recover every symbol."""
import itertools
import math

import numpy as np

import hermespy.modem as mo
from hermespy.modem.symbols import StatedSymbols, Symbols
from hermespy.modem.waveform import CustomPilotSymbolSequence, UniformPilotSymbolSequence
from ..core import chunks, expect

# ------------------------------------------------------------------ reference pulses


def sinc(x):
    return 1.0 if abs(x) < 1e-12 else math.sin(math.pi * x) / (math.pi * x)


def rc(t, b):
    if b > 0 and abs(abs(t) - 1 / (2 * b)) < 1e-9:
        return math.pi / 4 * sinc(1 / (2 * b))
    return sinc(t) * math.cos(math.pi * b * t) / (1 - (2 * b * t) ** 2)


def rrc(t, b):
    if abs(t) < 1e-12:
        return 1 + b * (4 / math.pi - 1)
    if b > 0 and abs(abs(t) - 1 / (4 * b)) < 1e-9:
        return b / math.sqrt(2) * ((1 + 2 / math.pi) * math.sin(math.pi / (4 * b)) + (1 - 2 / math.pi) * math.cos(math.pi / (4 * b)))
    return (math.sin(math.pi * t * (1 - b)) + 4 * b * t * math.cos(math.pi * t * (1 + b))) / (math.pi * t * (1 - (4 * b * t) ** 2))


class Pulse:
    """Transmit pulse, receive filter, symbol spacing and sampling instant of the first symbol."""

    def __init__(self, kind, kw, ovs):
        if kind in ("rc", "rrc"):
            n, b = kw.get("filter_length", 16), kw.get("roll_off", 0.0)
            fn = rc if kind == "rc" else rrc
            self.tx = np.array([fn(k / ovs - n // 2, b) for k in range(n * ovs)], complex)
            self.rx = self.tx / ovs
            self.spacing, self.delay = ovs, 2 * (n // 2) * ovs
        elif kind == "rect":
            self.tx = np.ones(ovs, complex)
            self.rx = self.tx / ovs
            self.spacing, self.delay = ovs, ovs - 1
        else:
            n = kw["num_samples_per_chirp"] * ovs
            t = np.arange(n)
            # frequency swept from minus to plus half the bandwidth
            self.tx = np.exp(2j * np.pi * (-0.5 * t / ovs + 0.5 * t**2 / (n * ovs)))
            self.rx = self.tx[::-1].conj() / n
            self.spacing, self.delay = n, n - 1

    def frame(self, symbols):
        out = np.zeros((len(symbols) - 1) * self.spacing + len(self.tx), complex)
        for k, s in enumerate(symbols):
            out[k * self.spacing : k * self.spacing + len(self.tx)] += s * self.tx
        return out

    def receive(self, samples, n):
        f = np.convolve(samples, self.rx)
        return np.array([f[self.delay + k * self.spacing] for k in range(n)])


CLASSES = {"rc": mo.RaisedCosineWaveform, "rrc": mo.RootRaisedCosineWaveform, "rect": mo.RectangularWaveform, "fmcw": mo.FMCWWaveform}


class Layout:
    """Reference of the frame layout: P pilot symbol, D data symbol."""

    def __init__(self, pre, data, post, rate):
        pilots = max(0, data // rate - 1) if rate > 0 else 0
        payload = []
        for d in range(data):
            payload.append("D")
            if rate > 0 and (d + 1) % rate == 0 and payload.count("P") < pilots:
                payload.append("P")
        self.kinds = ["P"] * pre + payload + ["P"] * post
        self.pre, self.data, self.num_pilots = pre, data, self.kinds.count("P")
        self.pilot_indices = [i for i, k in enumerate(self.kinds) if k == "P"]
        self.data_indices = [i for i, k in enumerate(self.kinds) if k == "D"]


def pilots(seq, n):
    return np.array([seq[k % len(seq)] for k in range(n)])


def values(n, k=0):
    a = np.arange(n) + 1
    return np.exp(1j * (a * (1.3 + k) + a**2 * 0.7)) * (0.6 + 0.1 * ((a + k) % 5))


def bits_of(n, k=0):
    return (((np.arange(n) * 7919 + 31 * k + (np.arange(n) ** 2) // 3) >> 1) & 1).astype(np.uint8)


def close(a, b, what, tol=1e-9):
    a, b = np.asarray(a), np.asarray(b)
    expect(a.shape == b.shape, "%s has shape %s instead of %s", what, a.shape, b.shape)
    if a.size:
        i = np.unravel_index(int(np.argmax(np.abs(a - b))), a.shape)
        expect(abs(a[i] - b[i]) <= tol, "%s differ at %s: %s instead of %s", what, i, a[i], b[i])


def build(kind, kw, shape, order, seq=None):
    pre, data, post, rate = shape
    extra = {} if seq is None else {"pilot_symbol_sequence": seq}
    return CLASSES[kind](num_preamble_symbols=pre, num_data_symbols=data, num_postamble_symbols=post, pilot_rate=rate, modulation_order=order, **kw, **extra)


def verify(w, kind, kw, shape, order, seq, ovs, bandwidth, acc):
    """Complete observable behaviour of a waveform for a configuration."""
    layout = Layout(*shape)
    pulse = Pulse(kind, kw, ovs)
    n = len(layout.kinds)
    bps = int(math.log2(order))
    expect(w.num_data_symbols == layout.data and w.bits_per_frame() == layout.data * bps and w.bits_per_symbol == bps, "%s symbols and %s bits per frame", w.num_data_symbols, w.bits_per_frame())
    if seq is None:
        seq = np.asarray(mo.PskQamMapping(order).get_mapping())
    if n < 1:
        return
    count = w.samples_per_frame(bandwidth, ovs)
    expect(count == (n - 1) * pulse.spacing + len(pulse.tx), "%s samples per frame instead of %s", count, (n - 1) * pulse.spacing + len(pulse.tx))
    duration = w.frame_duration(bandwidth)
    expect(abs(duration * bandwidth * ovs - n * pulse.spacing) < 1e-6 * n * pulse.spacing, "frame of %s symbols lasts %s instead of %s symbol intervals", n, duration * bandwidth * ovs / pulse.spacing, n)
    if layout.data > 0:
        expect(abs(w.data_rate(layout.data, bandwidth) * n * pulse.spacing / ovs - layout.data * bps * bandwidth) < 1e-6 * layout.data * bps * bandwidth, "data rate is %s", w.data_rate(layout.data, bandwidth))
    energy = np.sum(np.abs(pulse.tx) ** 2)
    expect(abs(w.symbol_energy(bandwidth, ovs) - energy) <= (1e-9 if kind in ("rect", "fmcw") else 0.05) * energy or kind == "rc" or ovs < 2 or kw.get("filter_length", 16) < 15, "symbol energy is %s instead of %s", w.symbol_energy(bandwidth, ovs), energy)
    expect(abs(w.bit_energy(bandwidth, ovs) * bps - w.symbol_energy(bandwidth, ovs)) < 1e-9 * energy, "bit energy is %s", w.bit_energy(bandwidth, ovs))
    # place
    data = values(layout.data)
    placed = w.place(Symbols(data))
    want = np.empty(n, complex)
    want[layout.data_indices] = data
    want[layout.pilot_indices] = pilots(seq, layout.num_pilots)
    close(placed.raw, want[None, :, None], "placed symbols")
    # pick
    for rx, tx in ((1, 1), (2, 3)):
        raw = values(rx * n, 1).reshape(rx, n, 1)
        states = values(rx * tx * n, 2).reshape(rx, tx, n, 1)
        picked = w.pick(StatedSymbols(raw, states))
        close(picked.raw, raw[:, layout.data_indices, :], "picked symbols")
        close(picked.dense_states(), states[:, :, layout.data_indices, :], "picked states")
    # modulate
    samples = np.asarray(w.modulate(placed, bandwidth, ovs)).flatten()
    close(samples, pulse.frame(want), "modulated samples")
    again = np.asarray(w.modulate(placed, bandwidth, ovs)).flatten()
    close(again, samples, "repeated modulation", 0.0)
    # pilot signal
    p = w.pilot_signal(bandwidth, ovs)
    expect(abs(p.sampling_rate - bandwidth * ovs) < 1e-6 * bandwidth, "sampling rate of the pilot is %s", p.sampling_rate)
    ref = pulse.frame(pilots(seq, layout.pre)) if layout.pre > 0 else np.empty(0)
    close(np.asarray(p.view(np.ndarray)).flatten(), ref, "pilot signal")
    # demodulate, also with samples following the frame
    for tail in (0, 7):
        y = np.concatenate([samples, 0.3 * values(tail, 3)])
        got = w.demodulate(y, bandwidth, ovs)
        if tail == 0 or kind in ("rect", "fmcw"):
            close(got.raw, pulse.receive(samples, n)[None, :, None], "demodulated symbols")
        expect(got.num_blocks == n, "%s demodulated symbols instead of %s", got.num_blocks, n)
    if kind in ("rect", "fmcw") or (kind == "rrc" and ovs >= 2 and kw.get("filter_length", 16) >= 16 and kw.get("roll_off", 0) >= 0.4):
        tol = 1e-9 if kind in ("rect", "fmcw") else 0.02 * max(1, np.max(np.abs(want)))
        close(w.demodulate(samples, bandwidth, ovs).raw, want[None, :, None], "recovered symbols", tol)
        bits = bits_of(layout.data * bps)
        frame = w.place(w.map(bits))
        back = w.demodulate(np.asarray(w.modulate(frame, bandwidth, ovs)).flatten(), bandwidth, ovs)
        picked = w.pick(w.estimate_channel(back, bandwidth, ovs))
        if layout.data > 0:
            close(np.asarray(w.unmap(w.equalize_symbols(picked))).astype(int), bits.astype(int), "received bits", 0)
    acc.step(n)


def run_static(acc, shard):
    for kind, kw, shape, order, custom, ovs, bandwidth in shard:
        seq = None if custom is None else np.array(custom)

        def body():
            w = build(kind, kw, shape, order, None if seq is None else CustomPilotSymbolSequence(seq))
            verify(w, kind, kw, shape, order, seq, ovs, bandwidth, acc)
            return w.samples_per_frame(bandwidth, ovs)

        acc.run(kind, body, {"pulse": kind, "parameters": kw, "frame": shape, "order": order, "pilots": custom, "oversampling": ovs, "bandwidth": bandwidth})
        acc.state("static", kind, sorted(kw.items()), shape, order, custom, ovs, bandwidth)


SETTINGS = {
    "num_preamble_symbols": (0, 3),
    "num_data_symbols": (4, 7),
    "num_postamble_symbols": (0, 2),
    "pilot_rate": (0, 2),
    "modulation_order": (4, 16),
}


def run_histories(acc, shard):
    for kind, kw, history in shard:

        def body():
            state = {"num_preamble_symbols": 2, "num_data_symbols": 5, "num_postamble_symbols": 1, "pilot_rate": 1, "modulation_order": 2}
            w = build(kind, kw, (2, 5, 1, 1), 2)
            for name, value in history:
                setattr(w, name, value)
                if name in state:
                    state[name] = value
                verify(w, kind, {k: getattr(w, k) for k in kw}, tuple(state[k] for k in list(SETTINGS)[:4]), state["modulation_order"], None, 2, 1e3, acc)

        acc.run("history:" + kind, body, {"pulse": kind, "history": history})
        acc.state("history", kind, history)


# ------------------------------------------------------------------ channel estimation and equalisation


def run_estimation(acc, shard):
    for shape, streams, custom in shard:

        def body():
            layout = Layout(*shape)
            seq = np.array(custom)
            w = build("rect", {}, shape, 4, CustomPilotSymbolSequence(seq))
            w.channel_estimation = mo.SingleCarrierLeastSquaresChannelEstimation()
            n = len(layout.kinds)
            sent = w.place(Symbols(values(layout.data))).raw[0, :, 0]
            for kind in range(3):
                # constant, linear and arbitrary channels
                idx = np.arange(n)
                h = np.array([{0: (1 - 0.5j) * np.ones(n), 1: 1 + 0.1j * idx - 0.05 * idx, 2: values(n, r)}[kind] * np.exp(1j * r) * (1 + r) for r in range(streams)])
                received = h * sent
                out = w.estimate_channel(Symbols(received[:, :, None]), 1e3, 1)
                close(out.raw, received[:, :, None], "symbols of the estimation")
                ref = np.array([np.interp(idx, layout.pilot_indices, r[layout.pilot_indices].real) + 1j * np.interp(idx, layout.pilot_indices, r[layout.pilot_indices].imag) for r in h])
                close(out.dense_states(), ref[:, None, :, None], "estimated channel states")
                lo, hi = layout.pilot_indices[0], layout.pilot_indices[-1]
                if kind < 2:
                    close(out.dense_states()[:, 0, lo : hi + 1, 0], h[:, lo : hi + 1], "channel between pilots")
                acc.step()
                if streams == 1 and kind == 0:
                    w.channel_equalization = mo.SingleCarrierZeroForcingChannelEqualization()
                    eq = w.equalize_symbols(w.pick(out))
                    close(eq.raw, values(layout.data)[None, :, None], "equalised symbols")

        acc.run("estimation", body, {"frame": shape, "streams": streams, "pilots": str(custom)})
        acc.state("estimation", shape, streams, custom)


def run_equalisation(acc, shard):
    for name, rx, tx, blocks, symbols in shard:

        def body():
            cls = {"zf": mo.SingleCarrierZeroForcingChannelEqualization, "mmse": mo.SingleCarrierMinimumMeanSquareChannelEqualization}[name]
            x = values(tx * blocks * symbols).reshape(tx, blocks, symbols)
            h = values(rx * tx * blocks * symbols, 4).reshape(rx, tx, blocks, symbols)
            y = np.einsum("rtbs,tbs->rbs", h, x)
            out = cls().equalize_channel(StatedSymbols(y, h))
            close(out.raw, x, "equalised symbols", 1e-6)

        acc.run("equalisation", body, {"kind": name, "receive": rx, "transmit": tx, "blocks": blocks, "symbols": symbols})
        acc.state("equalisation", name, rx, tx, blocks, symbols)


# ------------------------------------------------------------------ chirp frequency shift keying


def run_chirps(acc, shard):
    for order, samples, bandwidth, ovs, npilots, ndata, guard, diff in shard:

        def body():
            duration = samples / (bandwidth * ovs)
            w = mo.ChirpFSKWaveform(chirp_duration=duration, freq_difference=0.0 if diff is None else diff * bandwidth, num_pilot_chirps=npilots, num_data_chirps=ndata, guard_interval=guard / (bandwidth * ovs), modulation_order=order)
            bps = int(math.log2(order))
            expect(w.bits_per_frame() == ndata * bps and w.num_data_symbols == ndata and w.bits_per_symbol == bps, "%s bits per frame", w.bits_per_frame())
            total = samples * (npilots + ndata) + guard
            expect(w.samples_in_chirp(bandwidth, ovs) == samples, "%s samples per chirp instead of %s", w.samples_in_chirp(bandwidth, ovs), samples)
            expect(w.samples_per_frame(bandwidth, ovs) == total, "%s samples per frame instead of %s", w.samples_per_frame(bandwidth, ovs), total)
            expect(abs(w.frame_duration(bandwidth) * bandwidth * ovs - total) < 1e-6 * total + 1e-9, "frame duration is %s", w.frame_duration(bandwidth))
            expect(abs(w.symbol_energy(bandwidth, ovs) - samples) < 1e-9, "symbol energy is %s", w.symbol_energy(bandwidth, ovs))
            # all symbols in all positions
            step = (1.0 / order if diff is None else diff) * bandwidth
            fs = bandwidth * ovs
            chirps = []
            for s in range(order):
                f = -0.5 * bandwidth + s * step + np.arange(samples) / samples * bandwidth
                wrapped = f > 0.5 * bandwidth
                f = np.where(wrapped, f - bandwidth, f)
                phase = np.concatenate([[0], np.cumsum((f[1:] + f[:-1]) / 2)]) * 2 * np.pi / fs
                edge = np.where(np.isclose(np.abs(f), 0.5 * bandwidth))[0]
                gaps = set(np.where(np.diff(wrapped.astype(int)) != 0)[0]) | {int(e) for e in edge if e > 0 and e < samples - 1} | {int(e) - 1 for e in edge if e > 0}
                chirps.append((np.exp(1j * phase), sorted(gaps)))
            sequences = [[(r + k) % order for k in range(ndata)] for r in range(order)] if ndata else [[]]
            for seq in sequences[:: max(1, order // 8)]:
                bits = np.array([[(s >> (bps - 1 - b)) & 1 for b in range(bps)] for s in seq], dtype=np.uint8).flatten()
                mapped = w.map(bits) if ndata else Symbols(np.empty((1, 1, 0)))
                expect([int(v.real) for v in mapped.raw.flatten()] == seq, "bits %s are mapped to %s", bits, mapped.raw.flatten())
                frame = np.asarray(w.modulate(w.place(mapped), bandwidth, ovs)).flatten()
                expect(frame.shape == (total,), "%s modulated samples instead of %s", frame.shape, total)
                sent = [k % order for k in range(npilots)] + seq
                for k, s in enumerate(sent):
                    part = frame[k * samples : (k + 1) * samples]
                    ref, gap = chirps[s]
                    a, b = np.angle(part[1:] * part[:-1].conj()), np.angle(ref[1:] * ref[:-1].conj())
                    keep = np.ones(samples - 1, bool)
                    keep[gap] = False  # the instant of wrapping is a matter of discretisation
                    expect(np.allclose(np.exp(1j * a[keep]), np.exp(1j * b[keep]), atol=1e-6), "chirp %s at position %s sweeps other frequencies", s, k)
                    expect(np.allclose(np.abs(part), 1), "chirp %s isn't of constant envelope", s)
                expect(not np.any(frame[samples * (npilots + ndata) :]), "guard interval contains %s", frame[samples * (npilots + ndata) :])
                pilot = np.asarray(w.pilot_signal(bandwidth, ovs).view(np.ndarray)).flatten()
                close(pilot, frame[: samples * npilots], "pilot signal")
                for tail in (0, 5):
                    y = np.concatenate([frame, 0.4 * values(tail)])
                    back = w.demodulate(y, bandwidth, ovs)
                    if samples >= 2 * order:
                        expect([int(v.real) for v in back.raw.flatten()] == seq, "symbols %s are demodulated as %s", seq, back.raw.flatten())
                        picked = w.pick(w.estimate_channel(back, bandwidth, ovs))
                        close(np.asarray(w.unmap(w.equalize_symbols(picked))).astype(int).flatten(), bits.astype(int), "received bits", 0)
                acc.step(len(sent))

        acc.run("chirp", body, {"order": order, "samples": samples, "bandwidth": bandwidth, "oversampling": ovs, "pilots": npilots, "data": ndata, "guard": guard, "difference": diff})
        acc.state("chirp", order, samples, bandwidth, ovs, npilots, ndata, guard, diff)


RUN = {"static": run_static, "history": run_histories, "estimation": run_estimation, "equalisation": run_equalisation, "chirp": run_chirps}


def work(acc, shard):
    for kind, items in shard:
        RUN[kind](acc, items)


def main(check):
    deep = check.thorough
    pulses = [("rect", {})]
    pulses += [("fmcw", {"num_samples_per_chirp": n}) for n in ((1, 4, 5) if not deep else (1, 2, 4, 5, 16))]
    for k in ("rc", "rrc"):
        for n in (1, 2, 3, 15, 16) if not deep else (1, 2, 3, 4, 5, 8, 15, 16, 17, 24):
            for b in (0.0, 0.25, 0.3, 0.5, 1.0) if not deep else (0.0, 0.1, 0.2, 0.25, 0.3, 1 / 3, 0.4, 0.5, 0.7, 0.75, 0.9, 1.0):
                pulses.append((k, {"filter_length": n, "roll_off": b}))
    shapes = list(itertools.product((0, 1, 3), (0, 1, 2, 4, 9), (0, 2), (0, 1, 2, 3)))
    static = []
    for (kind, kw), (k, ovs) in itertools.product(pulses, enumerate((1, 2, 3, 4, 8) if not deep else (1, 2, 3, 4, 5, 6, 7, 8, 10, 16))):
        static.append((kind, kw, (2, 6, 1, 2), (2, 4, 8, 16, 64)[k % 5], None, ovs, (1e3, 1e8, 3.3e6)[k % 3]))
    for shape in shapes:
        for kind, kw in (("rect", {}), ("rrc", {"filter_length": 16, "roll_off": 0.5}), ("fmcw", {"num_samples_per_chirp": 4})):
            for order in (4,) if not deep else (2, 4, 16, 256):
                for custom in (None, (1j,), (1.0, -2.0, 1j)):
                    if sum(shape[:3]) > 0:
                        static.append((kind, kw, shape, order, custom, 2, 1e6))
    alphabet = [(k, v) for k, vs in SETTINGS.items() for v in vs]
    depth = 3 if deep else 2
    hist = []
    for kind, kw, more in (("rect", {}, []), ("rrc", {"filter_length": 16, "roll_off": 0.5}, [("filter_length", 17), ("roll_off", 0.25)]), ("fmcw", {"num_samples_per_chirp": 4}, [("num_samples_per_chirp", 3)])):
        hist += [(kind, kw, h) for h in itertools.product(alphabet + more, repeat=depth)]
    est = [(s, r, c) for s in shapes if Layout(*s).num_pilots > 0 and s[1] > 0 for r in (1, 2) for c in ((1.0,), (1.0, -2.0, 1j))]
    eq = [(n, r, t, b, s) for n in ("zf", "mmse") for r in (1, 2, 3) for t in (1, 2, 3) if t <= r for b in (1, 3) for s in (1, 2)]
    chirps = []
    for order, n in itertools.product((2, 4, 8, 16), (16, 24, 64) if not deep else (9, 16, 24, 33, 64, 128)):
        for ovs in (1, 2, 3) if not deep else (1, 2, 3, 4):
            for k, bw in enumerate((1e3, 1e9, 3.7e6)):
                for p, d, g in ((0, 3, 0), (1, 1, 5), (5, 4, 3)) if k == 0 or deep else ((2, 3, 4),):
                    chirps.append((order, n, bw, ovs, p, d, g, None))
            chirps.append((order, n, 1e3, ovs, 2, 2, 0, 0.5 / order))
    shards = [[("static", c)] for c in chunks(static, 24)] + [[("history", c)] for c in chunks(hist, 16)] + [[("chirp", c)] for c in chunks(chirps, 8)] + [[("estimation", c)] for c in chunks(est, 8)] + [[("equalisation", eq)]]
    check.explore(work, shards, case_timeout=60)
    check.bounds.update(configurations=len(static), histories=len(hist), history_depth=depth, chirp_configurations=len(chirps), estimations=len(est), equalisations=len(eq))
