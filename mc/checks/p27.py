"""P27: converters quantize and amplifiers distort the samples according to their published characteristics."""
import itertools

import numpy as np

from hermespy.simulation.rf.blocks import ADC, AutomaticGainControl, Gain, GainControlType, QuantizerType, RampGenerator, Shift
from hermespy.simulation.rf.blocks.amps import (
    ClippingPowerAmplifier,
    CustomPowerAmplifier,
    MemoryCTPolynomialPowerAmplifier,
    MemoryPolynomialPowerAmplifier,
    PowerAmplifier,
    RappPowerAmplifier,
    SalehPowerAmplifier,
)
from hermespy.simulation.rf.signal import RFSignal
from ..core import chunks, expect, histories
from .p35 import roundtrip

RATE = 8.0


def signal(samples):
    samples = np.array(samples, dtype=complex, ndmin=2)
    p = samples.shape[0]
    return RFSignal.FromNDArray(samples, RATE, 1e9 + np.arange(p), 0.1 * np.arange(p), 0.25)


def metadata(s):
    return s.sampling_rate, tuple(s.carrier_frequencies), tuple(s.noise_powers), s.delay, s.shape


def propagate(block, x):
    """Propagate samples, asserting that the input and the signal's other properties remain."""
    s = signal(x)
    before = np.array(s)
    out = block.propagate(block.realize(RATE, 1, 5.0), s)
    expect(np.array_equal(np.asarray(s), before), "the propagated signal was modified")
    expect(metadata(out) == metadata(s), "properties of the signal changed from %s to %s", metadata(s), metadata(out))
    again = block.propagate(block.realize(RATE, 1, 5.0), s)
    expect(np.array_equal(np.asarray(out), np.asarray(again)), "the same samples are processed differently")
    return np.asarray(out)


# ---------------------------------------------------------------------------- converters
GAINS = {
    "1": (lambda: Gain(1.0), False),
    "2": (lambda: Gain(2.0), False),
    ".5r": (lambda: Gain(0.5, True), True),
    "max": (lambda: AutomaticGainControl(GainControlType.MAX_AMPLITUDE), False),
    "max2r": (lambda: AutomaticGainControl(GainControlType.MAX_AMPLITUDE, 2.0, True), True),
    "rms": (lambda: AutomaticGainControl(GainControlType.RMS_AMPLITUDE), False),
    "rms3r": (lambda: AutomaticGainControl(GainControlType.RMS_AMPLITUDE, 3.0, True), True),
}
TYPES = {"riser": QuantizerType.MID_RISER, "tread": QuantizerType.MID_TREAD}


def levels(bits, kind):
    n = 2**bits
    if kind == "riser":
        return (np.arange(n) - n / 2 + 0.5) * 2 / n
    return np.arange(-n // 2, n // 2) * 2 / (n + 1)


def applied_gain(name, x):
    if name[0] in "12.":
        return float(name.rstrip("r"))
    if x.size == 0:
        return 1.0
    components = np.concatenate((x.real.ravel(), x.imag.ravel()))
    if name.startswith("max"):
        peak = max(abs(components))
    else:
        peak = max(np.sqrt(np.mean(x.real.ravel() ** 2)), np.sqrt(np.mean(x.imag.ravel() ** 2)))
    backoff = float(name.rstrip("r")[3:] or 1)
    return 1.0 / (peak * backoff) if peak > 0 else 1.0


def check_converted(x, y, bits, kind, gain):
    g = applied_gain(gain, x)
    rescale = g if GAINS[gain][1] else 1.0
    adjusted = x * g
    quantized = y * rescale
    expect(y.shape == x.shape, "converted shape %s instead of %s", y.shape, x.shape)
    if bits is None:
        expect(np.allclose(quantized, adjusted, rtol=1e-12, atol=0), "an unlimited converter modifies the samples")
        return
    grid = levels(bits, kind)
    for a, q in ((adjusted.real, quantized.real), (adjusted.imag, quantized.imag)):
        a, q = a.ravel(), q.ravel()
        distance = np.abs(q[:, None] - grid[None]).min(axis=1) if q.size else np.zeros(0)
        expect((distance < 1e-9).all(), "%d bit converter yields %s, not one of its levels", bits, q[distance >= 1e-9][:3])
        best = np.abs(a[:, None] - grid[None]).min(axis=1) if q.size else np.zeros(0)
        wrong = np.abs(a - q) > best + 1e-9
        expect(not wrong.any(), "samples %s are quantized to %s, not to the nearest level", a[wrong][:3], q[wrong][:3])
        order = np.argsort(a, kind="stable")
        expect((np.diff(q[order]) > -1e-9).all(), "the quantizer isn't monotonic")


def grid_samples(bits, kind, ports, scale, split=4):
    """Points on, next to and between all levels and decision thresholds of a converter."""
    b = bits or 3
    step = levels(b, kind)[1] - levels(b, kind)[0]
    ticks = np.arange(-int(1.5 / step) * split, int(1.5 / step) * split + 1) * step / split
    near = np.concatenate((ticks, ticks + 1e-4 * step, ticks - 1e-4 * step))
    imag = np.roll(near[::-1], near.size // 3)
    x = scale * (near + 1j * imag)
    x = x[: x.size // ports * ports]
    return x.reshape(ports, -1) if ports == 1 else x.reshape(-1, ports).T.copy()


def check_adc(acc, bits, kind, gain, ports, scale, content):
    if content == "grid":
        x = grid_samples(bits, kind, ports, scale)
    elif content == "zeros":
        x = np.zeros((ports, 7), complex)
    elif content == "empty":
        x = np.zeros((ports, 0), complex)
    elif content == "real":
        x = grid_samples(bits, kind, ports, scale).real + 0j
    elif content == "uneven":
        x = grid_samples(bits, kind, ports, scale)
        x[-1] *= 0.25
    elif content.startswith("peak"):
        # The strongest component is a positive or negative real or imaginary part
        x = 0.25 * grid_samples(bits, kind, ports, scale)
        x[-1, x.shape[1] // 2] = scale * {"peak+": 2 - 0.3j, "peak-": -2 + 0.3j, "peak+j": 0.3 + 2j, "peak-j": 0.3 - 2j}[content]
    adc = ADC(bits, GAINS[gain][0](), TYPES[kind], ports)
    y = propagate(adc, x)
    check_converted(x, y, bits, kind, gain)
    expect(adc.num_quantization_levels == (np.inf if bits is None else 2**bits), "number of levels")
    if bits is not None and gain == "1":
        expect(np.allclose(propagate(adc, y), y, atol=1e-9), "quantized samples are modified by another conversion") if kind == "tread" else None
        expect(np.allclose(propagate(adc, y * (1 - 1e-9)), y, atol=1e-8), "quantized samples are modified by another conversion")
    if gain[0] in "mr" and content == "grid":
        # Automatic gain: independent of powers of two up to the rescaling
        z = propagate(ADC(bits, GAINS[gain][0](), TYPES[kind], ports), 4 * x)
        expect(np.allclose(z, 4 * y if GAINS[gain][1] else y, atol=1e-12 * abs(scale)), "the automatic gain depends on the scale")
    acc.step(x.size)
    acc.state(bits, kind, gain, ports, scale, content)


def check_adc_roundtrip(acc, bits, kind, gain, ports):
    adc = ADC(bits, GAINS[gain][0](), TYPES[kind], ports)
    other = roundtrip(adc)
    x = grid_samples(bits, kind, ports, 1.0)
    expect(np.array_equal(propagate(adc, x), propagate(other, x)), "a recalled converter converts differently")
    acc.step(2)


OPS = ["b0", "b1", "b3", "b-", "b.", "riser", "tread", "g1", "g.5r", "grms3r", "s"]
SHORT = grid_samples(2, "riser", 1, 0.7)[:, ::5]


def check_history(acc, ops):
    """Reconfigured converters behave as converters created with their final configuration."""
    bits, kind, gain = None, "riser", "1"
    adc = ADC()
    for op in ops + ("s",):
        if op in ("b-", "b."):
            try:
                adc.num_quantization_bits = -1 if op == "b-" else 2.5
                expect(False, "invalid number of bits accepted")
            except ValueError:
                pass
        elif op[0] == "b":
            adc.num_quantization_bits = int(op[1:])
            bits = int(op[1:]) or None
        elif op in TYPES:
            adc.quantizer_type, kind = TYPES[op], op
        elif op[0] == "g":
            adc.gain, gain = GAINS[op[1:]][0](), op[1:]
        else:
            y = propagate(adc, SHORT)
            check_converted(SHORT, y, bits, kind, gain)
            expect(np.array_equal(y, propagate(ADC(bits, GAINS[gain][0](), TYPES[kind]), SHORT)), "a reconfigured converter differs from a new one")
            acc.state(bits, kind, gain)
        acc.step()


def check_agc_history(acc, ops):
    """Reconfigured gains."""
    agc = AutomaticGainControl(GainControlType.MAX_AMPLITUDE)
    mode, backoff, rescale = "max", 1.0, False
    x = SHORT * 0.3
    for op in ops + ("s",):
        if op in ("max", "rms"):
            agc.agc_type, mode = (GainControlType.MAX_AMPLITUDE if op == "max" else "RMS_AMPLITUDE"), op
        elif op[0] == "x":
            agc.backoff = backoff = float(op[1:])
        elif op == "bad":
            for v in (0.0, -1.0):
                try:
                    agc.backoff = v
                    expect(False, "invalid backoff accepted")
                except ValueError:
                    pass
        elif op in "rn":
            agc.rescale_quantization = rescale = op == "r"
        else:
            peak = max(abs(x.real).max(), abs(x.imag).max()) if mode == "max" else max(np.sqrt(np.mean(x.real**2)), np.sqrt(np.mean(x.imag**2)))
            y = propagate(ADC(3, agc), x)
            g = 1 / (peak * backoff)
            grid = levels(3, "riser")
            for a, q in (((x * g).real, y.real), ((x * g).imag, y.imag)):
                q = q.ravel() * (g if rescale else 1)
                expect(np.allclose(np.abs(a.ravel() - q), np.abs(a.ravel()[:, None] - grid).min(axis=1), atol=1e-9), "converted by another gain than configured")
            acc.state(mode, backoff, rescale)
        acc.step()


# ---------------------------------------------------------------------------- amplifiers
def polynomial(C):
    def y(x):
        M, K = C.shape
        out = np.zeros(x.size, complex)
        for n, m, k in itertools.product(range(x.size), range(M), range(K)):
            if n >= m:
                out[n] += C[m, k] * x[n - m] * abs(x[n - m]) ** k
        return out

    return y


def cross_polynomial(C):
    def y(x):
        M = C.shape[0]
        K = (C.shape[1] - 1) // M + 1
        out = np.zeros(x.size, complex)
        for n, i in itertools.product(range(x.size), range(M)):
            if n < i:
                continue
            total = C[i, 0]
            for k, j in itertools.product(range(1, K), range(M)):
                total += C[i, 1 + (k - 1) * M + j] * (abs(x[n - j]) ** k if n >= j else 0.0)
            out[n] += x[n - i] * total
        return out

    return y


def interpolate(table, values):
    def at(a):
        if a <= table[0]:
            return values[0]
        for x0, x1, v0, v1 in zip(table, table[1:], values, values[1:]):
            if a <= x1:
                return v0 + (v1 - v0) * (a - x0) / (x1 - x0)
        return values[-1]

    return at


def custom(table, gains, phases):
    g, p = interpolate(table, gains), interpolate(table, phases)
    return lambda x: np.array([v * g(abs(v)) * np.exp(1j * p(abs(v))) for v in x], complex)


def dense(*shape):
    k = np.arange(np.prod(shape)).reshape(shape) + 1
    return np.cos(k * k) / k + 0.5j * np.sin(3 * k)


def one_hot(shape, index):
    C = np.zeros(shape, complex)
    C.flat[index] = 1.0 - 0.5j
    return C


TABLES = [
    (np.array([0.0, 0.5, 1.0, 2.0]), np.array([1.0, 1.5, 0.75, 0.25]), np.array([0.0, 0.1, -0.2, 0.4])),
    (np.array([0.2, 0.9]), np.array([2.0, 0.0]), np.array([0.0, 3.0])),
    (np.array([0.0]), np.array([2.0]), np.array([0.5])),
]


def amplifiers(thorough):
    """Name: constructor given the linear gain, characteristic, has memory."""
    out = {"linear": (lambda g: PowerAmplifier(g), lambda x: x, False)}
    for s in (0.0, 0.25, 0.5, 1.0, np.inf):
        out["clip%s" % s] = (lambda g, s=s: ClippingPowerAmplifier(s, g), lambda x, s=s: np.array([v if abs(v) <= s else s * v / abs(v) for v in x], complex), False)
    for p in (0.5, 1.0, 2.0, 3.0, 10.0):
        out["rapp%s" % p] = (lambda g, p=p: RappPowerAmplifier(p, g), lambda x, p=p: x / (1 + abs(x) ** (2 * p)) ** (1 / (2 * p)), False)
    for a in itertools.product((0.0, 2.0), (0.0, 1.0), (0.0, 4.0), (0.0, 9.0)):
        out["saleh%s" % (a,)] = (
            lambda g, a=a: SalehPowerAmplifier(*a, g),
            lambda x, a=a: a[0] * x / (1 + a[1] * abs(x) ** 2) * np.exp(1j * a[2] * abs(x) ** 2 / (1 + a[3] * abs(x) ** 2)),
            False,
        )
    for n, t in enumerate(TABLES):
        out["custom%d" % n] = (lambda g, t=t: CustomPowerAmplifier(*t, g), custom(*t), False)
    for M, K in itertools.product(range(1, 5 if thorough else 4), repeat=2):
        for i in [None] + list(range(M * K)):
            C = dense(M, K) if i is None else one_hot((M, K), i)
            out["memory%dx%d/%s" % (M, K, i)] = (lambda g, C=C: MemoryPolynomialPowerAmplifier(C, gain=g), polynomial(C), True)
        cols = M * (K - 1) + 1
        for i in [None] + list(range(M * cols)):
            C = dense(M, cols) if i is None else one_hot((M, cols), i)
            out["cross%dx%d/%s" % (M, K, i)] = (lambda g, C=C: MemoryCTPolynomialPowerAmplifier(C, gain=g), cross_polynomial(C), True)
    return out


AMPLITUDES = (0.0, 0.2, 0.25, 0.45, 0.5, 0.9, 1.0, 1.7, 3.0)
PHASES = (0.0, 0.7, np.pi / 2, np.pi, -2.2)
POLAR = np.array([a * np.exp(1j * p) for a, p in itertools.product(AMPLITUDES, PHASES)])
SEQUENCE = POLAR[np.arange(9) * 19 % POLAR.size]
AMPS = None


def check_amplifier(acc, name, gain):
    make, model, memory = AMPS[name]
    x = SEQUENCE if memory else POLAR
    amp = make(gain)
    expected = model(gain * x)
    y = propagate(amp, x)[0]
    expect(np.allclose(y, expected, rtol=1e-9, atol=1e-9), "%s amplifier yields %s instead of %s", name, y[:6], expected[:6])
    if name.startswith("clip") or name.startswith("rapp"):
        limit = float(name[4:]) if name.startswith("clip") else 1.0
        expect((abs(y) <= limit + 1e-9).all(), "the amplifier exceeds its saturation")
    # Characteristics are independent of the common phase
    turned = propagate(amp, x * np.exp(0.9j))[0]
    expect(np.allclose(turned, y * np.exp(0.9j), atol=1e-9), "the characteristic depends on the common phase")
    for n in (0, 1, 2, 4):
        part = propagate(amp, x[:n])[0]
        expect(np.allclose(part, y[:n], atol=1e-9), "the first %d samples depend on later ones", n)
    if not memory:
        order = np.arange(x.size)[::-1]
        expect(np.allclose(propagate(amp, x[order])[0], y[order], atol=1e-12), "samples of memoryless amplifiers influence each other")
    acc.step(x.size)
    acc.state(name, gain)


def check_streams(acc, name, streams):
    """Streams of signals are distorted independently of each other."""
    make, model, _ = AMPS[name]
    x = np.array([np.roll(SEQUENCE, k) * (1 - 0.2 * k) for k in range(streams)])
    s = signal(x)
    y = make(1.0).model(s)
    expect(y.shape == x.shape and metadata(y) == metadata(s), "properties of the signal changed: %s, %s", metadata(s), metadata(y))
    for k in range(streams):
        expect(np.allclose(np.asarray(y)[k], model(x[k]), atol=1e-9), "stream %d of %d is distorted differently", k, streams)
    acc.step(streams)
    acc.state(name, streams)


def check_amp_history(acc, name, ops):
    """Reconfigurations of the linear gain."""
    make, model, _ = AMPS[name]
    amp, gain = make(1.0), 1.0
    for op in ops + ("s",):
        if op == "bad":
            try:
                amp.gain = -0.5
                expect(False, "negative gain accepted")
            except ValueError:
                pass
        elif op == "r":
            amp = roundtrip(amp)
        elif op == "s":
            expect(np.allclose(propagate(amp, SEQUENCE)[0], model(gain * SEQUENCE), atol=1e-9), "%s amplifier of gain %s", name, gain)
            expect(amp.gain == gain, "gain %s instead of %s", amp.gain, gain)
        else:
            amp.gain = gain = float(op)
        acc.step()
    acc.state(name, gain)


def check_parameter(acc, name, attribute, valid, invalid):
    make = {"clip": lambda: ClippingPowerAmplifier(1.0), "rapp": lambda: RappPowerAmplifier(2.0), "saleh": lambda: SalehPowerAmplifier(2.0, 1.0, 4.0, 9.0)}[name]
    amp = make()
    for v in valid:
        setattr(amp, attribute, v)
        expect(getattr(amp, attribute) == v, "%s %s", attribute, v)
        names = {"clip": ("saturation_amplitude",), "rapp": ("smoothness_factor",), "saleh": ("amplitude_alpha", "amplitude_beta", "phase_alpha", "phase_beta")}[name]
        args = [getattr(amp, n) for n in names]
        other = type(amp)(*args)
        expect(np.array_equal(propagate(amp, SEQUENCE), propagate(other, SEQUENCE)), "a reconfigured amplifier differs from a new one")
        for w in invalid:
            try:
                setattr(amp, attribute, w)
                expect(False, "%s %s accepted", attribute, w)
            except ValueError:
                pass
            expect(getattr(amp, attribute) == v, "rejected %s was stored", attribute)
        expect(np.array_equal(propagate(roundtrip(amp), SEQUENCE), propagate(amp, SEQUENCE)), "a recalled amplifier differs")
        acc.step(3)


def check_custom_lengths(acc, lengths):
    valid = len(set(lengths)) == 1
    try:
        amp = CustomPowerAmplifier(*[np.arange(n) + 1.0 for n in lengths])
        expect(valid, "vectors of lengths %s accepted", lengths)
        expect([v.tolist() for v in (amp.input, amp.gains, amp.phases)] == [(np.arange(n) + 1.0).tolist() for n in lengths], "characteristic points")
    except ValueError:
        expect(not valid, "vectors of lengths %s rejected", lengths)
    acc.step()


def check_measured(acc, kind, M, K):
    """Coefficients are recovered from the samples of the amplifier."""
    k = np.arange(140)
    x = (0.4 + 0.9 * np.abs(np.sin(k * k * 0.37 + k))) * np.exp(1j * k * k * 1.3)
    if kind == "memory":
        C = dense(M, K)
        y, cls = polynomial(C)(x), MemoryPolynomialPowerAmplifier
    else:
        C = dense(M, M * (K - 1) + 1)
        y, cls = cross_polynomial(C)(x), MemoryCTPolynomialPowerAmplifier
    amp = cls.FromMeasurements(x, y, M, K)
    expect(amp.coeff_matrix.shape == C.shape, "shape of the estimated coefficients %s", amp.coeff_matrix.shape)
    expect(np.allclose(amp.coeff_matrix, C, atol=1e-6), "coefficients %s instead of %s", amp.coeff_matrix, C)
    acc.step(x.size)
    acc.state(kind, M, K)


# ---------------------------------------------------------------------------- shifts and ramps
def check_shift(acc, bits, phase, ports):
    x = np.array([SEQUENCE * (k + 1) for k in range(ports)])
    y = propagate(Shift(phase, bits, ports), x)
    applied = np.angle(np.sum(y * x.conj()))
    expect(np.allclose(y, x * np.exp(1j * applied), atol=1e-9), "samples are shifted differently")
    distance = lambda a, b: abs(np.angle(np.exp(1j * (a - b))))
    if bits == 0:
        expect(distance(applied, phase) < 1e-9, "phase %s instead of %s", applied, phase)
    else:
        options = 2 * np.pi * np.arange(2**bits) / 2**bits
        expect(min(distance(applied, o) for o in options) < 1e-9, "phase %s isn't available", applied)
        expect(distance(applied, phase) <= min(distance(o, phase) for o in options) + 1e-9, "phase %s isn't the closest to %s", applied, phase)
    acc.step()
    acc.state(bits, phase, ports)


def check_ramp(acc, chirps, bandwidth, slope, guard, rate, oversampling):
    """Chirps sweep the bandwidth around the carrier once per interval."""
    duration = bandwidth / abs(slope)
    interval = duration * guard
    block = RampGenerator(chirps, bandwidth, slope, interval)
    out = block.propagate(block.realize(rate, oversampling, 5.0), RFSignal(0, 0, rate * oversampling), filter=False)
    fs = rate * oversampling
    n, active = int(round(interval * fs)), int(round(min(interval, duration) * fs))
    expect(out.shape == (1, chirps * n), "ramps of shape %s instead of %d samples", out.shape, chirps * n)
    frames = np.asarray(out).reshape(chirps, n)
    expect(all(np.array_equal(f, frames[0]) for f in frames), "chirps differ from each other")
    if chirps:
        c = frames[0]
        expect(np.allclose(abs(c[:active]), 1.0, atol=1e-9) and not c[active:].any(), "amplitude of the chirp")
        # frequency between adjacent samples: start +- (k + .5) * slope / fs
        f = np.angle(c[1:active] * c[: active - 1].conj()) * fs / (2 * np.pi)
        k = np.arange(active - 1)
        start = -bandwidth / 2 if slope > 0 else bandwidth / 2
        expected = start + slope * (k + 0.5) / fs
        error = np.angle(np.exp(2j * np.pi * (f - expected) / fs))
        expect(np.allclose(error, 0, atol=1e-6), "instantaneous frequencies %s instead of %s", f[:4], expected[:4])
    acc.step(max(1, chirps * n))
    acc.state(chirps, bandwidth, slope, guard, rate, oversampling)


CASES = {
    "adc": check_adc,
    "adc recall": check_adc_roundtrip,
    "adc history": check_history,
    "agc history": check_agc_history,
    "amplifier": check_amplifier,
    "streams": check_streams,
    "amplifier history": check_amp_history,
    "parameter": check_parameter,
    "custom": check_custom_lengths,
    "measured": check_measured,
    "shift": check_shift,
    "ramp": check_ramp,
}


def run_cases(acc, shard):
    for kind, *args in shard:
        acc.run("%s/%s" % (kind, args[0]), lambda: CASES[kind](acc, *args), {"kind": kind, "arguments": [str(a) for a in args]})


def main(check):
    global AMPS
    t = check.thorough
    AMPS = amplifiers(t)
    cases = []
    for bits, kind, gain, ports in itertools.product((None, 1, 2, 3, 4, 5, 6) + ((7, 8) if t else ()), TYPES, GAINS, (1, 2, 3)):
        for scale, content in itertools.product((1e-3, 0.6, 1.0, 50.0), ("grid", "real", "uneven", "peak+", "peak-", "peak+j", "peak-j")):
            cases.append(("adc", bits, kind, gain, ports, scale, content))
        cases += [("adc", bits, kind, gain, ports, 1.0, c) for c in ("zeros", "empty")]
        cases.append(("adc recall", bits, kind, gain, ports))
    cases += [("adc history", h) for h in histories(OPS, 4 if t else 3)]
    cases += [("agc history", h) for h in histories(["max", "rms", "x2", "x.5", "bad", "r", "n", "s"], 5 if t else 4)]
    for name in AMPS:
        cases += [("amplifier", name, g) for g in (0.0, 0.5, 1.0, 2.0)]
        cases += [("streams", name, n) for n in (1, 2, 3)]
    for name in ("linear", "clip0.5", "rapp2.0", "saleh%s" % ((2.0, 1.0, 4.0, 9.0),), "custom0", "memory2x3/None", "cross2x2/None"):
        cases += [("amplifier history", name, h) for h in histories(("0.5", "2", "0", "bad", "r", "s"), 4 if t else 3)]
    cases += [
        ("parameter", "clip", "saturation_amplitude", (0.0, 0.3, 2.0, np.inf), (-1e-9, -1.0)),
        ("parameter", "rapp", "smoothness_factor", (0.1, 1.0, 7.0), (0.0, -1.0)),
        ("parameter", "saleh", "amplitude_alpha", (0.0, 1.0), (-1.0,)),
        ("parameter", "saleh", "amplitude_beta", (0.0, 3.0), (-1.0,)),
        ("parameter", "saleh", "phase_alpha", (0.0, 1.0), ()),
        ("parameter", "saleh", "phase_beta", (0.0, 3.0), ()),
    ]
    cases += [("custom", n) for n in itertools.product((1, 2, 3), repeat=3)]
    cases += [("measured", k, M, K) for k in ("memory", "cross") for M in (1, 2, 3) for K in (1, 2, 3)]
    steps = 48
    cases += [("shift", b, 2 * np.pi * (p + off) / steps, n) for b in range(0, 6) for p in range(-steps, steps + 1) for off in (0.0, 0.31) for n in (1, 2)]
    for chirps, bandwidth, sign, guard, oversampling in itertools.product((0, 1, 2, 3), (0.25, 0.5, 1.0), (1, -1), (0.5, 1.0, 1.5, 2.0), (1, 2, 4)):
        for length in (8, 16, 64):
            cases.append(("ramp", chirps, bandwidth, sign * bandwidth / length, guard, 1.0, oversampling))
            if t:
                cases.append(("ramp", chirps, bandwidth * 1024, sign * bandwidth * 1024 / length, guard, 1024.0, oversampling))
    check.explore(run_cases, chunks(cases, 128), case_timeout=60)
    check.bounds = {"cases": len(cases), "bits": "unlimited, 1..%d" % (8 if t else 6), "reconfigurations": "converters %d, gains %d, amplifiers %d operations" % ((4, 5, 4) if t else (3, 4, 3)), "memory x degree": 4 if t else 3, "amplifiers": len(AMPS)}
    check.assumptions = ["converters convert all samples of a propagation at once", "blocks are propagated without oversampling filters and noise", "intervals of ramps cover an integer number of samples"]
