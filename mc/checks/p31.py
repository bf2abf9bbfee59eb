"""P31: hardware impairments of simulated devices act once, as configured and reproducibly."""
import itertools

import numpy as np
from scipy.constants import Boltzmann

from hermespy.channel import IdealChannel
from hermespy.core import AntennaMode, FloatingError, Signal, Transformation
from hermespy.core.signal_model import SignalBlock
from hermespy.simulation import AWGN, N0, SNR, ImpedanceCoupling, PerfectCoupling, PerfectIsolation, SelectiveLeakage, SimulatedCustomArray, SimulatedDevice, SimulatedIdealAntenna, SpecificIsolation, TriggerRealization
from hermespy.simulation.evaluators import SI, SSINR, SidelobeEvaluator
from hermespy.simulation.rf.noise import NoPhaseNoise, OscillatorPhaseNoise, ThermalNoise
from hermespy.simulation.rf.signal import RFSignal
from .p20 import D, R, RATE, T, Listener, Sender, is_same, same, samples
from .p35 import roundtrip
from ..core import chunks, expect, histories

BANDWIDTH = 4.0


def antennas(modes):
    return SimulatedCustomArray([SimulatedIdealAntenna(m, Transformation.From_Translation(np.array([0.1 * i, 0.03 * i * i, 0.0]))) for i, m in enumerate(modes)])


def device(modes, **k):
    return SimulatedDevice(antennas=antennas(modes), carrier_frequency=1e9, bandwidth=BANDWIDTH, oversampling_factor=1, **k)


def level(kind, value, reference=None):
    return {"N0": lambda: N0(value), "thermal": lambda: ThermalNoise(value), "SNR": lambda: SNR(value, reference)}[kind]()


def power(kind, value, reference=1.0):
    return {"N0": lambda: value * BANDWIDTH, "thermal": lambda: 4 * 50 * Boltzmann * value * BANDWIDTH, "SNR": lambda: reference / value}[kind]()


def clean(x, ports):
    return x if ports is None else x[list(ports)]


def receive(d, x, ports, want_power, what, **k):
    """Receive samples, compare the operators' inputs with the realized noise, return the noise."""
    s = Signal.Create(x.copy(), BANDWIDTH, 1e9)
    p = d.process_input(s, **k)
    same(s, x, "%s: impinging samples" % what)
    same(p.baseband_signal, x, "%s: samples before noise" % what)
    noise = p.noise_realization
    expect(np.isclose(noise.power, want_power, rtol=1e-12), "%s: noise power %g instead of %g", what, noise.power, want_power)
    noisy = np.asarray(noise.add_to(Signal.Create(x.copy(), BANDWIDTH, 0.0)).to_dense())
    for o, sel in zip(p.operator_inputs, ports, strict=True):
        same(o, clean(noisy, sel), "%s: noisy operator input" % what)
        expect(np.isclose(o.noise_power, want_power, rtol=1e-12), "%s: noise power %g of an operator input instead of %g", what, o.noise_power, want_power)
    added = noisy - x
    if want_power == 0.0:
        expect(not added.any(), "%s: noise of power zero", what)
    elif added.size >= 400:
        expect(0.7 * want_power < np.mean(np.abs(added) ** 2) < 1.3 * want_power, "%s: noise of power %g instead of %g", what, np.mean(np.abs(added) ** 2), want_power)
    return added


def check_configuration(acc, modes, kind, value, how, model, n):
    nrx = sum(m != T for m in modes)
    ports = [None, [nrx - 1]]
    x = samples(nrx, n)
    reference = device((D,), power=3.0)
    k = {}
    arguments = {}
    if how == "constructor":
        arguments["noise_level"] = level(kind, value, reference)
    if model == "constructor":
        arguments["noise_model"] = AWGN(5)
    d = device(modes, seed=42, **arguments)
    if how == "setter":
        d.noise_level = level(kind, value, reference)
    elif how in ("shift", "level", "shorthand"):
        d.noise_level = level(kind, 2 * value + 1, reference)
        if how == "shift":
            d.noise_level << value
        elif how == "level":
            d.noise_level.level = value
        else:
            d.noise = value
            expect(d.noise == value, "noise %s instead of %s", d.noise, value)
    elif how == "override":
        d.noise_level = N0(100.0)
        k["noise_level"] = level(kind, value, reference)
    if model == "setter":
        d.noise_model = AWGN(5)
    elif model == "override":
        k["noise_model"] = AWGN(5)
    for p in ports:
        d.receivers.add(Listener(p))
    want = power(kind, value, 3.0)
    first = receive(d, x, ports, want, "first reception", **k)
    second = receive(d, x, ports, want, "second reception", **k)
    if want:
        expect(not np.allclose(first, second, atol=1e-3 * np.sqrt(want)), "two receptions add equal noise")
        if nrx > 1:
            expect(not np.allclose(first[0], first[1], atol=1e-3 * np.sqrt(want)), "antennas receive equal noise")
    if how == "override":
        receive(d, x, ports, 100.0 * BANDWIDTH, "reception after an override")
    acc.step(3)
    acc.state(modes, kind, value, how, model, n)


def check_realization(acc, value, shape, sparse, seed):
    """Realizations are fixed, restorable, independent of the signal and scaled by the power."""
    x, y = samples(*shape, 1), samples(*shape, 2)

    def make(v):
        if sparse and shape[1] > 2:
            return Signal.Create([SignalBlock(shape[0], 1, 0, v[:, :1].tobytes()), SignalBlock(shape[0], shape[1] - 1, 1, v[:, 1:].tobytes())], RATE, 1e9, 0.25, 0.125)
        return Signal.Create(v.copy(), RATE, 1e9, 0.25, 0.125)

    r = AWGN(seed).realize(value)
    s = make(x)
    z = r.add_to(s)
    same(s, x, "signal noise was added to")
    expect((z.sampling_rate, z.carrier_frequency, z.delay) == (RATE, 1e9, 0.125), "metadata of the noisy signal")
    n1 = np.asarray(z.to_dense()) - x
    for what, other, v in (("again", r, x), ("to another signal", r, y), ("restored", roundtrip(r), x), ("equally seeded", AWGN(seed).realize(value), x)):
        n2 = np.asarray(other.add_to(make(v)).to_dense()) - v
        expect(np.allclose(n1, n2, atol=1e-9 * max(1.0, np.sqrt(value))), "noise added %s differs", what)
    n4 = np.asarray(AWGN(seed).realize(4 * value).add_to(make(x)).to_dense()) - x
    expect(np.allclose(n4, 2 * n1, atol=1e-9 * max(1.0, np.sqrt(value))), "noise of four times the power")
    model = AWGN(seed)
    draws = [np.asarray(model.realize(value).add_to(make(x)).to_dense()) - x for _ in range(3)]
    model.seed = seed
    again = [np.asarray(model.add_noise(make(x), value).to_dense()) - x for _ in range(3)]
    for a, b in zip(draws, again):
        expect(np.allclose(a, b, atol=1e-9 * max(1.0, np.sqrt(value))), "seeding again doesn't repeat the noise")
    if value and n1.size:
        expect(not np.allclose(draws[0], draws[1]) and not np.allclose(draws[1], draws[2]), "realizations add equal noise")
        other = np.asarray(AWGN(seed + 1).realize(value).add_to(make(x)).to_dense()) - x
        expect(not np.allclose(n1, other), "differently seeded models add equal noise")
    acc.step(7)
    acc.state(value, shape, sparse, seed)


NOISE_OPS = [("level", 0.5), ("level", 2.0), ("shift", 3.0), ("noise", 0.0), ("snr", 4.0), ("power", 2.0), ("override level", 7.0), ("override model",), ("transmit",), ("state",)]


def check_noise_history(acc, history):
    """Power and sequence of the noise depend on the configuration and number of receptions only."""
    def fresh():
        d = device((D, D), seed=7, noise_level=N0(1.0))
        d.receivers.add(Listener(None))
        d.transmitters.add(Sender(Signal.Create(samples(2, 3), BANDWIDTH, 0.0), None))
        return d

    d, x = fresh(), samples(2, 6)
    unit = fresh()
    want, draws, snr, device_power = BANDWIDTH, 0, None, 1.0
    for op, *a in (*history, ("receive",)):
        k, expected = {}, None
        if op == "level":
            d.noise_level = N0(a[0])
            want, snr = a[0] * BANDWIDTH, None
        elif op == "shift":
            d.noise_level << a[0]
            if snr is None:
                want = a[0] * BANDWIDTH
            else:
                snr = a[0]
        elif op == "noise":
            if snr is not None:
                continue
            d.noise = a[0]
            want = 0.0
        elif op == "snr":
            d.noise_level = SNR(a[0], d)
            snr = a[0]
        elif op == "power":
            d.power = device_power = a[0]
        elif op == "override level":
            k["noise_level"], expected = N0(a[0]), a[0] * BANDWIDTH
        elif op == "override model":
            k["noise_model"] = AWGN(3)
        elif op == "transmit":
            d.transmit()
        elif op == "state":
            k["state"] = d.state(1.0)
        if snr is not None:
            want = device_power / snr
        current = want if expected is None else expected
        added = receive(d, x, [None], current, "%s" % op, **k)
        # The twin does the same at a constant noise level
        if op == "transmit":
            unit.transmit()
        reference = receive(unit, x, [None], BANDWIDTH, "reference", **({"noise_model": AWGN(3)} if op == "override model" else {"state": unit.state(1.0)} if op == "state" else {})) / np.sqrt(BANDWIDTH)
        expect(np.allclose(added, np.sqrt(current) * reference, atol=1e-9), "%s: noise isn't the next draw at power %g", op, current)
        acc.step()
    acc.state(history)


def check_snr_channel(acc, gains, snr, reference_power):
    """Signal to noise ratios follow the energy scale of the latest channel sample."""
    a, b = device((D,), power=reference_power), device((D,))
    channel = IdealChannel()
    noise = SNR(snr, a, channel)
    expect(np.isclose(noise.get_power(5.0), reference_power / snr), "noise power before propagation")
    for g in gains:
        channel.gain = g
        channel.propagate(Signal.Create(samples(1, 3), BANDWIDTH, 1e9), a, b)
        expect(np.isclose(noise.get_power(5.0), reference_power / snr * g), "noise power %g after gain %g", noise.get_power(5.0), g)
        acc.step()
    a.power = 5.0
    expect(np.isclose(noise.get_power(1.0), 5.0 / snr * gains[-1]), "noise power after changing the reference's power")
    noise.reference = b
    noise << 2 * snr
    expect(np.isclose(noise.get_power(1.0), 0.5 / snr * gains[-1]), "noise power after changing reference and ratio")
    acc.state(gains, snr, reference_power)


def signal_of(x, form):
    if form == "sparse" and x.shape[1] > 3:
        v = x.copy()
        v[:, 1] = 0
        return Signal.Create([SignalBlock(x.shape[0], 1, 0, v[:, :1].tobytes()), SignalBlock(x.shape[0], x.shape[1] - 2, 2, v[:, 2:].tobytes())], BANDWIDTH, 1e9, 0.25, 0.5), v
    return Signal.Create(x.copy(), BANDWIDTH, 1e9, 0.25, 0.5), x


def check_isolation(acc, modes, kind, n, form):
    ntx, nrx = sum(m != R for m in modes), sum(m != T for m in modes)
    matrix = 1.0 + np.arange(nrx * ntx).reshape(nrx, ntx) ** 2
    taps = samples(nrx * ntx, 3, 4).reshape(nrx, ntx, 3)
    d = device(modes)
    if kind == "perfect":
        model = PerfectIsolation()
    elif kind == "matrix":
        model = SpecificIsolation(matrix)
    elif kind == "set":
        model = SpecificIsolation(3.0 * matrix)
        model.isolation = matrix
    elif kind == "scalar":
        model, matrix = SpecificIsolation(4.0), np.full((1, 1), 4.0)
    elif kind == "shift":
        model, matrix = SpecificIsolation(9.0), np.full((1, 1), 4.0)
        model << 4.0
    elif kind == "restored":
        model = roundtrip(SpecificIsolation(matrix))
    elif kind == "selective":
        model = SelectiveLeakage(taps)
    elif kind == "selective restored":
        model = roundtrip(SelectiveLeakage(taps))
    if kind in ("scalar", "shift") and len(modes) != 1:
        d2 = device(modes, isolation=SpecificIsolation(np.ones((nrx, ntx))))
        try:
            d2.isolation.isolation = 4.0
        except ValueError:
            acc.state(modes, kind, n, form)
            return
        raise AssertionError("scalar isolation of several antennas accepted")
    try:
        model.leak(Signal.Create(samples(ntx, n), BANDWIDTH, 1e9))
    except FloatingError:
        pass
    else:
        raise AssertionError("leakage of a model without device")
    d.isolation = model
    s, x = signal_of(samples(ntx, n), form)
    y = model.leak(s)
    same(s, x, "leaking samples")
    if kind == "perfect":
        expect(y.num_streams == nrx and not np.asarray(y.to_dense()).any(), "leakage of perfect isolation")
    else:
        if "selective" in kind:
            want = np.zeros((nrx, n + 2), complex)
            for i, j in itertools.product(range(nrx), range(ntx)):
                for tap in range(3):
                    want[i, tap : tap + n] += taps[i, j, tap] * x[j]
        else:
            want = matrix**-0.5 @ x
        same(y, want, "leakage")
        expect((y.sampling_rate, y.carrier_frequency, y.delay) == (BANDWIDTH, 1e9, 0.5), "metadata of the leakage")
    for wrong in (ntx + 1, ntx - 1):
        try:
            model.leak(Signal.Create(samples(wrong, max(n, 1)), BANDWIDTH, 1e9))
        except ValueError:
            continue
        raise AssertionError("leakage of %d streams from %d antennas" % (wrong, ntx))
    if kind in ("matrix", "set"):
        d.isolation = SpecificIsolation(np.ones((nrx + 1, ntx)))
        for m in (SpecificIsolation(np.ones((nrx + 1, ntx))), SpecificIsolation(np.ones((nrx, ntx + 1))), SpecificIsolation(), model):
            if m is model:
                model.isolation = None
            d.isolation = m
            try:
                m.leak(s)
            except RuntimeError:
                continue
            raise AssertionError("leakage of invalid isolations %s" % m.isolation)
    acc.step(4)
    acc.state(modes, kind, n, form)


def check_loopback(acc, modes, kind, length, n_trigger, value):
    """Leaking samples superimpose the impinging ones; self-interference is evaluated on them."""
    ntx, nrx = sum(m != R for m in modes), sum(m != T for m in modes)
    matrix = 1.0 + np.arange(nrx * ntx).reshape(nrx, ntx) ** 2
    isolation = {"perfect": PerfectIsolation, "specific": lambda: SpecificIsolation(matrix)}[kind]()
    d = device(modes, isolation=isolation, noise_level=N0(value))
    x = samples(ntx, 5, 1)
    d.transmitters.add(Sender(Signal.Create(x.copy(), BANDWIDTH, 0.0), None))
    d.receivers.add(Listener(None))
    si, ssinr = SI(d), SSINR(d)
    for e in (si, ssinr):
        try:
            e.evaluate()
        except RuntimeError:
            continue
        raise AssertionError("self-interference before reception")
    trigger = TriggerRealization(n_trigger, BANDWIDTH)
    leaking = np.zeros((nrx, 5), complex) if kind == "perfect" else matrix**-0.5 @ x
    for k in range(2):
        t = d.transmit(trigger_realization=trigger)
        y = samples(nrx, length, 2 + k)
        p = d.process_input(Signal.Create(y.copy(), BANDWIDTH, 1e9, delay=n_trigger / BANDWIDTH), trigger_realization=trigger, leaking_signals=t.leaking_signals)
        want = np.zeros((nrx, max(5 if kind == "specific" else 0, length)), complex)
        want[:, :length] += y
        if kind == "specific":
            want[:, :5] += leaking
        got = np.asarray(p.baseband_signal.to_dense())
        same(got, want, "samples with leakage")
        leaked = np.mean(np.abs(leaking) ** 2, axis=1)
        expect(np.allclose(si.evaluate().power, leaked), "self-interference %s instead of %s", si.evaluate().power, leaked)
        if leaked.any() or value:
            ratio = np.mean(np.abs(y) ** 2, axis=1) / (leaked + value * BANDWIDTH)
            expect(np.allclose(ssinr.evaluate().power, ratio), "signal to self-interference and noise %s instead of %s", ssinr.evaluate().power, ratio)
        acc.step(3)
    acc.state(modes, kind, length, n_trigger, value)


def matrix_root(m, p):
    w, v = np.linalg.eigh(m)
    return v @ np.diag(w**p) @ v.conj().T


def check_coupling(acc, modes, correlated, impedance, n, form, how):
    ntx, nrx = sum(m != R for m in modes), sum(m != T for m in modes)
    d = device(modes)
    a = samples(ntx, ntx, 3)
    c = a @ a.conj().T + np.eye(ntx)
    z = np.diag(1.0 + np.arange(ntx)) + 0.0j
    k = dict(transmit_correlation=c if correlated else None, transmit_impedance=z + 0.5j * np.eye(ntx) if impedance else None)
    if how == "constructor":
        model = ImpedanceCoupling(**k)
    elif how == "setter":
        model = ImpedanceCoupling()
        model.transmit_correlation, model.transmit_impedance = k["transmit_correlation"], k["transmit_impedance"]
    else:
        model = roundtrip(ImpedanceCoupling(**k))
    want = np.eye(ntx, dtype=complex)
    if correlated:
        want = matrix_root(c, 0.5)
    if impedance:
        want = np.diag((1.0 + np.arange(ntx)) ** -0.5) @ want
    state = d.state()
    s, x = signal_of(samples(ntx, n), form)
    y = model.transmit(s, state)
    same(s, x, "coupled samples")
    same(y, want @ x, "transmit coupling", 1e-7)
    expect((y.sampling_rate, y.carrier_frequency, y.noise_power, y.delay) == (BANDWIDTH, 1e9, 0.25, 0.5), "metadata of coupled signals")
    s, x = signal_of(samples(nrx, n), form)
    for m in (model, PerfectCoupling()):
        y = m.receive(s, state)
        same(y, x, "receive coupling", 1e-7)
        same(s, x, "coupled samples")
        for direction, count in ((m.transmit, ntx), (m.receive, nrx)):
            for wrong in (count + 1, count - 1):
                try:
                    direction(Signal.Create(samples(wrong, n), BANDWIDTH, 1e9), state)
                except ValueError:
                    continue
                raise AssertionError("coupling of %d streams by %d antennas" % (wrong, count))
    s, x = signal_of(samples(ntx, n), form)
    same(PerfectCoupling().transmit(s, state), x, "perfect coupling")
    # Within the device
    d.coupling = model
    d.transmitters.add(Sender(Signal.Create(x.copy(), BANDWIDTH, 0.0), None))
    d.power = 4.0
    same(d.transmit().mixed_signal, 2 * want @ x, "transmission with coupling", 1e-7)
    acc.step(4)
    acc.state(modes, correlated, impedance, n, form, how)


def check_receive_coupling(acc, modes, matched, loaded, n, form, how):
    """Received samples are matched to the array; its impedance and correlation matrix are identical."""
    nrx = sum(m != T for m in modes)
    a = samples(nrx, nrx, 4)
    m = a @ a.conj().T + np.eye(nrx) if loaded else None
    z = np.diag(2.0 + np.arange(nrx)) + 1j * (0.5 * np.eye(nrx) + 0.25) if matched else None
    k = dict(receive_correlation=m, receive_impedance=m, matching_impedance=z)
    if how == "setter":
        model = ImpedanceCoupling()
        for key, value in k.items():
            setattr(model, key, value)
    else:
        model = ImpedanceCoupling(**k) if how == "constructor" else roundtrip(ImpedanceCoupling(**k))
    eye = np.eye(nrx, dtype=complex)
    load, array = (eye if z is None else z), (eye if m is None else m)
    want = 2 * array[0, 0].real * np.diag(np.diag(load).real ** 0.5) @ np.linalg.inv(load + array) @ matrix_root(array, 0.5)
    d = device(modes)
    s, x = signal_of(samples(nrx, n), form)
    y = model.receive(s, d.state())
    same(s, x, "coupled samples")
    same(y, want @ x, "receive coupling", 1e-7)
    ntx = sum(m != R for m in modes)
    t, x = signal_of(samples(ntx, n), form)
    same(model.transmit(t, d.state()), x, "transmit coupling by receive matrices", 1e-7)
    acc.step(2)
    acc.state(modes, matched, loaded, n, form, how)


def check_phase_noise(acc, ks, shape, seed):
    x = samples(*shape)

    def apply(r, v):
        s = RFSignal.FromNDArray(v.copy(), RATE, np.full(shape[0], 1e9))
        y = r.add_noise(s)
        same(np.asarray(s), v, "samples phase noise was added to")
        expect(y.shape == v.shape and y.sampling_rate == RATE and y.carrier_frequencies.tolist() == [1e9] * shape[0], "metadata of phase noise")
        return np.asarray(y)

    r = OscillatorPhaseNoise(*ks, seed=seed).realize(RATE, 1)
    y = apply(r, x)
    expect(np.allclose(np.abs(y), np.abs(x), rtol=1e-12), "phase noise changes amplitudes")
    expect(np.array_equal(apply(r, x), y), "a realization adds different phase noise")
    expect(np.allclose(apply(r, 2j * x), 2j * y, rtol=1e-12), "phase noise depends on the samples")
    expect(np.array_equal(apply(OscillatorPhaseNoise(*ks, seed=seed).realize(RATE, 1), x), y), "equally seeded phase noise differs")
    if any(ks) and x.size:
        expect(not np.allclose(y, x, atol=1e-12), "no phase noise")
        model = OscillatorPhaseNoise(*ks, seed=seed)
        a, b = apply(model.realize(RATE, 1), x), apply(model.realize(RATE, 1), x)
        expect(not np.allclose(a, b, atol=1e-12), "realizations add equal phase noise")
    else:
        expect(np.allclose(y, x, rtol=1e-12), "phase noise without power")
    expect(np.array_equal(apply(NoPhaseNoise().realize(RATE, 1), x), x), "no phase noise changes samples")
    acc.step(6)
    acc.state(ks, shape, seed)


def check_sidelobe(acc, modes, n, codebook, angles):
    from hermespy.core import AntennaMode
    from hermespy.beamforming import SphericalFocus

    d = device(modes)
    ntx = sum(m != R for m in modes)
    x = samples(ntx, n, 6)
    book = samples(codebook, ntx, 8)
    d.transmitters.add(Sender(Signal.Create(x.copy(), BANDWIDTH, 0.0), None))
    e = SidelobeEvaluator(d, AntennaMode.TX, SphericalFocus(np.array(angles)), book)
    state = d.state()
    for p in (1.0, 4.0):
        d.power = p
        d.transmit()
        w = state.antennas.spherical_phase_response(1e9, *SphericalFocus(np.array(angles)).spherical_angles(state), AntennaMode.TX)
        total = np.sum(np.abs(x) ** 2)
        want = np.sum(np.abs(w @ x) ** 2) / total / (np.sum(np.abs(book @ x) ** 2) / total)
        got = e.evaluate().artifact().to_scalar()
        expect(np.isclose(got, want, rtol=1e-9), "sidelobe level %g instead of %g", got, want)
        acc.step()
    acc.state(modes, n, codebook, angles)


FUNCTIONS = {"configuration": check_configuration, "realization": check_realization, "noise history": check_noise_history, "snr": check_snr_channel, "isolation": check_isolation, "loopback": check_loopback, "coupling": check_coupling, "receive coupling": check_receive_coupling, "phase": check_phase_noise, "sidelobe": check_sidelobe}


def run_cases(acc, shard):
    for kind, *args in shard:
        acc.run("impairments/%s" % kind, lambda: FUNCTIONS[kind](acc, *args), {"kind": kind, "arguments": [str(a) for a in args]})


def main(check):
    t = check.thorough
    arrays = [(D,), (D, D), (T, D), (D, R), (T, R, D), (D, D, D)]
    cases = []
    for modes in arrays:
        for kind, value in [("N0", 0.0), ("N0", 0.5), ("N0", 1e-9), ("thermal", 290.0), ("thermal", 0.0), ("SNR", 0.5), ("SNR", 100.0)]:
            for how in ("constructor", "setter", "shift", "level", "shorthand", "override"):
                for model in ("default", "constructor", "setter", "override"):
                    for n in (3, 500) + ((1, 40) if t else ()):
                        cases.append(("configuration", modes, kind, value, how, model, n))
        for kind in ("perfect", "matrix", "set", "scalar", "shift", "restored", "selective", "selective restored"):
            for n in (1, 2, 4, 7):
                cases += [("isolation", modes, kind, n, form) for form in (("dense",) if "selective" in kind else ("dense", "sparse"))]
        for kind in ("perfect", "specific"):
            cases += [("loopback", modes, kind, length, n, value) for length in (1, 5, 8) for n in (0, 1, 3) for value in (0.0, 0.5)]
        for correlated, impedance in itertools.product((False, True), repeat=2):
            cases += [("receive coupling", modes, correlated, impedance, n, form, how) for n in (1, 5) for form in ("dense", "sparse") for how in ("constructor", "setter", "restored")]
            cases += [("coupling", modes, correlated, impedance, n, form, how) for n in (1, 5) for form in ("dense", "sparse") for how in ("constructor", "setter", "restored")]
        cases += [("sidelobe", modes, n, c, angles) for n in (1, 5) for c in (1, 3) for angles in ((0.0, 0.0), (0.4, 1.0), (2.0, -0.7))]
    for value in (0.0, 1e-12, 0.5, 30.0):
        for shape in ((1, 0), (1, 1), (2, 3), (3, 9)):
            cases += [("realization", value, shape, sparse, seed) for sparse in (False, True) for seed in (0, 5, 77)]
    for ks in itertools.product((0.0, 1e-5), (0.0, 1e-3), (0.0, 1e-2)):
        cases += [("phase", ks, shape, seed) for shape in ((1, 1), (2, 3), (3, 20), (1, 0)) for seed in (0, 1)]
    for gains in itertools.product((0.25, 1.0, 9.0), repeat=2):
        cases += [("snr", gains, s, p) for s in (0.5, 10.0) for p in (1.0, 3.0)]
    cases += [("noise history", h) for h in histories(NOISE_OPS, 3 if not t else 4, 1)]
    check.explore(run_cases, chunks(cases, 128), case_timeout=120)
    check.bounds = {"antennas": 3, "cases": len(cases), "noise history depth": 3 if not t else 4}
    check.assumptions = ["operators are not separated; converters don't filter at an oversampling factor of one; distribution of the noise beyond its power is not decided"]
