"""P36: physical devices calibrate delays, leakage and antennas as configured."""
import itertools
import os
import shutil
import tempfile

import numpy as np

from hermespy.core import AntennaMode, Signal, SignalBlock, SparseSignal, Transmission
from hermespy.hardware_loop import DelayCalibration, NoAntennaCalibration, NoDelayCalibration, NoLeakageCalibration, PhysicalDeviceDummy, ScalarAntennaCalibration, SelectiveLeakageCalibration
from hermespy.hardware_loop.physical_device import PhysicalDevice, PhysicalDeviceState
from hermespy.simulation import SelectiveLeakage, SimulatedIdealAntenna, SimulatedCustomArray, SimulatedUniformArray
from ..core import chunks, expect, histories

RATE, CARRIER = 1e6, 1e9


def array(num_transmit, num_receive):
    modes = [AntennaMode.DUPLEX] * min(num_transmit, num_receive) + [AntennaMode.TX] * (num_transmit - num_receive) + [AntennaMode.RX] * (num_receive - num_transmit)
    return SimulatedCustomArray([SimulatedIdealAntenna(m) for m in modes])


class Loop(PhysicalDevice):
    """A device receiving back what it transmits over known impulse responses."""

    def __init__(self, num_transmit, num_receive, response=None, delay=0, noise=None, **kw):
        self.arrays = array(num_transmit, num_receive)
        PhysicalDevice.__init__(self, **kw)
        self.arrays.set_base(self)
        self.response, self.delay, self.noise = response, delay, noise
        self.uploads, self.triggers, self.memory = [], 0, None

    antennas = property(lambda self: self.arrays)
    carrier_frequency = property(lambda self: CARRIER)
    sampling_rate = property(lambda self: RATE)
    oversampling_factor = property(lambda self: 1)
    max_sampling_rate = property(lambda self: RATE)

    def state(self):
        return PhysicalDeviceState(id(self), 0.0, self.pose, self.velocity, CARRIER, RATE, 1, self.arrays.state(self.pose), self.num_transmit_dsp_ports, self.num_receive_dsp_ports, self.num_transmit_rf_ports, self.num_receive_rf_ports)

    def _upload(self, signal):
        self.memory = np.array(signal.to_dense().view(np.ndarray))
        self.uploads.append(self.memory)
        return signal

    def trigger(self):
        self.triggers += 1

    def _download(self):
        out = received(self.memory, self.response, self.delay)
        if self.noise is not None:
            out = out + self.noise(out.shape)
        return Signal.Create(out, RATE, CARRIER)


def received(samples, response, delay):
    nr, nt, taps = response.shape
    out = np.zeros((nr, samples.shape[1] + taps - 1 + delay), dtype=complex)
    for m, n in np.ndindex(nr, nt):
        out[m, delay:] += np.convolve(response[m, n], samples[n])
    return out


def generic(shape, k=0):
    n = int(np.prod(shape))
    return (np.exp(1.7j * (np.arange(n) + k) ** 2) * (1 + (np.arange(n) * 0.61803) % 1)).reshape(shape)


def create(kind, samples, **kw):
    if kind == "dense":
        return Signal.Create(samples, RATE, CARRIER, **kw)
    k = max(samples.shape[1] // 2, 1)
    blocks = [samples[:, :k], samples[:, k + 1 :]]
    return SparseSignal([SignalBlock(samples.shape[0], b.shape[1], o, np.ascontiguousarray(b).tobytes()) for b, o in zip(blocks, (0, k + 1))], RATE, CARRIER, **kw)


def dense(signal):
    return np.array(signal.to_dense().view(np.ndarray))


def close(got, want, what, tolerance=1e-9):
    got = dense(got) if isinstance(got, Signal) else np.asarray(got)
    expect(got.shape == want.shape, "%s: shape %s instead of %s", what, got.shape, want.shape)
    expect(np.allclose(got, want, rtol=0, atol=tolerance), "%s: %s instead of %s", what, got.round(3).tolist()[:2], want.round(3).tolist()[:2])


def remove(acc, case):
    """Exactly the response's prediction is subtracted from what was received."""
    _, nr, nt, taps, length, num, shift, delay, kind, ports = case
    response = generic((nr, nt, taps))
    transmit_ports, receive_ports = {None: (None, None), "ports": ([2, 0][:nt], [1, 2][:nr]), "reversed": ([1, 0][:nt], [2, 0][:nr])}[ports]
    c = SelectiveLeakageCalibration(response, RATE, shift / RATE, None, transmit_ports, receive_ports)
    transmitted = generic((nt if ports is None else 3, length), 3)
    got_samples = generic((nr if ports is None else 3, num), 7)
    expected = got_samples.copy()
    t_ports, r_ports = transmit_ports or range(nt), receive_ports or range(nr)
    for m, n in np.ndindex(nr, nt):
        leak = np.convolve(response[m, n], transmitted[t_ports[n]]) if length else np.zeros(0)
        for k, v in enumerate(leak):
            if 0 <= k + shift - delay < num:
                expected[r_ports[m], k + shift - delay] -= v
    tx, rx = create("dense", transmitted), create(kind, got_samples, delay=delay / RATE)
    if kind == "sparse":
        base = dense(rx)
        num = base.shape[1]
        expected = expected[:, :num] - got_samples[:, :num] + base
    before = dense(tx), dense(rx)
    corrected = c.remove_leakage(tx, rx)
    close(corrected, expected, "corrected signal")
    expect(np.array_equal(before[0], dense(tx)) and np.array_equal(before[1], dense(rx)), "removing leakage modified the signals")
    expect(corrected.delay == rx.delay and corrected.carrier_frequency == CARRIER and corrected.sampling_rate == RATE, "metadata changed")
    if length:
        leak = c.predict_leakage(tx)
        want = np.zeros((nr, length + taps - 1), dtype=complex)
        for m, n in np.ndindex(nr, nt):
            want[m] += np.convolve(response[m, n], transmitted[t_ports[n]])
        close(leak, want, "predicted leakage")
        expect(abs(leak.delay - shift / RATE) < 1e-12 and leak.noise_power == tx.noise_power and leak.sampling_rate == RATE and leak.carrier_frequency == CARRIER, "prediction has delay %s, noise power %s", leak.delay, leak.noise_power)
    peak = np.unravel_index(np.argmax(np.abs(response)), response.shape)[2]
    expect(abs(c.estimate_delay().delay - (peak + shift) / RATE) < 1e-12, "estimated delay %s instead of %s", c.estimate_delay().delay, (peak + shift) / RATE)
    acc.step()
    acc.state(case)


def estimate(acc, case):
    """Estimated leakages equal the device's responses, devices configured with them receive nothing but echoes."""
    _, method, nr, nt, taps, probes, wavelet, configure = case
    response = generic((nr, nt, taps))
    device = Loop(nt, nr, response)
    if method == "ls":
        c = SelectiveLeakageCalibration.LeastSquaresEstimate(device, probes, wavelet, configure, False)
    elif method == "mmse":
        c = SelectiveLeakageCalibration.MMSEEstimate(device, probes, wavelet, np.zeros(nr), configure)
    else:
        device.noise_power = np.zeros(nr)
        c = SelectiveLeakageCalibration.MMSEEstimate(device, probes, wavelet, None, configure)
    expect(device.triggers == probes * nt, "%s probings", device.triggers)
    expect((device.leakage_calibration is c) == configure, "the device is%s configured", "" if device.leakage_calibration is c else "n't")
    padded = np.zeros((nr, nt, wavelet), dtype=complex)
    padded[:, :, :taps] = response
    expect(c.leakage_response.shape == padded.shape, "response of shape %s", c.leakage_response.shape)
    close(c.leakage_response, padded, "estimated response", 1e-6)
    if configure:
        samples = generic((nt, 12), 5)
        signal = Signal.Create(samples, RATE, CARRIER)
        close(device.trigger_direct(signal), np.zeros((nr, 12 + taps - 1)), "remaining leakage", 1e-5)
        close(device.trigger_direct(signal, calibrate=False), received(samples, response, 0), "uncalibrated reception")
        device.transmit()
        device.memory = samples
    acc.step(2)
    acc.state(case)


def ports(acc, case):
    """Estimates for selected ports only describe and only affect these ports."""
    _, tp, rp = case
    response = generic((3, 3, 2))
    device = Loop(3, 3, response)
    c = SelectiveLeakageCalibration.LeastSquaresEstimate(device, 3, 31, True, False, list(tp), list(rp))
    close(c.leakage_response[:, :, :2], response[np.ix_(rp, tp)], "estimated response", 1e-6)
    samples = np.zeros((3, 6), dtype=complex)
    samples[list(tp)] = generic((len(tp), 6))
    want = received(samples, response, 0)
    want[list(rp)] = 0
    close(device.trigger_direct(Signal.Create(samples, RATE, CARRIER)), want, "remaining leakage", 1e-6)
    acc.state(case)
    acc.step()


def delays(acc, case):
    """Corrections shift by the delay, whatever its length and sign."""
    _, kind, ns, num, d = case
    c = DelayCalibration(d / RATE)
    samples = generic((ns, num))
    s = create(kind, samples)
    base = dense(s)
    want = np.zeros_like(base)
    n = int(np.round(max(d, 0)))
    if n < base.shape[1]:
        want[:, : base.shape[1] - n] = base[:, n:]
    got = c.correct_receive_delay(s)
    close(got, want, "received signal of delay %s" % d)
    want = np.concatenate([np.zeros((ns, int(np.round(max(-d, 0))))), base], axis=1)
    got = c.correct_transmit_delay(s)
    close(got, want, "transmitted signal of delay %s" % d)
    expect(np.array_equal(base, dense(s)), "the given signal was modified")
    expect(got.carrier_frequency == CARRIER and got.sampling_rate == RATE, "metadata changed")
    acc.step(2)
    acc.state(case)


def delay_estimate(acc, case):
    """The device's delay is found at any port, gain and phase."""
    _, nt, nr, delay, phase, gains, iterations, tp, rp = case
    response = np.zeros((nr, nt, 1), dtype=complex)
    for m, n in np.ndindex(nr, nt):
        response[m, n] = gains[m % len(gains)] * np.exp(1j * phase)
    device = Loop(nt, nr, response, delay)
    c = DelayCalibration.Estimate(device, 8 / RATE, iterations, 0.0, None if tp is None else list(tp), None if rp is None else list(rp))
    expect(abs(c.delay - delay / RATE) < 1e-12, "delay of %s samples instead of %s", c.delay * RATE, delay)
    expect(device.triggers == iterations, "%s probings", device.triggers)
    samples = generic((nr, 20))
    expected = np.zeros((nr, 20), dtype=complex)
    expected[:, : 20 - delay] = samples[:, delay:]
    if rp is None:
        close(c.correct_receive_delay(Signal.Create(samples, RATE, CARRIER)), expected, "corrected signal")
    acc.step()
    acc.state(case)


def antennas(acc, case):
    """Antenna weights scale each port once, callers' signals remain."""
    _, kind, nt, nr, times = case
    wt, wr = generic((nt,), 1), generic((nr,), 2)
    response = np.zeros((nr, nt, 1), dtype=complex)
    for k in range(min(nt, nr)):
        response[k, k] = 1.0
    device = Loop(nt, nr, response)
    c = ScalarAntennaCalibration(wt, wr, device)
    expect(device.antenna_calibration is c and c.device is device, "the calibration isn't configured")
    samples = generic((nt, 9))
    signal = create(kind, samples)
    base = dense(signal)
    for k in range(times):
        got = device.trigger_direct(signal)
        close(device.uploads[-1], wt[:, None] * base, "uploaded samples at triggering %d times" % (k + 1))
        close(got, received(wt[:, None] * base, response, 0), "received samples")
        close(signal, base, "the given signal")
        device.trigger_direct(signal, calibrate=False)
        close(device.uploads[-1], base, "uncalibrated samples")
        acc.step(2)
    for w, f, n in ((wt, c.correct_transmission, nt), (wr, c.correct_reception, nr)):
        b = SignalBlock(n, 4, 2, np.ascontiguousarray(generic((n, 4))).tobytes()).copy()
        want = w[:, None] * np.array(b)
        out = f(b)
        expect(out is b and np.allclose(np.asarray(b), want) and b.offset == 2, "blocks aren't corrected in place")
        try:
            f(SignalBlock(n + 1, 1, 0, np.zeros((n + 1, 1), dtype=complex).tobytes()))
        except ValueError:
            pass
        else:
            expect(False, "a block of the wrong number of streams was corrected")
    acc.state(case)


SLOTS = {
    "leakage": ("leakage_calibration", NoLeakageCalibration, lambda: SelectiveLeakageCalibration(np.ones((1, 1, 2), dtype=complex), RATE)),
    "delay": ("delay_calibration", NoDelayCalibration, lambda: DelayCalibration(1e-6)),
    "antenna": ("antenna_calibration", NoAntennaCalibration, lambda: ScalarAntennaCalibration(np.ones(1, dtype=complex), np.ones(1, dtype=complex))),
}


def slots(acc, case):
    """Devices and their calibrations refer to each other after any history of assignments."""
    _, slot, ops = case
    name, default, make = SLOTS[slot]
    devices = [Loop(1, 1, np.ones((1, 1, 1))) for _ in range(2)]
    cals = [make() for _ in range(2)]
    owner = [None, None]
    for d in devices:
        expect(isinstance(getattr(d, name), default), "devices start calibrated")
    for op in ops:
        kind, i, j = op
        if kind == "device":  # assign the calibration at the device
            setattr(devices[i], name, cals[j])
            owner = [None if (k != j and owner[k] == i) else owner[k] for k in range(2)]
            owner[j] = i
        elif kind == "calibration":  # assign the device at the calibration
            cals[j].device = devices[i]
            owner = [None if (k != j and owner[k] == i) else owner[k] for k in range(2)]
            owner[j] = i
        elif kind == "detach":
            cals[j].device = None
            owner[j] = None
        for j, c in enumerate(cals):
            expect(c.device is (None if owner[j] is None else devices[owner[j]]), "calibration %s belongs to %s instead of %s after %s", j, [k for k, d in enumerate(devices) if d is c.device], owner[j], op)
        for k, d in enumerate(devices):
            held = getattr(d, name)
            want = [c for j, c in enumerate(cals) if owner[j] == k]
            if want:
                expect(held is want[0], "device %s holds another calibration after %s", k, op)
            else:
                expect(isinstance(held, default) and held.device is d, "device %s isn't reset after %s", k, op)
        acc.step()
    acc.state(slot, ops)


def storage(acc, case):
    """Saved calibrations are the loaded ones."""
    _, leakage, delay, antenna = case
    scratch = tempfile.mkdtemp(prefix="mc_p36_")
    try:
        path = os.path.join(scratch, "calibration.h5")
        device, other = (Loop(2, 2, np.ones((2, 2, 1))) for _ in range(2))
        if leakage:
            device.leakage_calibration = SelectiveLeakageCalibration(generic((1 if leakage == 2 else 2, 2, leakage)), RATE, 3 / RATE, None, None if leakage == 1 else [1, 0], [1] if leakage == 2 else None)
        if delay is not None:
            device.delay_calibration = DelayCalibration(delay / RATE)
        if antenna:
            device.antenna_calibration = ScalarAntennaCalibration(generic((2,)), generic((2,), 4))
        device.save_calibration(path)
        other.load_calibration(path)
        for a, b, n in ((device, other, None),):
            for name in ("leakage_calibration", "delay_calibration", "antenna_calibration"):
                x, y = getattr(a, name), getattr(b, name)
                expect(type(x) is type(y), "%s is %s instead of %s", name, type(y).__name__, type(x).__name__)
                expect(y.device is b and x.device is a, "%s belongs to another device", name)
                for attribute in ("leakage_response", "sampling_rate", "delay", "transmit_correction_weights", "receive_correction_weights"):
                    if hasattr(x, attribute):
                        expect(np.array_equal(getattr(x, attribute), getattr(y, attribute)), "%s of %s differs", attribute, name)
                if not type(x).__name__.startswith("No"):
                    single = os.path.join(scratch, name + ".h5")
                    x.save(single)
                    z = type(x).Load(single)
                    if name == "leakage_calibration":
                        signals = [Signal.Create(generic((2, n), n), RATE, CARRIER) for n in (9, 14)]
                        want = dense(x.remove_leakage(*signals))
                        for c in (y, z):
                            close(c.remove_leakage(*signals), want, "signal corrected by a restored calibration")
                    for attribute in ("leakage_response", "sampling_rate", "delay", "transmit_correction_weights", "receive_correction_weights"):
                        if hasattr(x, attribute):
                            expect(np.array_equal(getattr(x, attribute), getattr(z, attribute)), "%s of %s differs", attribute, name)
        acc.step(3)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    acc.state(case)


def device(acc, case):
    """Receptions of physical devices are filtered and corrected for the most recent transmission, whatever their form."""
    _, leakage, lowpass, bandwidth, form, constructed = case
    from scipy.signal import butter, sosfilt
    response = generic((2, 2, 3))
    kw = {"lowpass_filter": lowpass, "lowpass_bandwidth": bandwidth, "max_receive_delay": 2e-6, "noise_power": np.array([0.5, 0.25]), "adaptive_sampling": True} if constructed else {}
    d = Loop(2, 2, response, **kw)
    if not constructed:
        d.lowpass_filter, d.lowpass_bandwidth, d.adaptive_sampling = lowpass, bandwidth, True
    expect(d.lowpass_filter is lowpass and d.lowpass_bandwidth == bandwidth and d.adaptive_sampling is True, "the device is configured differently: lowpass %s, %s, adaptive sampling %s", d.lowpass_filter, d.lowpass_bandwidth, d.adaptive_sampling)
    d.adaptive_sampling = False
    if leakage:
        d.leakage_calibration = SelectiveLeakageCalibration(response, RATE)
    d.transmit()
    for repetition in range(2):
        transmitted = generic((2, 10), repetition)
        upload(d, transmitted)
        d.trigger()
        raw = received(transmitted, response, 0)
        filtered = raw
        if lowpass and form in ("download", "receive"):
            sos = butter(5, 0.25 * RATE if bandwidth <= 0 else 0.5 * bandwidth, output="sos", fs=RATE)
            filtered = sosfilt(sos, raw, axis=1)
        signal = Signal.Create(raw, RATE, CARRIER)
        if form == "download":
            got = d.process_input().impinging_signals[0]
        elif form == "receive":
            got = d.receive().impinging_signals[0]
        elif form == "signal":
            got = d.process_input(signal).impinging_signals[0]
        else:
            got = d.process_input([signal]).impinging_signals[0]
        want = filtered - received(transmitted, response, 0) if leakage else filtered
        close(got, want, "processed input", 1e-8)
        acc.step()
    for wrong in (Signal.Create(np.zeros((1, 3), dtype=complex), RATE, CARRIER), Signal.Create(np.zeros((2, 3), dtype=complex), 2 * RATE, CARRIER)):
        try:
            d.process_input(wrong)
        except ValueError:
            pass
        else:
            expect(False, "an invalid input was processed")
    for wrong in (Signal.Create(np.zeros((2, 3), dtype=complex), RATE, 2 * CARRIER), Signal.Create(np.zeros((2, 3), dtype=complex), 2 * RATE, CARRIER)):
        try:
            d.trigger_direct(wrong)
        except ValueError:
            pass
        else:
            expect(False, "an invalid signal was triggered")
    acc.state(case)


def upload(device, samples):
    """Transmit samples by an operator of the device."""
    from hermespy.simulation import SimulatedDevice  # noqa: F401
    from hermespy.core import Transmitter

    class Source(Transmitter):
        power = 1.0
        sampling_rate = RATE
        frame_duration = samples.shape[1] / RATE

        def _transmit(self, state, duration):
            return Transmission(Signal.Create(samples, RATE, CARRIER))

        def _recall_transmission(self, *a):
            raise NotImplementedError

        def samples_per_frame(self, *a):
            return samples.shape[1]

        def frame_duration(self, *a):
            return samples.shape[1] / RATE

        def serialize(self, process):
            pass

        @classmethod
        def Deserialize(cls, process):
            return cls()

    for t in list(device.transmitters):
        device.transmitters.remove(t)
    s = Source()
    device.transmitters.add(s)
    PhysicalDevice.transmit(device)


def noise(acc, case):
    """The noise floor equals the variance of the received silence."""
    _, nr, num, cache = case
    values = generic((nr, num))
    d = Loop(1, nr, np.ones((nr, 1, 1)), noise=lambda shape: values[:, : shape[1]])
    got = d.estimate_noise_power(num, cache)
    want = np.mean(np.abs(values) ** 2, axis=1)
    expect(np.allclose(got, want), "noise powers %s instead of %s", got, want)
    expect((d.noise_power is not None and np.allclose(d.noise_power, want)) if cache else d.noise_power is None, "the estimate was%s cached", "" if d.noise_power is not None else "n't")
    acc.step()
    acc.state(case)


def dummy(acc, case):
    """Dummies receive back their transmission and leakage, calibrations remove the latter."""
    _, n, taps, receive, method = case
    d = PhysicalDeviceDummy(carrier_frequency=CARRIER, bandwidth=RATE, oversampling_factor=1, seed=3, antennas=SimulatedUniformArray(SimulatedIdealAntenna, 1e-3, (n, 1, 1)), receive_transmission=False)
    response = generic((n, n, taps))
    d.isolation = SelectiveLeakage(response)
    samples = generic((n, 10))
    signal = Signal.Create(samples, RATE, CARRIER)
    own = samples if receive else np.zeros_like(samples)

    def check(got, leak, what):
        want = np.zeros((n, max(10, leak.shape[1])), dtype=complex)
        want[:, :10] += own
        want[:, : leak.shape[1]] += leak
        got = dense(got)
        k = min(got.shape[1], want.shape[1])
        expect(k >= 10, "%s has %s samples", what, k)
        close(got[:, :k], want[:, :k], what, 1e-5)

    d.receive_transmission = receive
    check(d.trigger_direct(signal), received(samples, response, 0), "uncalibrated reception")
    d.receive_transmission = False
    if method == "ls":
        SelectiveLeakageCalibration.LeastSquaresEstimate(d, 3, 31, True, False)
    else:
        SelectiveLeakageCalibration.MMSEEstimate(d, 3, 31, np.zeros(n))
    d.receive_transmission = receive
    check(d.trigger_direct(signal), np.zeros((n, 0)), "calibrated reception")
    check(d.trigger_direct(signal, calibrate=False), received(samples, response, 0), "reception without calibration")
    acc.step(3)
    acc.state(case)


CASES = {f.__name__: f for f in (remove, estimate, ports, delays, delay_estimate, antennas, slots, storage, device, noise, dummy)}


def run_cases(acc, cases):
    for case in cases:
        acc.run(case[0], lambda c=case: CASES[c[0]](acc, c), case)


def main(check):
    t = check.thorough
    cases = []
    for nr, nt, taps, length, num, shift, delay in itertools.product((1, 2, 3), (1, 2, 3), (1, 3), (0, 1, 4), (1, 3, 8), (0, 1, 2, 5, 9), (0, 1, 4, 7) if t else (0, 1, 4)):
        for kind in ("dense", "sparse"):
            if kind == "dense" or (num > 2 and nr < 3 and nt < 3):
                cases.append(("remove", nr, nt, taps, length, num, shift, delay, kind, None))
        if nr < 3 and nt < 3:
            cases += [("remove", nr, nt, taps, length, num, shift, delay, "dense", p) for p in ("ports", "reversed")]
    cases += [("estimate", m, nr, nt, taps, p, w, configure) for m in ("ls", "mmse", "device") for nr in (1, 2) for nt in (1, 2) for taps in (1, 4) for p in ((1, 2, 3, 5, 7) if t else (1, 2, 5)) for w in ((7, 16, 31, 64) if t else (7, 16, 31)) for configure in (True, False)]
    subsets = [s for n in (1, 2, 3) for s in itertools.permutations(range(3), n)]
    cases += [("ports", tp, rp) for tp in subsets for rp in subsets]
    cases += [("delays", kind, ns, num, d) for kind in ("dense", "sparse") for ns in (1, 2) for num in (3, 4, 7, 8) for d in (-9, -2, -1, -0.3, 0, 0.2, 0.4, 0.6, 1, 1.4, 2, 3, 4, 7, 8, 12)]
    cases += [("delay_estimate", nt, nr, d, phase, gains, it, tp, rp) for nt in (1, 2) for nr in (1, 2, 3) for d in (0, 1, 3, 7) for phase in (0.0, 1.0, 2.0, 3.1, 4.5) for gains in ((1.0,), (0.5, 1.0), (1.0, 0.1, 3.0)) for it in (1, 3) for tp, rp in ((None, None), ((0,), (0,)), ((nt - 1,), (nr - 1,)), (None, tuple(range(nr))[::-1]))]
    cases += [("antennas", kind, nt, nr, times) for kind in ("dense", "sparse") for nt in (1, 2, 3) for nr in (1, 2, 3) for times in (1, 3)]
    ops = [(k, i, j) for k in ("device", "calibration") for i in range(2) for j in range(2)] + [("detach", 0, j) for j in range(2)]
    cases += [("slots", slot, h) for slot in SLOTS for n in range(1, 5 if t else 4) for h in itertools.product(ops, repeat=n)]
    cases += [("storage", l, d, a) for l in (0, 1, 2, 5) for d in (None, 0.0, 2.5, -3.0) for a in (False, True)]
    cases += [("device", l, lp, bw, form, c) for l in (False, True) for lp in (False, True) for bw in (0.0, 2e5) for form in ("download", "receive", "signal", "sequence") for c in (False, True) if not (l and lp)]
    cases += [("noise", nr, n, c) for nr in (1, 2, 3) for n in (1, 10, 1000) for c in (True, False)]
    cases += [("dummy", n, taps, r, m) for n in (1, 2, 3) for taps in (1, 2, 5) for r in (False, True) for m in ("ls", "mmse")]
    check.explore(run_cases, chunks(cases, 60), case_timeout=60)
    check.bounds = {"cases": len(cases), "ports": "up to 3 x 3", "responses": "up to 5 taps", "signals": "up to 20 samples", "delays": "-9 to 12 samples", "histories": 4 if t else 3}
    check.assumptions = ["transmitted signals carry no delay of their own", "hardware bindings are replaced by a device with known impulse responses"]
