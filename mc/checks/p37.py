"""P37: bindings to sound cards and software-defined radios hand over samples and settings as configured."""
import itertools
import sys
import types
import warnings

import numpy as np

with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    from zerorpc.exceptions import LostRemote, RemoteError
    from hermespy.hardware_loop.uhd import UsrpDevice
    from hermespy.hardware_loop.uhd import usrp as usrp_module
from hermespy.core import Signal, SignalBlock, SignalReceiver, SignalTransmitter, SparseSignal
from hermespy.hardware_loop import DelayCalibration
from hermespy.hardware_loop.audio import AudioDevice, AudioScenario
from ..core import chunks, expect
from .p35 import roundtrip


def generic(shape, k=0):
    n = int(np.prod(shape))
    return (np.exp(1.7j * (np.arange(n) + k) ** 2) * (1 + (np.arange(n) * 0.61803) % 1)).reshape(shape)


def dense(signal):
    return np.array(signal.to_dense().view(np.ndarray))


class Card(types.ModuleType):
    """A sound card whose microphones record its speakers over known gains."""

    def __init__(self, gains):
        types.ModuleType.__init__(self, "sounddevice")
        self.gains, self.calls, self.pending = gains, [], None

    def playrec(self, data, samplerate=None, channels=None, dtype=None, out=None, input_mapping=None, output_mapping=None, blocking=False, device=None, **kw):
        self.calls.append((np.array(data), samplerate, list(input_mapping), list(output_mapping), tuple(device)))
        self.pending = (np.array(data), out)

    def wait(self, *a):
        if self.pending is not None:
            data, out = self.pending
            out[:] = data @ self.gains.T
            self.pending = None


def plugged(device, card):
    sys.modules["sounddevice"] = card
    if hasattr(device, "_import_sd"):
        device._import_sd = lambda: card
    return device


def audio(acc, case):
    """Signals within the band are received back over the card's gains."""
    _, p, r, n, oversampling, rate, how = case
    gains = (1 + np.arange(r * p).reshape(r, p)) * 0.25
    card = Card(gains)
    d = plugged(AudioDevice(3, 5, list(range(2, 2 + p)), list(range(4, 4 + r)), rate, oversampling), card)
    expect(d.num_transmit_rf_ports == p and d.antennas.num_transmit_antennas == p and len(d.antennas.transmit_antennas) == p, "%s transmit antennas instead of %s", d.antennas.num_transmit_antennas, p)
    expect(d.num_receive_rf_ports == r and d.antennas.num_receive_antennas == r and len(d.antennas.receive_antennas) == r, "%s receive antennas instead of %s", d.antennas.num_receive_antennas, r)
    q = int(0.25 * n)
    bins = [k for k in range(-q, int(0.5 * n) - 1 - q) if abs(k) < 0.5 * n / oversampling]
    coefficients = generic((p, len(bins)))
    samples = np.zeros((p, n), dtype=complex)
    for k, b in enumerate(bins):
        samples += coefficients[:, k : k + 1] * np.exp(2j * np.pi * b * np.arange(n) / n)
    for shown in [samples] + [np.outer(np.eye(p)[i], np.exp(2j * np.pi * b * np.arange(n) / n)) for i in range(p) for b in bins]:
        signal = Signal.Create(shown, rate, d.carrier_frequency)
        want = gains @ shown
        if how == "direct":
            got = d.trigger_direct(signal)
        else:
            t, rx = SignalTransmitter(signal), SignalReceiver(n)
            for x in list(d.transmitters):
                d.transmitters.remove(x)
            for x in list(d.receivers):
                d.receivers.remove(x)
            d.transmitters.add(t)
            d.receivers.add(rx)
            d.transmit()
            d.trigger()
            got = d.receive().operator_inputs[0]
        expect(np.allclose(dense(signal), shown), "the transmitted signal was modified")
        got = dense(got)
        expect(got.shape == want.shape, "%s samples received instead of %s", got.shape, want.shape)
        expect(np.allclose(got, want, atol=1e-9 * (1 + np.abs(want).max())), "received %s instead of %s", got.round(3).tolist()[:1], want.round(3).tolist()[:1])
        data, played_rate, inputs, outputs, devices = card.calls[-1]
        expect(np.isrealobj(data) and data.shape == (n, p), "%s samples of type %s played", data.shape, data.dtype)
        expect(played_rate == rate and inputs == list(range(4, 4 + r)) and outputs == list(range(2, 2 + p)) and devices == (5, 3), "played at %s, recording %s, playing %s at devices %s", played_rate, inputs, outputs, devices)
        acc.step()
    acc.state(case)


def audio_delay(acc, case):
    """Recordings are longer by the maximal delay and keep phase and frequency."""
    _, n, extra, rate, form = case
    card = Card(np.eye(1))
    d = plugged(AudioDevice(0, 1, [1], [1], rate, 4, max_receive_delay=(extra + 0.5) / rate), card)
    time = np.arange(n)
    samples = (np.exp(-0.5 * ((time - 0.5 * n) / (0.09 * n)) ** 2) * np.exp(2j * np.pi * 0.01 * time))[None]
    signal = Signal.Create(samples, rate, d.carrier_frequency)
    if form == "sparse":
        k = n // 4
        signal = SparseSignal([SignalBlock(1, n - k, k, np.ascontiguousarray(samples[:, k:]).tobytes())], rate, d.carrier_frequency)
        samples = dense(signal)
    got = dense(d.trigger_direct(signal))
    expect(got.shape == (1, n + extra), "%s samples received instead of %s", got.shape, n + extra)
    want = np.concatenate([samples, np.zeros((1, extra))], axis=1)
    error = np.abs(got - want).max()
    expect(error < (0.05 if form == "sparse" else 1e-3), "received samples are off by %s", error)
    acc.step()
    acc.state(case)


def audio_scenario(acc, case):
    """Devices of an audio scenario are triggered once each."""
    _, num, calibrate, operators = case
    scenario = AudioScenario()
    cards, devices = [], []
    for k in range(num):
        card = Card(np.array([[k + 1.0]]))
        devices.append(plugged(scenario.new_device(k, k, [1], [1], 48e3, 2), card))
        cards.append(card)
    n = 16
    signals = [Signal.Create(np.exp(2j * np.pi * (k - 1) * np.arange(n) / n)[None], 48e3, 24e3) for k in range(num)]
    if operators:
        receivers = []
        for d, s in zip(devices, signals):
            receivers.append(SignalReceiver(n))
            d.transmitters.add(SignalTransmitter(s))
            d.receivers.add(receivers[-1])
        drop = scenario.drop()
        got = [dense(r.operator_receptions[0].signal) for r in drop.device_receptions]
    else:
        from hermespy.hardware_loop import ScalarAntennaCalibration
        for d in devices:
            d.antenna_calibration = ScalarAntennaCalibration(np.array([0.5 + 0j]), np.array([1.0 + 0j]))
        got = [dense(s) for s in scenario.trigger_direct(signals, devices, calibrate)]
    for k, (card, g) in enumerate(zip(cards, got)):
        expect(len(card.calls) == 1, "device %s was triggered %s times", k, len(card.calls))
        want = (k + 1.0) * dense(signals[k]) * (0.5 if calibrate and not operators else 1.0)
        expect(np.allclose(g, want), "device %s received %s instead of %s", k, g.round(3).tolist(), want.round(3).tolist())
    acc.step()
    acc.state(case)


def audio_storage(acc, case):
    """Restored audio devices are configured identically."""
    _, p, r, rate, oversampling, extra = case
    kw = {} if not extra else {"max_receive_delay": 2e-3, "lowpass_filter": True, "lowpass_bandwidth": 5e3, "adaptive_sampling": True, "noise_power": np.array([0.25] * r)}
    d = AudioDevice(2, 7, list(range(1, 1 + p)), list(range(3, 3 + r)), rate, oversampling, **kw)
    e = roundtrip(d)
    for name in ("playback_device", "record_device", "sampling_rate", "oversampling_factor", "max_receive_delay", "lowpass_filter", "lowpass_bandwidth", "adaptive_sampling", "carrier_frequency"):
        expect(getattr(d, name) == getattr(e, name), "%s is %s instead of %s", name, getattr(e, name), getattr(d, name))
    expect(list(e.playback_channels) == list(d.playback_channels) and list(e.record_channels) == list(d.record_channels), "channels differ")
    expect((e.noise_power is None) if not extra else np.array_equal(e.noise_power, d.noise_power), "noise power differs: %s", e.noise_power)
    acc.step()
    acc.state(case)


class Client:
    """A radio receiving back what it transmits at the requested times, losing scheduled calls."""

    def __init__(self, ports, rates=(1e6, 2e6, 4e6), faults=(), split=1):
        from uhd_wrapper.utils.config import MimoSignal, RfConfig
        self.ports, self.rates, self.faults, self.split = ports, list(rates), dict(faults), split
        self.MimoSignal, self.config = MimoSignal, RfConfig()
        self.ip, self.port = "10.0.0.1", 5555
        self.log, self.tx, self.rx, self.recorded = [], None, None, []
        self.calls = {}

    def _fault(self, name):
        k = self.calls.get(name, 0)
        self.calls[name] = k + 1
        fault = self.faults.get((name, k))
        if fault == "lost":
            raise LostRemote()
        if fault == "remote":
            raise RemoteError("name", "message", "trace")

    def getNumAntennas(self):
        return self.ports

    def getSupportedSamplingRates(self):
        return list(self.rates)

    def getRfConfig(self):
        self._fault("getRfConfig")
        return self.config

    def configureRfConfig(self, config):
        self._fault("configureRfConfig")
        self.config = config
        self.log.append("rf")

    def resetStreamingConfigs(self):
        self._fault("resetStreamingConfigs")
        self.tx = self.rx = None
        self.log.append("reset")

    def configureTx(self, config):
        self._fault("configureTx")
        self.tx = config
        self.log.append("tx")

    def configureRx(self, config):
        self._fault("configureRx")
        self.rx = config
        self.log.append("rx")

    def executeImmediately(self):
        self.log.append("execute")
        c, tx, rx = self.config, self.tx, self.rx
        air = np.zeros((self.ports, 4096), dtype=complex)
        start = round(tx.sendTimeOffset * c.txSamplingRate)
        mapping = c.txAntennaMapping or list(range(c.noTxStreams))
        samples = np.array(tx.samples.signals)
        expect(samples.shape[0] == c.noTxStreams == len(mapping) and samples.shape[1] % 4 == 0, "%s samples are transmitted over %s streams", samples.shape, c.noTxStreams)
        expect(rx.numSamples % 4 == 0, "%s samples are received", rx.numSamples)
        for s, m in zip(samples, mapping):
            air[m, start : start + len(s)] += s
        start = round(rx.receiveTimeOffset * c.rxSamplingRate)
        got = air[c.rxAntennaMapping or list(range(c.noRxStreams)), start : start + rx.numSamples]
        cuts = [round(k * got.shape[1] / self.split) for k in range(self.split + 1)]
        self.recorded = [self.MimoSignal([np.array(s[a:b]) for s in got]) for a, b in zip(cuts, cuts[1:])]

    def collect(self):
        out, self.recorded = self.recorded, []
        return out


def radio(client, **kw):
    original = usrp_module.UsrpClient.create
    usrp_module.UsrpClient.create = staticmethod(lambda ip, port: client)
    try:
        return UsrpDevice(client.ip, client.port, **kw)
    finally:
        usrp_module.UsrpClient.create = original


def usrp(acc, case):
    """What a radio transmits arrives at the matching ports, samples and scale."""
    _, tx, rx, n, pre, app, scale, extra, delay, split, how = case
    client = Client(3, split=split)
    d = radio(client, carrier_frequency=1e9, sampling_rate=2e6, oversampling_factor=1, selected_transmit_ports=list(tx), selected_receive_ports=list(rx), scale_transmission=scale, num_prepended_zeros=pre, num_appended_zeros=app, max_receive_delay=(extra + 0.5) / 2e6)
    if delay:
        d.delay_calibration = DelayCalibration(delay / 2e6)
    samples = 3 * generic((len(tx), n))
    signal = Signal.Create(samples.copy(), 2e6, 1e9)
    if how == "direct":
        got = d.trigger_direct(signal)
    else:
        d.transmitters.add(SignalTransmitter(signal))
        d.receivers.add(SignalReceiver(n))
        d.transmit()
        d.trigger()
        got = d.receive().impinging_signals[0]
    expect(np.array_equal(dense(signal), samples), "the transmitted signal was modified")
    factor = 1.0 / np.abs(samples).max() if scale and n else 1.0
    got = dense(got)
    expect(got.shape[0] == len(rx) and got.shape[1] >= n + extra, "received %s samples", got.shape)
    air = np.zeros((3, 4096), dtype=complex)
    for m, s in zip(tx, samples):
        air[m, 512 : 512 + n] = factor * s
    want = air[list(rx), 512 + delay : 512 + delay + got.shape[1]]
    # Padding before and after the signal is only as long as configured
    valid = min(got.shape[1], n + app) if delay >= 0 else got.shape[1]
    expect(np.allclose(got[:, :valid], want[:, :valid]), "received %s instead of %s", got[:, :8].round(3).tolist(), want[:, :8].round(3).tolist())
    c = client.config
    expect((c.txSamplingRate, c.rxSamplingRate, c.txCarrierFrequency, c.rxCarrierFrequency, list(c.txAntennaMapping), list(c.rxAntennaMapping), c.noTxStreams, c.noRxStreams) == (2e6, 2e6, 1e9, 1e9, list(tx), list(rx), len(tx), len(rx)), "frontend configured as %s", c)
    acc.step()
    acc.state(case)


SETTINGS = {
    "carrier": ("carrier_frequency", (1e9, 2e9), ("txCarrierFrequency", "rxCarrierFrequency")),
    "tx_gain": ("tx_gain", (0.0, 7.0), ("txGain",)),
    "rx_gain": ("rx_gain", (0.0, 9.0), ("rxGain",)),
    "rate": ("sampling_rate", (2e6, 4e6), ("txSamplingRate", "rxSamplingRate")),
}


def usrp_history(acc, case):
    """Each transmission is sent with the current settings, the frontend is only configured when they changed."""
    _, ops = case
    client = Client(2)
    d = radio(client, carrier_frequency=1e9, sampling_rate=2e6, oversampling_factor=1, num_prepended_zeros=2, num_appended_zeros=2)
    current = {k: v[1][0] for k, v in SETTINGS.items()}
    applied = dict(current)
    expect(client.log.count("rf") == 1, "configured %s times at construction", client.log.count("rf"))
    for op in ops:
        if op == "send":
            before = client.log.count("rf")
            samples = generic((1, 6), len(client.log))
            got = d.trigger_direct(Signal.Create(samples, current["rate"], current["carrier"]))
            for k, v in SETTINGS.items():
                for f in v[2]:
                    expect(getattr(client.config, f) == current[k], "%s is %s instead of %s", f, getattr(client.config, f), current[k])
            expect(client.log.count("rf") - before == (applied != current), "the frontend was configured %s times", client.log.count("rf") - before)
            tail = client.log[-4:]
            expect(tail == ["reset", "tx", "rx", "execute"], "the device was called as %s", tail)
            applied = dict(current)
            expect(got.sampling_rate == current["rate"] and got.carrier_frequency == current["carrier"], "received at %s, %s", got.sampling_rate, got.carrier_frequency)
            expect(np.allclose(dense(got)[:, :6], samples / np.abs(samples).max()), "received other samples")
        else:
            name, values, _ = SETTINGS[op]
            current[op] = values[1 - values.index(current[op])]
            setattr(d, name, current[op])
        acc.step()
    acc.state(ops)


CALLS = ("getRfConfig", "configureRfConfig", "resetStreamingConfigs", "configureTx", "configureRx")


def usrp_faults(acc, case):
    """Calls lost less than ten times in a row are repeated until they succeed, others are reported."""
    _, faults = case
    schedule, fatal = {}, {}
    for name, number, kind in faults:
        for k in range(number):
            schedule[(name, k)] = "lost"
        if kind == "remote":
            schedule[(name, number)] = "remote"
        fatal[name] = kind == "remote" and number < 10 or number >= 10
    client = Client(1, faults=schedule)
    samples = generic((1, 5))
    failed = None
    try:
        d = radio(client, carrier_frequency=1e9, sampling_rate=2e6, oversampling_factor=1)
        got = d.trigger_direct(Signal.Create(samples, 2e6, 1e9))
    except RuntimeError as e:
        failed = e
    if any(fatal.values()):
        expect(failed is not None, "a failing radio wasn't reported")
    else:
        expect(failed is None, "a recovering radio failed: %s", failed)
        expect(client.log == ["rf", "reset", "tx", "rx", "execute"], "the radio was called as %s", client.log)
        expect(np.allclose(dense(got)[:, :5], samples / np.abs(samples).max()), "received other samples")
    acc.step()
    acc.state(case)


CASES = {f.__name__: f for f in (audio, audio_delay, audio_scenario, audio_storage, usrp, usrp_history, usrp_faults)}


def run_cases(acc, cases):
    for case in cases:
        acc.run(case[0], lambda c=case: CASES[c[0]](acc, c), case)


def main(check):
    t = check.thorough
    cases = [("audio", p, r, n, o, rate, how) for p in (1, 2, 3) for r in (1, 2, 3) for n in ((4, 5, 6, 7, 8, 9, 12, 16, 17, 30, 64) if t else (4, 5, 7, 8, 12, 17)) for o in (1, 2, 4) for rate in (48e3, 44.1e3) for how in ("direct", "operators") if o > 1 or n > 5]
    cases += [("audio_delay", n, extra, rate, form) for n in (128, 200, 201, 256) for extra in (0, 1, 2, 3, 8, 50, 64) for rate in (48e3, 44.1e3) for form in ("dense", "sparse")]
    cases += [("audio_scenario", n, c, o) for n in (1, 2, 3) for c in (True, False) for o in (True, False)]
    cases += [("audio_storage", p, r, rate, o, e) for p in (1, 3) for r in (1, 2) for rate in (48e3, 96e3) for o in (1, 4) for e in (False, True)]
    subsets = [s for n in (1, 2, 3) for s in itertools.permutations(range(3), n)]
    cases += [("usrp", tx, rx, 6, 2, 3, True, 0, 0, 1, how) for tx in subsets for rx in subsets for how in ("direct", "operators")]
    cases += [("usrp", (0,), (0,), n, pre, app, scale, extra, delay, split, how) for n in (1, 2, 3, 4, 5, 8) for pre in (0, 1, 5) for app in (0, 1, 6) for scale in (True, False) for extra in (0, 3) for delay in (0, 1, 3, -1, -2) for split in (1, 2) for how in ("direct", "operators") if not (delay and pre < 4) and not (split > 1 and delay)]
    ops = tuple(SETTINGS) + ("send",)
    cases += [("usrp_history", h + ("send",)) for n in range(0, 6 if t else 5) for h in itertools.product(ops, repeat=n)]
    cases += [("usrp_faults", ((name, k, kind),)) for name in CALLS for k in range(0, 12) for kind in ("none", "remote")]
    cases += [("usrp_faults", ((a, j, ka), (b, k, kb))) for a, b in itertools.combinations(CALLS, 2) for j in (1, 9, 10) for k in (1, 9, 10) for ka in ("none", "remote") for kb in ("none", "remote")]
    check.explore(run_cases, chunks(cases, 40), case_timeout=60)
    check.bounds = {"cases": len(cases), "channels": "up to 3 x 3", "samples": "up to 64", "histories": 5 if t else 4, "lost calls": "0..11 at each call, pairs of calls"}
    check.assumptions = ["the sound card and the radio's remote procedure client are replaced by loopbacks of the same interface"]
