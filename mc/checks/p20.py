"""P20: devices deliver transmitted and impinging samples to antennas and operators."""
import itertools

import numpy as np

from hermespy.core import AntennaMode, Device, DeviceInput, DeviceState, ReceiveStreamDecoder, Receiver, Reception, Signal, Transformation, Transmission, TransmitStreamEncoder, Transmitter
from hermespy.core.signal_model import SignalBlock
from hermespy.simulation import N0, SampleOffsetTrigger, SimulatedCustomArray, SimulatedDevice, SimulatedDeviceOutput, SimulatedIdealAntenna, SpecificIsolation, TimeOffsetTrigger, TriggerRealization
from hermespy.simulation.rf import RFChain
from hermespy.simulation.rf.blocks import ADC, DAC, IdealMixer, MixerType, Split, Sum
from ..core import chunks, expect, histories

RATE = 8.0
D, T, R = AntennaMode.DUPLEX, AntennaMode.TX, AntennaMode.RX


def samples(streams, n, key=0):
    k = np.arange(streams * n).reshape(streams, n) + 1 + 5 * key
    return np.cos(k * k + key) + 1j * np.sin(3 * k + key)


class Sender(Transmitter):
    power = 1.0

    def __init__(self, signal, ports):
        Transmitter.__init__(self, selected_transmit_ports=ports)
        self.signal = signal

    def _transmit(self, state, duration):
        return Transmission(self.signal)

    def frame_duration(self, bandwidth):
        return 1.0

    def samples_per_frame(self, bandwidth, oversampling_factor):
        return 5


class Listener(Receiver):
    power = 1.0

    def __init__(self, ports):
        Receiver.__init__(self, selected_receive_ports=ports)

    def _receive(self, signal, state):
        return Reception(signal)

    def frame_duration(self, bandwidth):
        return 1.0

    def samples_per_frame(self, bandwidth, oversampling_factor):
        return 5


ENCODINGS = {
    "none": [],
    "weights": [np.diag([1j, 2.0, 0.5])],
    "two": [np.array([[1, 2j, 0], [0, 1, 3.0], [1j, 0, 1]]), np.diag([0.5, 1j, 1.0])],
}


class Encoder(TransmitStreamEncoder):
    def __init__(self, m):
        TransmitStreamEncoder.__init__(self)
        self.m = m

    def num_transmit_input_streams(self, num_output_streams):
        return num_output_streams

    def encode_streams(self, streams, num_output_streams, device):
        m = self.m[:num_output_streams, :num_output_streams]
        return Signal.Create(m @ np.asarray(streams.to_dense()), streams.sampling_rate, streams.carrier_frequency, streams.noise_power, streams.delay)


class Merge(TransmitStreamEncoder):
    """A single input stream drives all outputs."""

    def num_transmit_input_streams(self, num_output_streams):
        return 1

    def encode_streams(self, streams, num_output_streams, device):
        x = np.asarray(streams.to_dense())
        return Signal.Create(np.arange(1, num_output_streams + 1)[:, None] * x[:1], streams.sampling_rate, streams.carrier_frequency, streams.noise_power, streams.delay)


class Decoder(ReceiveStreamDecoder):
    def __init__(self, m):
        ReceiveStreamDecoder.__init__(self)
        self.m = m

    def num_receive_output_streams(self, num_input_streams):
        return num_input_streams

    def decode_streams(self, streams, num_output_streams, device):
        m = self.m[:num_output_streams, :num_output_streams]
        return Signal.Create(m @ np.asarray(streams.to_dense()), streams.sampling_rate, streams.carrier_frequency, streams.noise_power, streams.delay)


class Combine(ReceiveStreamDecoder):
    def num_receive_output_streams(self, num_input_streams):
        return 1

    def decode_streams(self, streams, num_output_streams, device):
        x = np.asarray(streams.to_dense())
        return Signal.Create(np.arange(1, x.shape[0] + 1)[None, :] @ x, streams.sampling_rate, streams.carrier_frequency, streams.noise_power, streams.delay)


def coding(kind, tx):
    if kind == "merge":
        return [Encoder(ENCODINGS["weights"][0]), Merge()] if tx else [Combine(), Decoder(ENCODINGS["weights"][0])]
    return [(Encoder if tx else Decoder)(m) for m in ENCODINGS[kind]]


def matrix(kind, n, tx):
    if kind == "merge":
        v = np.arange(1, n + 1)[:, None] * 1j
        return v if tx else v.T
    m = np.eye(n, dtype=complex)
    for e in ENCODINGS[kind]:
        m = e[:n, :n] @ m
    return m


class Bench:
    """A device with operators, and what it is expected to do."""

    def __init__(self, modes, carrier=1e9, encoding="none", decoding="none", power=1.0, rf="default", trigger=None, base=False):
        self.modes, self.carrier, self.encoding, self.decoding, self.power, self.base = modes, carrier, encoding, decoding, power, base
        self.ntx, self.nrx = sum(m != R for m in modes), sum(m != T for m in modes)
        self.split = rf == "split"
        antennas = SimulatedCustomArray([SimulatedIdealAntenna(m, Transformation.From_Translation(np.array([i, 0.0, 0.0]))) for i, m in enumerate(modes)])
        chain = None
        if self.split:
            chain = RFChain()
            dac, up, split = chain.new_block(DAC), chain.new_block(IdealMixer, mixer_type=MixerType.UP), chain.new_block(Split, num_outputs=self.ntx)
            chain.connect(dac.port("o"), up.port("i"))
            chain.connect(up.port("o"), split.port("i"))
            total, down, adc = chain.new_block(Sum, num_input_ports=self.nrx), chain.new_block(IdealMixer, mixer_type=MixerType.DOWN), chain.new_block(ADC)
            chain.connect(total.port("o"), down.port("i"))
            chain.connect(down.port("o"), adc.port("i"))
        arguments = dict(transmit_encoding=coding(encoding, True), receive_decoding=coding(decoding, False), power=power)
        if base:
            self.device = Plain(antennas, carrier, **arguments)
        else:
            self.device = SimulatedDevice(antennas=antennas, carrier_frequency=carrier, bandwidth=RATE, oversampling_factor=1, rf=chain, trigger_model=trigger, **arguments)
        self.outputs, self.inputs, self.sent, self.received = [], [], [], []
        self.device.output_callbacks.add_callback(self.outputs.append)
        self.device.input_callbacks.add_callback(self.inputs.append)
        self.content, self.ports, self.listeners = [], [], []

    def tx_ports(self):
        return 1 if self.encoding == "merge" else (1 if self.split else self.ntx)

    def rx_ports(self):
        return 1 if self.decoding == "merge" else (1 if self.split else self.nrx)

    def sender(self, length, ports, key, sparse=False):
        n = self.tx_ports() if ports is None else len(ports)
        x = None if length is None else samples(n, length, key)
        signal = None
        if x is not None:
            signal = Signal.Create(x.copy(), RATE, 0.0)
            if sparse and length > 2:
                signal = Signal.Create([SignalBlock(n, 1, 0, x[:, :1].tobytes()), SignalBlock(n, length - 2, 2, x[:, 2:].tobytes())], RATE, 0.0)
                x = x.copy()
                x[:, 1] = 0
        t = Sender(signal, ports)
        self.device.transmitters.add(t)
        t.add_transmit_callback(self.sent.append)
        self.content.append(x)
        self.ports.append(ports)

    def listener(self, ports):
        r = Listener(ports)
        self.device.receivers.add(r)
        r.add_receive_callback(self.received.append)
        self.listeners.append(r)

    # Expectations
    def dsp(self, contents=None):
        contents = self.content if contents is None else contents
        out = np.zeros((self.tx_ports(), max([0] + [x.shape[1] for x in contents if x is not None])), complex)
        for x, ports in zip(contents, self.ports):
            if x is not None:
                for k, p in enumerate(range(self.tx_ports()) if ports is None else ports):
                    out[p, : x.shape[1]] += x[k]
        return out

    def rf_ports(self, x):
        """Samples at the transmitting antennas."""
        n = 1 if self.split else self.ntx
        x = matrix(self.encoding, n, True) @ x
        return np.repeat(x, self.ntx, axis=0) if self.split else x

    def emitted(self, contents=None):
        return (1.0 if self.base else np.sqrt(self.power)) * self.rf_ports(self.dsp(contents))

    def delivered(self, arrivals, n_trigger):
        """Samples delivered to the operators, from (samples, sample of arrival)."""
        placed = [(x, d - n_trigger) for x, d in arrivals]
        y = np.zeros((self.nrx, max([0] + [x.shape[1] + p for x, p in placed])), complex)
        for x, p in placed:
            x = x[:, max(0, -p) :]
            y[:, max(0, p) : max(0, p) + x.shape[1]] += x
        if self.split:
            y = y.sum(axis=0, keepdims=True)
        y = matrix(self.decoding, y.shape[0], False) @ y
        return [y if r.selected_receive_ports is None else y[list(r.selected_receive_ports)] for r in self.listeners]


class PlainState(DeviceState):
    pass


class Plain(Device):
    """A minimal physical device."""

    def __init__(self, antennas, carrier, **k):
        Device.__init__(self, **k)
        self._antennas, self._carrier = antennas, carrier
        antennas.set_base(self)

    antennas = property(lambda s: s._antennas)
    carrier_frequency = property(lambda s: s._carrier)
    sampling_rate = property(lambda s: RATE)
    bandwidth = property(lambda s: RATE)
    oversampling_factor = property(lambda s: 1)

    def state(self):
        return PlainState(id(self), 0.0, self.pose, np.zeros(3), self._carrier, RATE, 1, self._antennas.state(self.pose), self.num_transmit_dsp_ports, self.num_receive_dsp_ports, self.num_transmit_rf_ports, self.num_receive_rf_ports)


def same(got, want, what, tolerance=1e-9):
    got = np.asarray(got.to_dense()) if isinstance(got, Signal) else np.asarray(got)
    expect(got.shape == want.shape, "%s: %s samples instead of %s", what, got.shape, want.shape)
    expect(np.allclose(got, want, rtol=1e-9, atol=tolerance), "%s: %s instead of %s", what, got.round(3).tolist(), want.round(3).tolist())


def is_same(a, b):
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


def frozen(signal):
    return [(np.asarray(b).copy(), b.offset) for b in signal.blocks], signal.delay, signal.carrier_frequency, signal.sampling_rate, signal.noise_power


def unchanged(signal, before, what):
    now = frozen(signal)
    expect(len(now[0]) == len(before[0]) and all(np.array_equal(a[0], b[0]) and a[1] == b[1] for a, b in zip(now[0], before[0])), "%s: samples are modified", what)
    expect(now[1:] == before[1:], "%s: metadata %s became %s", what, before[1:], now[1:])


def check_output(acc, modes, encoding, rf, power, senders, base):
    b = Bench(modes, encoding=encoding, rf=rf, power=power, base=base)
    for k, (length, ports, sparse) in enumerate(senders):
        b.sender(length, ports, k, sparse)
    signals = [t.signal for t in b.device.transmitters]
    before = [None if s is None else frozen(s) for s in signals]
    states = [None, b.device.state()]
    transmissions = [None if s is None else Transmission(s) for s in signals]
    for state in states:
        output = b.device.generate_output(transmissions, state)
        same(output.mixed_signal, b.emitted(), "output")
        expect(output.mixed_signal.sampling_rate == RATE and output.mixed_signal.delay == 0.0, "rate %s and delay %s of the output", output.mixed_signal.sampling_rate, output.mixed_signal.delay)
        if output.mixed_signal.num_samples and not base:
            expect(output.mixed_signal.carrier_frequency == b.carrier, "output at %s instead of %s", output.mixed_signal.carrier_frequency, b.carrier)
        expect(is_same(b.outputs, [output]), "notified outputs")
        b.outputs.clear()
        acc.step()
    for s, f in zip(signals, before):
        if s is not None:
            unchanged(s, f, "transmitted signal")
    expect(not b.sent, "operators notified without transmitting")
    if all(s is not None for s in signals):
        for notify in (True, False):
            t = b.device.transmit(notify=notify)
            same(t.mixed_signal, b.emitted(), "transmission")
            expect(is_same([o.signal for o in t.operator_transmissions], signals), "operator transmissions")
            expect(is_same(b.sent, t.operator_transmissions if notify else []), "notified %d transmissions", len(b.sent))
            expect(len(b.outputs) == 1, "notified %d outputs of a transmission", len(b.outputs))
            b.sent.clear()
            b.outputs.clear()
            acc.step()
    if not base:
        for wrong in (transmissions + [None], transmissions[:-1]):
            try:
                b.device.generate_output(wrong)
            except ValueError:
                continue
            expect(len(wrong) == len(transmissions), "%d transmissions of %d operators accepted", len(wrong), len(transmissions))
    acc.state(modes, encoding, rf, power, senders, base)


def check_input(acc, modes, decoding, rf, base, ports, arrivals, n_trigger, form, leak):
    b = Bench(modes, decoding=decoding, rf=rf, base=base)
    for p in ports:
        b.listener(p)
    arrived, signals = [], []
    for k, (length, delay, sparse) in enumerate(arrivals):
        x = samples(b.nrx, length, k)
        s = Signal.Create(x.copy(), RATE, b.carrier, delay=delay / RATE)
        if sparse and length > 2:
            s = Signal.Create([SignalBlock(b.nrx, 1, 0, x[:, :1].tobytes()), SignalBlock(b.nrx, length - 2, 2, x[:, 2:].tobytes())], RATE, b.carrier, 0.0, delay / RATE)
            x[:, 1] = 0
        arrived.append((x, delay))
        signals.append(s)
    before = [frozen(s) for s in signals]
    if form == "input":
        impinging = DeviceInput(list(signals))
    elif form == "single":
        impinging = signals[0]
    elif form == "output":
        impinging = SimulatedDeviceOutput(list(signals), [], TriggerRealization(arrivals[0][1], RATE), RATE, b.nrx, b.carrier)
    else:
        impinging = list(signals)
    k = {}
    if not base:
        k["trigger_realization"] = TriggerRealization(n_trigger, RATE)
        if leak is not None:
            x = samples(b.nrx, leak[0], 9)
            s = Signal.Create(x.copy(), RATE, b.carrier, delay=leak[1] / RATE)
            arrived.append((x, leak[1]))
            signals.append(s)
            before.append(frozen(s))
            k["leaking_signals"] = [s] if leak[0] % 2 else s
    want = b.delivered(arrived, n_trigger)
    for state in (None, b.device.state()):
        processed = b.device.process_input(impinging, state=state, **k)
        expect(len(processed.operator_inputs) == len(want), "%d operator inputs", len(processed.operator_inputs))
        for i, (o, w) in enumerate(zip(processed.operator_inputs, want)):
            same(o, w, "input of operator %d" % i)
            expect(o.sampling_rate == RATE, "sampling rate %s", o.sampling_rate)
        expect(is_same(b.inputs, [processed]) and not b.received, "notified inputs")
        b.inputs.clear()
        for s, f in zip(signals, before):
            unchanged(s, f, "impinging signal")
        acc.step()
    if leak is None:
        k.pop("leaking_signals", None)
        for notify in (True, False):
            reception = b.device.receive(impinging, notify=notify, **k)
            expect(len(reception.operator_receptions) == len(want), "operator receptions")
            for r, w in zip(reception.operator_receptions, want):
                same(r.signal, w, "reception")
            expect(is_same(b.received, reception.operator_receptions if notify else []), "notified %d receptions", len(b.received))
            expect(len(b.inputs) == 1, "notified %d inputs of a reception", len(b.inputs))
            b.received.clear()
            b.inputs.clear()
            acc.step()
    acc.state(modes, decoding, rf, base, ports, arrivals, n_trigger, form, leak)


def check_trigger(acc, kind, n, rate, other):
    """Triggers delay what is transmitted and received by the configured time."""
    trigger = SampleOffsetTrigger(n) if kind == "samples" else TimeOffsetTrigger(n / rate)
    device = SimulatedDevice(antennas=SimulatedCustomArray([SimulatedIdealAntenna()]), carrier_frequency=1e9, bandwidth=rate, oversampling_factor=1, trigger_model=trigger)
    x = samples(1, 3)
    device.transmitters.add(Sender(Signal.Create(x.copy(), rate, 0.0), None))
    r = trigger.realize()
    expect(r.num_offset_samples == n and r.sampling_rate == rate, "%d offset samples instead of %d at %g Hz", r.num_offset_samples, n, rate)
    expect(np.isclose(r.trigger_delay, n / rate, rtol=1e-12), "delay of the trigger")
    expect(r.compute_num_offset_samples(rate) == n, "%d samples of a trigger by %d samples at %g Hz", r.compute_num_offset_samples(rate), n, rate)
    expect(r.compute_num_offset_samples(2 * rate) == 2 * n, "offset at twice the sampling rate")
    t = device.transmit()
    expect(np.isclose(t.mixed_signal.delay, n / rate, rtol=1e-12), "transmission delayed by %g instead of %g", t.mixed_signal.delay, n / rate)
    same(t.mixed_signal, x, "triggered transmission")
    receiver = SimulatedDevice(antennas=SimulatedCustomArray([SimulatedIdealAntenna()]), carrier_frequency=1e9, bandwidth=rate, oversampling_factor=1)
    receiver.receivers.add(Listener(None))
    want = np.zeros((1, max(0, n + 3 - other)), complex)
    if n >= other:
        want[:, n - other :] = x
    else:
        want = x[:, other - n :]
    for form in (t, [t.mixed_signal], t.mixed_signal):
        before = frozen(t.mixed_signal)
        p = receiver.process_input(form, trigger_realization=TriggerRealization(other, rate))
        same(p.operator_inputs[0], want, "reception of samples triggered at %d by a receiver triggered at %d" % (n, other))
        unchanged(t.mixed_signal, before, "transmission")
        acc.step()
    acc.state(kind, n, rate, other)


# Histories: the behaviour depends on the current configuration only
def act(b, op):
    kind, *a = op
    d = b.device
    if kind == "power":
        b.power = d.power = a[0]
    elif kind == "rx":
        b.listeners[a[0]].selected_receive_ports = a[1]
    elif kind == "tx":
        t = d.transmitters[a[0]]
        n = b.tx_ports() if a[1] is None else len(a[1])
        x = samples(n, a[2], 11 + a[2])
        t.selected_transmit_ports, t.signal = a[1], Signal.Create(x.copy(), RATE, 0.0)
        b.ports[a[0]], b.content[a[0]] = a[1], x
    elif kind == "encode":
        b.encoding = a[0]
        while len(d.transmit_coding):
            d.transmit_coding.pop_precoder(0)
        for e in coding(a[0], True):
            d.transmit_coding[len(d.transmit_coding)] = e
    elif kind == "remove":
        if len(b.listeners) > 1:
            d.receivers.remove(b.listeners.pop(0))
    elif kind == "add":
        b.listener([1])
    elif kind == "carrier":
        d.carrier_frequency = b.carrier = a[0]


def observe(b, key):
    t = b.device.transmit()
    same(t.mixed_signal, b.emitted(), "transmission")
    if t.mixed_signal.num_samples:
        expect(t.mixed_signal.carrier_frequency == b.carrier, "carrier")
    x = samples(b.nrx, 4, key)
    p = b.device.receive([Signal.Create(x.copy(), RATE, b.carrier, delay=1 / RATE)], trigger_realization=TriggerRealization(2, RATE))
    for r, w in zip(p.operator_receptions, b.delivered([(x, 1)], 2), strict=True):
        same(r.signal, w, "reception")
    expect(is_same(b.received, p.operator_receptions) and is_same(b.sent, t.operator_transmissions) and len(b.inputs) == len(b.outputs) == 1, "notifications")
    for c in (b.received, b.sent, b.inputs, b.outputs):
        c.clear()


OPS = [("power", 4.0), ("power", 0.0), ("rx", 0, [1, 0]), ("rx", 0, [0]), ("tx", 0, [1], 2), ("tx", 1, None, 4), ("encode", "two"), ("encode", "none"), ("remove",), ("add",), ("carrier", 2e9)]


def check_history(acc, history):
    b = Bench((D, D), encoding="weights", decoding="two")
    b.sender(3, [0], 1)
    b.sender(2, None, 2)
    b.listener(None)
    b.listener([1])
    observe(b, 0)
    for k, op in enumerate(history):
        act(b, op)
        observe(b, k + 1)
        acc.step()
    acc.state(history)


def run_cases(acc, shard):
    for kind, *args in shard:
        fn = {"output": check_output, "input": check_input, "trigger": check_trigger, "history": check_history}[kind]
        acc.run("device/%s" % kind, lambda: fn(acc, *args), {"kind": kind, "arguments": [str(a) for a in args]})


def main(check):
    t = check.thorough
    cases = []
    arrays = [(D,), (D, D), (T, D), (D, R), (T, D, D, R)[:3], (D, D, D)]
    for modes in arrays:
        ntx, nrx = sum(m != R for m in modes), sum(m != T for m in modes)
        for encoding, rf, base in [("none", "default", False), ("weights", "default", False), ("two", "default", False), ("merge", "default", False), ("none", "split", False), ("none", "default", True), ("two", "default", True), ("merge", "default", True)]:
            ports = 1 if encoding == "merge" or rf == "split" else ntx
            selections = [None] + [list(s) for k in (1, 2) for s in itertools.permutations(range(ports), k)]
            one = [(n, p, sp) for p in selections for n, sp in ((None, False), (0, False), (3, False), (5, True))]
            for power in (1.0, 4.0, 0.0):
                cases += [("output", modes, encoding, rf, power, (s,), base) for s in one]
            pairs = [(a, c) for a in one for c in one if (a[0] is not None or c[0] is not None)]
            for k, s in enumerate(pairs):
                if t or len(pairs) < 30 or k % 11 == 0:
                    cases.append(("output", modes, encoding, rf, (1.0, 4.0)[k % 2], s, base))
        for decoding, rf, base in [("none", "default", False), ("two", "default", False), ("merge", "default", False), ("none", "split", False), ("none", "default", True), ("two", "default", True), ("merge", "default", True)]:
            ports = 1 if decoding == "merge" or rf == "split" else nrx
            listen = [(None,), tuple([i] for i in range(ports)) + (list(range(ports))[::-1], None)]
            arrivals = [(), ((4, 0, False),), ((4, 0, False), (3, 0, True)), ((2, 0, False), (0, 0, False), (5, 0, True))]
            if not base:
                arrivals += [((3, 2, False),), ((4, 1, True), (2, 0, False)), ((2, 5, False), (3, 0, False)), ((5, 3, True), (4, 1, True), (1, 0, False))]
            for a in arrivals:
                for n in (0,) if base else (0, 1, 2, 4, 9):
                    forms = ["sequence", "input"] + (["single"] if len(a) == 1 else [])
                    if not base and a and all(x[1] == a[0][1] for x in a):
                        forms.append("output")
                    for form in forms:
                        leaks = [None] if base or not a else [None, (3, n), (2, 0), (4, n + 1)]
                        for leak in leaks:
                            if leak and not t and (form != "sequence" and decoding != "none"):
                                continue
                            cases.append(("input", modes, decoding, rf, base, listen[(n + len(a)) % 2] if not t else listen[1], a, n, form, leak))
    for rate in (1.0, 8.0, 10.0, 49.0, 1.23, 1e8):
        for n in list(range(0, 12 if not t else 60)) + [49, 100]:
            for kind in ("samples", "time"):
                cases += [("trigger", kind, n, rate, other) for other in sorted({0, 1, n, n + 2})]
    cases += [("history", h) for h in histories(OPS, 2 if not t else 3, 1)]
    check.explore(run_cases, chunks(cases, 256), case_timeout=120)
    check.bounds = {"antennas": 3, "operators": 3, "cases": len(cases), "history depth": 2 if not t else 3}
    check.assumptions = ["signals share the sampling rate and carrier frequency of the device; no noise; converters don't filter at an oversampling factor of one"]
