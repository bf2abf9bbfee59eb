"""P38: triggers, times and states given reach every device and stage."""
import itertools

import numpy as np

import hermespy.simulation as si
from hermespy.channel import IdealChannel
from hermespy.core import AntennaMode, Device, Receiver, ReceiveStreamDecoder, Reception, Signal, Transformation, Transmission, TransmitStreamEncoder, Transmitter
from hermespy.simulation import LinearTrajectory, NormalTrigger, RandomTrigger, SampleOffsetTrigger, SimulatedDevice, SimulationScenario, StaticTrigger, TimeOffsetTrigger, TriggerRealization
from hermespy.simulation.coupling import PerfectCoupling
from hermespy.simulation.simulation import SimulationRunner
from ..core import chunks, expect, histories

RATE = 8.0


class Tx(Transmitter):
    power = 1.0

    def __init__(self, log, x, frame=4):
        Transmitter.__init__(self)
        self.log, self.x, self.frame = log, x, frame

    def _transmit(self, state, duration):
        self.log("tx", state)
        return Transmission(Signal.Create(self.x.copy(), state.sampling_rate, 0.0))

    def frame_duration(self, bandwidth):
        return self.frame / bandwidth

    def samples_per_frame(self, bandwidth, oversampling_factor):
        return self.frame * oversampling_factor


class Rx(Receiver):
    power = 1.0

    def __init__(self, log, frame=4):
        Receiver.__init__(self)
        self.log, self.frame = log, frame

    def _receive(self, signal, state):
        self.log("rx", state)
        return Reception(signal)

    def frame_duration(self, bandwidth):
        return self.frame / bandwidth

    def samples_per_frame(self, bandwidth, oversampling_factor):
        return self.frame * oversampling_factor


class Enc(TransmitStreamEncoder):
    def __init__(self, log):
        TransmitStreamEncoder.__init__(self)
        self.log = log

    def num_transmit_input_streams(self, n):
        return n

    def encode_streams(self, streams, n, device):
        self.log("enc", device)
        return streams


class Dec(ReceiveStreamDecoder):
    def __init__(self, log):
        ReceiveStreamDecoder.__init__(self)
        self.log = log

    def num_receive_output_streams(self, n):
        return n

    def decode_streams(self, streams, n, device):
        self.log("dec", device)
        return streams


class Couple(PerfectCoupling):
    def __init__(self, log):
        PerfectCoupling.__init__(self)
        self.log = log

    def transmit(self, signal, state):
        self.log("ctx", state)
        return PerfectCoupling.transmit(self, signal, state)

    def receive(self, signal, state):
        self.log("crx", state)
        return PerfectCoupling.receive(self, signal, state)


def x_of(i):
    return np.exp(1j * (np.arange(4.0)[None] * (i + 1) + i)) * (i + 1)


class World:
    """Devices at y = t, recording the time and place of every stage involved."""

    def __init__(self, n, separate=True):
        self.log = []
        self.devices = []
        for i in range(n):
            a, b = np.array([10.0 * i, 0, 0]), np.array([10.0 * i, 8.0, 0])
            d = SimulatedDevice(
                pose=LinearTrajectory(Transformation.From_Translation(a), Transformation.From_Translation(b), 8.0),
                carrier_frequency=1e9,
                bandwidth=RATE,
                oversampling_factor=1,
                coupling=Couple(self.logger(i)),
                transmit_encoding=[Enc(self.logger(i))],
                receive_decoding=[Dec(self.logger(i))],
            )
            d.transmitters.add(Tx(self.logger(i), x_of(i)))
            d.receivers.add(Rx(self.logger(i)))
            self.devices.append(d)
        self.channel = IdealChannel()
        self.scenario = SimulationScenario(devices=self.devices, default_channel=self.channel, seed=3)
        self.channel.add_sample_hook(self.sampled)
        self.signals = [Signal.Create(x_of(i), RATE, 1e9) for i in range(n)]

    def logger(self, i):
        def log(stage, state):
            self.log.append((stage, i, round(float(state.timestamp), 6), round(float(state.pose.translation[1]), 6), round(float(state.velocity[1]), 6)))
            where = state.pose.translation[0]
            expect(abs(where - 10 * i) < 1e-9, "stage %s of device %d is given the state of another device at %g", stage, i, where)
            for a in state.antennas.antennas:
                expect(np.allclose(a.global_position, state.pose.translation), "antennas at %s of a device at %s", a.global_position, state.pose.translation)

        return log

    def sampled(self, sample):
        i, j = (int(round(p.translation[0] / 10)) for p in (sample.transmitter_pose, sample.receiver_pose))
        self.log.append(("ch", i, j, round(float(sample.time), 6), round(float(sample.transmitter_pose.translation[1]), 6), round(float(sample.receiver_pose.translation[1]), 6)))

    def clear(self):
        self.log.clear()

    def check(self, stages, times, channel=None, what=""):
        """Exactly the expected stages have been executed, each at its device's time."""
        want = []
        for i, t in enumerate(times):
            if t is not None:
                want += [(s, i, round(t, 6), round(t, 6), 1.0) for s in stages]
        if channel is not None:
            want += [("ch", i, j, round(channel, 6), round(times[i], 6), round(times[j], 6)) for i in range(len(times)) for j in range(len(times))]
        got = sorted(self.log)
        expect(got == sorted(want), "%s: stages %s instead of %s", what, got, sorted(want))


DEVICE_OPS = {
    "transmit_operators": ("tx",),
    "generate_output": ("enc", "ctx"),
    "transmit": ("tx", "enc", "ctx"),
    "process_input": ("crx", "dec"),
    "process_from_realization": ("crx", "dec"),
    "receive_operators": ("rx",),
    "receive": ("crx", "dec", "rx"),
    "realize_reception": (),
}


def device_op(w, name, i, time, keyword=True):
    d = w.devices[i]
    state = None if time is None else d.state(time)
    t = [Transmission(Signal.Create(x_of(i), RATE, 0.0))]
    if name == "transmit_operators":
        return d.transmit_operators(state=state) if keyword else d.transmit_operators(state)
    if name == "generate_output":
        return d.generate_output(t, state=state) if keyword else d.generate_output(t, state)
    if name == "transmit":
        return d.transmit(state=state) if keyword else d.transmit(state)
    if name == "process_input":
        return d.process_input(w.signals, state=state) if keyword else d.process_input(w.signals, state)
    if name == "process_from_realization":
        r = d.realize_reception()
        return d.process_from_realization(w.signals, r, state=state)
    if name == "receive_operators":
        s = [Signal.Create(x_of(i), RATE, 0.0)]
        return d.receive_operators(s, state=state) if keyword else d.receive_operators(s, state)
    if name == "receive":
        return d.receive(w.signals, state=state) if keyword else d.receive(w.signals, state)
    return d.realize_reception(state)


def run_device(acc, shard):
    for seq in shard:

        def case():
            w = World(2)
            for name, i, time, keyword in seq:
                w.clear()
                device_op(w, name, i, time, keyword)
                times = [None, None]
                times[i] = 0.0 if time is None else time
                w.check(DEVICE_OPS[name], times, what="%s of device %d at %s" % (name, i, time))
                acc.step()
            acc.state(seq)

        acc.run("device/" + "+".join(s[0] for s in seq), case, seq)


SCENARIO_OPS = {
    "transmit_operators": ("tx",),
    "generate_outputs": ("enc", "ctx"),
    "transmit_devices": ("tx", "enc", "ctx"),
    "process_inputs": ("crx", "dec"),
    "receive_operators": ("rx",),
    "receive_devices": ("crx", "dec", "rx"),
}


def run_scenario(acc, shard):
    for name, n, times, given in shard:

        def case():
            w = World(n)
            s = w.scenario
            states = None if times is None else [None if t is None else d.state(t) for d, t in zip(w.devices, times)]
            at = [0.0] * n if times is None else [0.0 if t is None else t for t in times]
            k = {} if states is None else {"states": states}
            tx = [[Transmission(Signal.Create(x_of(i), RATE, 0.0))] for i in range(n)]
            if given:
                triggers = [TriggerRealization(1 + i, RATE) for i in range(n)]
            if name == "transmit_operators":
                out = s.transmit_operators(**k)
            elif name == "generate_outputs":
                out = s.generate_outputs(tx, trigger_realizations=triggers if given else None, **k)
            elif name == "transmit_devices":
                out = s.transmit_devices(trigger_realizations=triggers if given else None, **k)
            elif name == "process_inputs":
                out = s.process_inputs([[x] for x in w.signals], trigger_realizations=triggers if given else None, **k)
            elif name == "receive_operators":
                out = s.receive_operators([[x] for x in w.signals], **k)
            else:
                out = s.receive_devices([[x] for x in w.signals], trigger_realizations=triggers if given else None, **k)
            w.check(SCENARIO_OPS[name], at, what="%s of %d devices at %s" % (name, n, times))
            if given and name not in ("transmit_operators", "receive_operators"):
                for o, t in zip(out, triggers):
                    expect(o.trigger_realization.num_offset_samples == t.num_offset_samples, "another trigger realization than the one given")
            acc.step()
            acc.state(name, n, times, given)

        acc.run("scenario/" + name, case, (name, n, times, given))


def run_propagate(acc, shard):
    for n, times, t, order in shard:

        def case():
            w = World(n)
            outputs = w.scenario.transmit_devices([d.state(0.0) for d in w.devices])
            w.clear()
            k = {}
            if times is not None:
                k["device_states"] = [d.state(x) for d, x in zip(w.devices, times)]
            if t is not None:
                k["timestamp"] = t
            if order:
                k["channel_realizations"] = w.scenario.realize_channels()
            propagated, realizations = w.scenario.propagate(outputs, **k)
            at = [0.0 if t is None else t] * n if times is None else list(times)
            w.check((), at, 0.0 if t is None else t, "propagation at %s and %s" % (times, t))
            if order:
                expect(list(realizations) == list(k["channel_realizations"]), "other realizations than those given")
            for r in range(n):
                for s in range(n):
                    expect(np.allclose(np.asarray(propagated[r][s].to_dense()), x_of(s)), "propagation from %d to %d", s, r)
            acc.step()
            acc.state(n, times, t, order)

        acc.run("scenario/propagate", case, (n, times, t, order))


ALL = ("tx", "enc", "ctx", "crx", "dec", "rx")
STAGES = ["realize_channels", "sample_states", "transmit_operators", "generate_outputs", "propagate", "process_inputs", "receive_operators"]
STAGE_LOGS = {"transmit_operators": ("tx",), "generate_outputs": ("enc", "ctx"), "propagate": (), "process_inputs": ("crx", "dec"), "receive_operators": ("rx",)}


def run_drops(acc, shard):
    """Scenario drops and the stages of simulation campaigns evaluate everything at the requested time."""
    for kind, n, seq in shard:

        def case():
            w = World(n)
            if kind == "drop":
                for t in seq:
                    w.clear()
                    w.scenario.drop() if t is None else w.scenario.drop(t)
                    t = 0.0 if t is None else float(t)
                    w.check(ALL, [t] * n, t, "drop at %s" % t)
                    acc.step()
                return
            runner = SimulationRunner(w.scenario)
            now = None
            for t, first in seq:
                # Stages before the first impacted one aren't executed again
                start = 0 if now is None else first
                for stage in STAGES[start:]:
                    w.clear()
                    if stage == "sample_states":
                        runner.sample_states() if t is None else runner.sample_states(t)
                        now = 0.0 if t is None else t
                    else:
                        getattr(runner, stage)()
                    if stage in STAGE_LOGS:
                        w.check(STAGE_LOGS[stage], [now] * n, now if stage == "propagate" else None, "stage %s at %s" % (stage, now))
                    acc.step()
            acc.state(kind, n, seq)

        acc.run("drops/" + kind, case, (kind, n, seq))


# Triggers -----------------------------------------------------------------------------------------------------------


def make_trigger(spec):
    kind, *a = spec
    return {"static": StaticTrigger, "samples": SampleOffsetTrigger, "time": TimeOffsetTrigger, "random": RandomTrigger, "normal": NormalTrigger}[kind](*a)


def run_registry(acc, shard):
    """Devices and trigger models refer to each other after every history."""
    for start, history in shard:

        def case():
            models = [StaticTrigger(), SampleOffsetTrigger(2), RandomTrigger()]
            devices, owner = [], []
            for m in start:
                devices.append(SimulatedDevice(bandwidth=RATE, oversampling_factor=1) if m is None else SimulatedDevice(trigger_model=models[m], bandwidth=RATE, oversampling_factor=1))
                owner.append(m)
            initial = [d.trigger_model for d in devices]
            expect(all(isinstance(m, StaticTrigger) for m, s in zip(initial, start) if s is None), "default trigger model isn't static")
            for op in ((),) + tuple(history):
                if op:
                    kind, d, m = op
                    if kind == "set":
                        devices[d].trigger_model = models[m]
                    else:
                        models[m].add_device(devices[d])
                    owner[d] = m
                for m, model in enumerate(models):
                    want = {id(d) for d, o in zip(devices, owner) if o == m}
                    expect({id(d) for d in model.devices} == want and model.num_devices == len(want), "model %d controls %d devices instead of %d after %s", m, model.num_devices, len(want), op)
                for d, o, i in zip(devices, owner, initial):
                    expect(d.trigger_model is (i if o is None else models[o]), "trigger model of a device after %s", op)
                    if o is None:
                        expect(set(i.devices) == {d}, "default trigger model controls %d devices", i.num_devices)
                    else:
                        expect(i is models[o] or d not in i.devices, "the former trigger model still controls the device after %s", op)
                acc.step()
                acc.state(owner)

        acc.run("registry", case, (start, history))


def linked(trigger, frames, rate=RATE, receivers=False):
    devices = []
    for f in frames:
        d = SimulatedDevice(bandwidth=rate, oversampling_factor=1, trigger_model=trigger, carrier_frequency=1e9)
        if f:
            (d.receivers if receivers else d.transmitters).add(Rx(lambda *a: None, f) if receivers else Tx(lambda *a: None, x_of(0), f))
        devices.append(d)
    return devices


def run_models(acc, shard):
    for spec in shard:

        def case():
            kind, *a = spec
            if kind == "static":
                for rate in (1.0, 8.0, 3e7):
                    t = StaticTrigger()
                    d = linked(t, [4], rate)
                    r = t.realize()
                    expect(r.num_offset_samples == 0 and r.trigger_delay == 0.0 and r.sampling_rate == rate, "static trigger delays")
                expect(StaticTrigger().realize().trigger_delay == 0.0, "static trigger without devices")
            elif kind == "random":
                frames, receivers = a
                n = max(frames)
                seen = set()
                t = RandomTrigger()
                d = linked(t, frames, receivers=receivers)
                for seed in range(60 * max(1, n)):
                    rng = np.random.default_rng(seed)
                    r = t.realize(rng)
                    expect(r.sampling_rate == RATE, "sampling rate")
                    seen.add(int(r.num_offset_samples))
                    again = t.realize(np.random.default_rng(seed))
                    expect(again.num_offset_samples == r.num_offset_samples, "equal generators draw different delays")
                    acc.step()
                expect(seen == set(range(max(1, n))), "random triggers of frames of %s samples delay by %s", frames, sorted(seen))
            elif kind == "normal":
                mean, std, rate = a
                z = []
                ref, t = NormalTrigger(100.0, 1.0), NormalTrigger(mean, std)
                d = linked(ref, [4], 1e6), linked(t, [4], rate)
                for seed in range(200):
                    z.append(ref.realize(np.random.default_rng(seed)).trigger_delay - 100.0)
                    t.mean, t.std = mean, std
                    r = t.realize(np.random.default_rng(seed))
                    want = max(0.0, mean + std * z[-1])
                    expect(r.num_offset_samples >= 0 and r.sampling_rate == rate, "negative delay")
                    expect(abs(r.trigger_delay - want) <= 1.01 / rate + 2e-6 * std, "normal trigger delays by %g instead of %g", r.trigger_delay, want)
                    # Parameters may be changed later on
                    t.mean, t.std = mean + 1, 2 * std
                    r = t.realize(np.random.default_rng(seed))
                    want = max(0.0, mean + 1 + 2 * std * z[-1])
                    expect((t.mean, t.std) == (mean + 1, 2 * std) and abs(r.trigger_delay - want) <= 1.01 / rate + 4e-6 * std, "reconfigured normal trigger delays by %g instead of %g", r.trigger_delay, want)
                    acc.step()
                expect(abs(np.mean(z)) < 0.35 and 0.7 < np.std(z) < 1.3, "normal draws of mean %g and deviation %g", np.mean(z), np.std(z))
                expect(len(set(z)) > 150, "only %d different draws", len(set(z)))
            elif kind == "seed":
                model, = a
                runs = []
                for seed in (1, 1, 2):
                    t = make_trigger(model)
                    linked(t, [64])
                    t.seed = seed
                    first = [int(t.realize().num_offset_samples) for _ in range(12)]
                    t.seed = seed
                    expect([int(t.realize().num_offset_samples) for _ in range(12)] == first, "seeding again doesn't restart the draws")
                    runs.append(first)
                expect(runs[0] == runs[1], "equal seeds draw different delays")
                expect(runs[0] != runs[2] and len(set(runs[0])) > 2, "different seeds or draws are equal")
            elif kind == "invalid":
                for make, attribute, good in ((SampleOffsetTrigger, "num_offset_samples", 3), (TimeOffsetTrigger, "offset", 0.5)):
                    t = make(good)
                    for f in (lambda: make(-1), lambda: setattr(t, attribute, -1)):
                        try:
                            f()
                        except ValueError:
                            pass
                        else:
                            expect(False, "negative offsets are accepted")
                    expect(getattr(t, attribute) == good, "rejected offset changed the trigger")
                    setattr(t, attribute, 2 * good)
                    expect(getattr(t, attribute) == 2 * good, "offset can't be changed")
                n = NormalTrigger(1.0, 0.5)
                try:
                    n.std = -1.0
                except ValueError:
                    pass
                else:
                    expect(False, "negative deviations are accepted")
                expect(n.std == 0.5, "rejected deviation changed the trigger")
                for t in (SampleOffsetTrigger(1), TimeOffsetTrigger(1.0), RandomTrigger()):
                    try:
                        t.realize()
                    except RuntimeError:
                        continue
                    expect(False, "trigger without devices realized")
                t = RandomTrigger()
                linked(t, [4], 1.0), linked(t, [4], 2.0)
                try:
                    t.realize()
                except RuntimeError:
                    pass
                else:
                    expect(False, "random triggers of devices with different rates realized")
                for bad in ((-1, 1.0), (0, 0.0), (1, -2.0)):
                    try:
                        TriggerRealization(*bad)
                    except ValueError:
                        continue
                    expect(False, "trigger realization %s is accepted", bad)
                try:
                    TriggerRealization(1, 1.0).compute_num_offset_samples(0.0)
                except ValueError:
                    pass
                else:
                    expect(False, "sampling rate zero is accepted")
            elif kind == "convert":
                n, rate, factor, delay = a
                r = TriggerRealization(n, rate)
                target = rate * factor
                exact = (n / rate - delay / rate) * target
                got = r.compute_num_offset_samples(target, delay / rate)
                expect(isinstance(got, (int, np.integer)), "number of samples is no integer")
                if abs(exact - round(exact)) < 1e-9:
                    expect(got == round(exact), "offset of %g samples at %g Hz converted to %d samples at %g Hz", n - delay, rate, got, target)
                else:
                    expect(abs(got - exact) < 1, "offset of %g samples converted to %d", exact, got)
                if delay == 0:
                    expect(r.compute_num_offset_samples(target) == got, "default delay")
            else:
                model, rates = spec[1], spec[2]
                for rate in rates:
                    t = make_trigger((kind, model) if kind == "samples" else (kind, model / rate))
                    linked(t, [4, 0], rate)
                    r = t.realize()
                    expect(r.num_offset_samples == int(model) and r.sampling_rate == rate, "%d samples of delay instead of %d at %g Hz", r.num_offset_samples, int(model), rate)
                    expect(np.isclose(r.trigger_delay, int(model) / rate, rtol=1e-12, atol=0), "delay")
            acc.step()
            acc.state(spec)

        acc.run("trigger/" + str(spec[0]), case, spec)


def partitions(n):
    def rec(prefix, k):
        if len(prefix) == n:
            yield tuple(prefix)
            return
        for g in range(k + 1):
            yield from rec(prefix + [g], max(k, g + 1))

    return rec([], 0)


class Groups:
    """A scenario whose devices are grouped by shared trigger models."""

    def __init__(self, groups, kinds, seed=5, late=False):
        self.models = [make_trigger(k) for k in kinds]
        self.log = []
        self.devices = []
        self.scenario = SimulationScenario(seed=seed, default_channel=IdealChannel())
        for i, g in enumerate(groups):
            k = {} if late else {"trigger_model": self.models[g]}
            d = SimulatedDevice(bandwidth=RATE, oversampling_factor=1, carrier_frequency=1e9, **k)
            d.transmitters.add(Tx(lambda *a: None, x_of(i), 16))
            d.receivers.add(Rx(lambda *a: None))
            self.scenario.add_device(d)
            self.devices.append(d)
        if late:
            for d, g in zip(self.devices, groups):
                d.trigger_model = self.models[g]


def run_groups(acc, shard):
    for groups, kinds, how in shard:

        def case():
            w = Groups(groups, kinds, late=how == "late")
            n = len(groups)

            def numbers(realizations, members):
                expect(len(realizations) == len(members), "%d realizations of %d devices", len(realizations), len(members))
                v = [int(r.num_offset_samples) for r in realizations]
                for a, b in itertools.combinations(range(len(members)), 2):
                    if groups[members[a]] == groups[members[b]]:
                        expect(v[a] == v[b] and realizations[a].trigger_delay == realizations[b].trigger_delay, "devices sharing a trigger are delayed by %d and %d samples", v[a], v[b])
                for m, x in zip(members, v):
                    k = kinds[groups[m]]
                    if k[0] == "samples":
                        expect(x == k[1], "device triggered by %d instead of %d samples", x, k[1])
                    elif k[0] == "time":
                        expect(x == int(k[1] * RATE), "device triggered by %d instead of %d samples", x, int(k[1] * RATE))
                    elif k[0] == "static":
                        expect(x == 0, "device triggered by %d samples statically", x)
                    else:
                        expect(0 <= x < 16, "random trigger of %d samples", x)
                return v

            draws = []
            for _ in range(8):
                if how in ("realize", "late"):
                    draws.append(numbers(w.scenario.realize_triggers(), range(n)))
                elif how == "subsets":
                    for size in range(1, n + 1):
                        for members in itertools.permutations(range(n), size):
                            draws.append(numbers(w.scenario.realize_triggers([w.devices[m] for m in members]), members))
                            acc.step()
                elif how == "transmit":
                    t = w.scenario.transmit_devices()
                    draws.append(numbers([x.trigger_realization for x in t], range(n)))
                    for x, v in zip(t, draws[-1]):
                        expect(np.isclose(x.mixed_signal.delay, v / RATE), "transmission delayed by %g instead of %g", x.mixed_signal.delay, v / RATE)
                elif how == "outputs":
                    t = w.scenario.generate_outputs(w.scenario.transmit_operators())
                    draws.append(numbers([x.trigger_realization for x in t], range(n)))
                    for x, v in zip(t, draws[-1]):
                        expect(np.isclose(x.mixed_signal.delay, v / RATE), "output delayed by %g instead of %g", x.mixed_signal.delay, v / RATE)
                else:
                    drop = w.scenario.drop()
                    v = numbers([x.trigger_realization for x in drop.device_transmissions], range(n))
                    draws.append(v)
                    expect([int(x.trigger_realization.num_offset_samples) for x in drop.device_receptions] == v, "receptions and transmissions of a drop are triggered differently")
                    for r, reception in enumerate(drop.device_receptions):
                        want = np.zeros((1, 64), complex)
                        for s in range(n):
                            for k in range(4):
                                if k + v[s] - v[r] >= 0:
                                    want[0, k + v[s] - v[r]] += x_of(s)[0, k]
                        got = np.asarray(reception.operator_inputs[0].to_dense())
                        expect(np.allclose(got, want[:, : got.shape[1]], atol=1e-9) and np.allclose(want[:, got.shape[1] :], 0), "reception of device %d with devices triggered by %s", r, v)
                acc.step()
            if any(k[0] == "random" and g in groups for g, k in enumerate(kinds)):
                expect(len({tuple(d) for d in draws}) > 1, "random triggers never change")
                other = Groups(groups, kinds, late=how == "late")
                if how == "realize":
                    again = [[int(r.num_offset_samples) for r in other.scenario.realize_triggers()] for _ in range(8)]
                    expect(again == draws, "equally seeded scenarios are triggered differently")
                    used = [g for g in set(groups) if kinds[g][0] == "random"]
                    if len(used) > 1:
                        a, b = (groups.index(g) for g in used[:2])
                        expect(any(d[a] != d[b] for d in draws), "independent triggers always agree")
            acc.state(groups, kinds, how)

        acc.run("groups/" + how, case, (groups, kinds, how))


def main(check):
    t = check.thorough
    times = [None, 0.0, 1.5, 3.0]
    single = [(name, i, x, k) for name in DEVICE_OPS for i in (0, 1) for x in times for k in (True, False)]
    seqs = [(s,) for s in single]
    pair = [(name, i, x, True) for name in DEVICE_OPS for i in (0, 1) for x in ((None, 1.5) if not t else (None, 0.5, 3.0))]
    seqs += list(itertools.product(pair, repeat=2))
    check.explore(run_device, chunks(seqs, 32))
    ops = []
    for name in SCENARIO_OPS:
        for n in (1, 2, 3):
            for given in (False, True):
                ops.append((name, n, None, given))
                for x in itertools.product((None, 0.0, 1.25, 3.0), repeat=n):
                    if None in x and name == "transmit_operators":
                        continue
                    ops.append((name, n, x, given))
    check.explore(run_scenario, chunks(ops, 32))
    props = []
    for n in (1, 2, 3):
        for x in [None] + list(itertools.product((0.0, 1.25, 3.0), repeat=n)):
            for tt in (None, 0.0, 0.75, 4.0):
                for o in (False, True):
                    props.append((n, x, tt, o))
    check.explore(run_propagate, chunks(props, 32))
    drops = [("drop", n, s) for n in (1, 2, 3) for d in (1, 2, 3) for s in itertools.product((None, 0, 1.25, 3.0), repeat=d)]
    depth = 3 if not t else 4
    steps = [(x, k) for x in (None, 1.25, 3.0) for k in range(len(STAGES))]
    drops += [("runner", n, ((x, 0),) + s) for n in (1, 2) for x in (None, 0.5, 2.0) for d in range(depth if n == 1 else depth - 1) for s in itertools.product(steps, repeat=d)]
    check.explore(run_drops, chunks(drops, 64))
    alphabet = [(k, d, m) for k in ("set", "add") for d in range(2) for m in range(3)]
    regs = [(s, h) for s in itertools.product((None, 0, 1), repeat=2) for h in histories(alphabet, 2 if not t else 3, 0)]
    check.explore(run_registry, chunks(regs, 32))
    specs = [("static",), ("invalid",)]
    specs += [("random", f, r) for f in ((0,), (1,), (2,), (5,), (3, 7), (7, 3), (2, 0, 4)) for r in (False, True)]
    specs += [("normal", m, s, r) for m in (0.0, 1.0, 5.0) for s in (0.0, 0.5, 2.0) for r in (8.0, 1000.0)]
    specs += [("seed", m) for m in (("random",), ("normal", 3.0, 1.0))]
    rates = (1.0, 3.0, 8.0, 1e3, 122.88e6, 1e9 / 3)
    specs += [(k, n, rates) for k in ("samples", "time") for n in range(0, 65 if t else 17)] + [("time", n + 0.5, rates) for n in range(8)]
    specs += [("convert", n, r, f, d) for n in range(0, 24 if t else 12) for r in (1.0, 8.0, 1e3, 122.88e6, 0.1) for f in (0.5, 1.0, 2.0, 3.0, 1 / 3, 1.5) for d in (0, 1, 2, 7, 13)]
    check.explore(run_models, chunks(specs, 64))
    kinds = [("samples", 1), ("random",), ("time", 0.375), ("random",), ("static",), ("normal", 0.5, 0.3)]
    groups = []
    for n in (1, 2, 3) if not t else (1, 2, 3, 4):
        for p in partitions(n):
            for sel in itertools.permutations(kinds[:5], max(p) + 1):
                for how in ("realize", "late", "transmit", "outputs", "drop", "subsets"):
                    groups.append((p, sel, how))
    groups = list(dict.fromkeys(groups))
    check.explore(run_groups, chunks(groups, 64))
    check.bounds = {"device operations": len(seqs), "scenario operations": len(ops) + len(props), "drops and stage histories": len(drops), "registry histories": len(regs), "trigger models": len(specs), "groups": len(groups)}
    check.assumptions = ["devices are identified by their x and times by their y coordinate", "normal draws are compared to those of the same generator at another mean and deviation"]
