"""P14: scenarios route every transmission over the configured channels to every device."""
import itertools

import numpy as np

import hermespy.simulation as si
from hermespy.channel import IdealChannel
from hermespy.core import Signal, SignalReceiver, SignalTransmitter, SilentTransmitter, Transformation
from hermespy.simulation import LinearTrajectory, SimulatedDevice, SimulationScenario
from ..core import chunks, expect, histories

GAINS = {"D": 1.0, "a": 0.25, "b": 4.0, "z": 0.0}


class World:
    """A real scenario next to a plain model of it."""

    def __init__(self, devices=0, default_gain=1.0, moving=False):
        self.channels = {n: IdealChannel(gain=g) for n, g in GAINS.items()}
        self.channels["D"].gain = default_gain
        self.gain = dict(GAINS, D=default_gain)
        self.names = {id(c): n for n, c in self.channels.items()}
        self.scenario = SimulationScenario(default_channel=self.channels["D"], seed=1)
        self.log = []
        for n, c in self.channels.items():
            c.add_sample_hook(lambda s, n=n: self.log.append((n, round(s.time, 9), tuple(np.round(s.transmitter_pose.translation, 6)), tuple(np.round(s.receiver_pose.translation, 6)))))
        self.moving = moving
        self.devices = []
        self.links = {}
        self.tx = []
        self.rx = []
        self.spare = SimulatedDevice()
        self.op = {}
        for _ in range(devices):
            self.add()

    def add(self):
        i = len(self.devices)
        if self.moving:
            a, b = np.array([10.0 * i, 1, 0]), np.array([10.0 * i, 1 + 5 * (i + 1), 3])
            d = SimulatedDevice(pose=LinearTrajectory(Transformation.From_Translation(a), Transformation.From_Translation(b), 2.0))
        else:
            d = SimulatedDevice()
        self.devices.append(d)
        self.tx.append([])
        self.rx.append([])
        self.scenario.add_device(d)

    def operator(self, i, kind):
        if (i, kind) not in self.op:
            self.op[i, kind] = SignalTransmitter(Signal.Create((i + 1.0) * np.exp(0.1j * np.arange(64)).reshape(1, -1), 1e6)) if kind == "t" else SignalReceiver(64) if kind == "r" else si.SimulatedDevice
        return self.op[i, kind]

    def apply(self, op):
        k = op[0]
        if k == "add":
            self.add()
        elif k == "set":
            _, i, j, c = op
            self.scenario.set_channel(self.devices[i], self.devices[j], self.channels[c])
            self.links[frozenset((i, j))] = c
        elif k == "+":
            o = self.operator(op[1], op[2])
            self.devices[op[1]].add_dsp(o)
            l = (self.tx if op[2] == "t" else self.rx)[op[1]]
            if o not in l:
                l.append(o)
        elif k == "-":
            o = self.operator(op[1], op[2])
            (self.devices[op[1]].transmitters if op[2] == "t" else self.devices[op[1]].receivers).remove(o)
            l = (self.tx if op[2] == "t" else self.rx)[op[1]]
            if o in l:
                l.remove(o)

    def link(self, i, j):
        return self.links.get(frozenset((i, j)), "D")

    def key(self):
        return (len(self.devices), tuple(sorted((tuple(sorted(k)), c) for k, c in self.links.items())), tuple(len(x) for x in self.tx), tuple(len(x) for x in self.rx))

    def check(self):
        s, n = self.scenario, len(self.devices)
        expect(s.devices == self.devices and s.num_devices == n, "registered devices %s", s.devices)
        for i, d in enumerate(self.devices):
            expect(s.device_registered(d) and s.device_index(d) == i, "device %s isn't registered", i)
            expect(d.scenario is s, "device %s doesn't know its scenario", i)
        expect(not s.device_registered(self.spare), "foreign device is registered")
        for f in (lambda: s.device_index(self.spare), lambda: s.device_channels(self.spare), lambda: s.channel(self.spare, self.spare), lambda: s.set_channel(self.spare, self.spare, self.channels["a"])):
            try:
                f()
            except ValueError:
                continue
            expect(False, "queries concerning foreign devices are accepted")
        # unique channel models: the default channel and all the explicitly linked ones
        used = {"D"} | set(self.links.values())
        got = [self.names.get(id(c), "?") for c in s.channels]
        expect(sorted(got) == sorted(used), "channels of the scenario are %s instead of %s", sorted(got), sorted(used))
        for c in used:
            expect(self.channels[c].scenario is s, "channel %s doesn't know its scenario", c)
        for i in range(n):
            for j in range(n):
                got = self.names[id(s.channel(self.devices[i], self.devices[j]))]
                expect(got == self.link(i, j), "devices %s and %s are linked by channel %s instead of %s", i, j, got, self.link(i, j))
            for active in (False, True):
                want = {self.link(i, j) for j in range(n)}
                want = {c for c in want if not active or self.gain[c] > 0}
                got = {self.names[id(c)] for c in s.device_channels(self.devices[i], active)}
                expect(got == want, "device %s: %s channels %s instead of %s", i, "active" if active else "linked", sorted(got), sorted(want))
        # operators
        tx, rx = [o for l in self.tx for o in l], [o for l in self.rx for o in l]
        expect(list(s.transmitters) == tx and s.num_transmitters == len(tx), "transmitters %s instead of %s", s.transmitters, tx)
        expect(list(s.receivers) == rx and s.num_receivers == len(rx), "receivers %s instead of %s", s.receivers, rx)
        expect(s.operators == set(tx) | set(rx) and s.num_operators == len(tx) + len(rx), "operators of the scenario")
        for i, d in enumerate(self.devices):
            expect(list(d.transmitters) == self.tx[i] and list(d.receivers) == self.rx[i], "operators of device %s", i)

    def route(self, timestamp=0.0):
        """Propagate distinguishable transmissions and compare the whole propagation matrix."""
        n = len(self.devices)
        samples = [(i + 2.0) * np.exp(1j * (i + 1) * np.arange(1, 4 + i)).reshape(1, -1) for i in range(n)]
        signals = [Signal.Create(x.copy(), d.sampling_rate, d.carrier_frequency) for x, d in zip(samples, self.devices)]
        reals = self.scenario.realize_channels()
        expect(len(reals) == len(self.scenario.channels), "%s channel realizations of %s channels", len(reals), len(self.scenario.channels))
        for c, r in zip(self.scenario.channels, reals):
            expect(abs(r.gain - c.gain) < 1e-12, "realizations aren't ordered as the channels")
        self.log.clear()
        matrix, back = self.scenario.propagate(signals, None, reals, timestamp)
        expect(list(back) == list(reals), "other channel realizations are reported")
        self.matrix(matrix, samples)
        self.sampled(timestamp)
        # without explicit realizations
        matrix, back = self.scenario.propagate(signals)
        self.matrix(matrix, samples)
        expect(len(back) == len(self.scenario.channels), "%s realizations reported", len(back))
        for x, y in zip(samples, signals):
            expect(np.array_equal(x, y.view(np.ndarray) if isinstance(y, np.ndarray) else y[:, :]), "propagation modifies the transmitted signals")

    def matrix(self, matrix, samples):
        n = len(self.devices)
        expect(len(matrix) == n and all(len(r) == n for r in matrix), "shape of the propagation matrix")
        for rx in range(n):
            for tx in range(n):
                self.same(matrix[rx][tx], samples[tx] * self.gain[self.link(tx, rx)] ** 0.5, "device %s receives from device %s" % (rx, tx))

    def same(self, signal, want, what):
        got = np.asarray(signal[:, :])
        if not np.any(want):
            expect(got.size == 0 or not np.any(got), "%s: a signal over a channel without gain", what)
            return
        expect(got.shape == want.shape and np.allclose(got, want, rtol=1e-9), "%s: %s instead of %s", what, got.ravel()[:3], want.ravel()[:3])

    def position(self, i, t):
        if not self.moving:
            return (0.0, 0.0, 0.0)
        a, b = np.array([10.0 * i, 1, 0]), np.array([10.0 * i, 1 + 5 * (i + 1), 3])
        return tuple(np.round(a + (b - a) * min(1.0, max(0.0, t / 2.0)), 6))

    def sampled(self, *times):
        """Each link was sampled once per timestamp and direction, at the devices' poses at that time."""
        n = len(self.devices)
        want = sorted((self.link(i, j), round(float(t), 9), self.position(i, t), self.position(j, t)) for t in times for i in range(n) for j in range(n))
        got = sorted((a, b, tuple(float(x) + 0.0 for x in c), tuple(float(x) + 0.0 for x in d)) for a, b, c, d in self.log)
        want = [(a, b, tuple(float(x) for x in c), tuple(float(x) for x in d)) for a, b, c, d in want]
        expect(got == want, "channel samples (channel, time, transmitter, receiver): %s instead of %s", got, want)


def alphabet(n):
    ops = [("add",)]
    for i in range(n):
        for j in range(i, n):
            ops += [("set", i, j, c) for c in "aDz"]
    ops += [("set", 1, 0, "b"), ("+", 0, "t"), ("+", 1, "r"), ("-", 0, "t"), ("+", 1, "t")]
    return ops


def run_histories(acc, shard):
    for start, gain, hist in shard:

        def body():
            w = World(start, gain)
            for op in hist:
                if op[0] == "set" and max(op[1], op[2]) >= len(w.devices) or op[0] in "+-" and op[1] >= len(w.devices):
                    return
                w.apply(op)
                w.check()
                acc.step()
                acc.state(("h", gain, w.key()))
            w.route()
            acc.step()

        acc.run("registry/%s devices/default gain %s/%s" % (start, gain, ".".join("".join(map(str, o)) for o in hist)), body, {"devices": start, "gain": gain, "history": hist})


def run_drops(acc, shard):
    for n, links, ops, times in shard:

        def body():
            w = World(n, moving=True)
            for (i, j), c in links:
                w.apply(("set", i, j, c))
            for o in ops:
                w.apply(o)
            seen = []
            for l in w.tx:
                for o in l:
                    o.add_transmit_callback(lambda t, o=o: seen.append(("t", id(o))))
            for l in w.rx:
                for o in l:
                    o.add_receive_callback(lambda t, o=o: seen.append(("r", id(o))))
            w.check()
            w.log.clear()
            drops = w.scenario._drop(times) if isinstance(times, list) else [w.scenario.drop(times) if times is not None else w.scenario.drop()]
            stamps = times if isinstance(times, list) else [times or 0.0]
            if not isinstance(drops, list):
                drops = [drops]
            expect(len(drops) == len(stamps), "%s drops", len(drops))
            w.sampled(*stamps)
            for drop in drops:
                acc.step()
                expect(drop.num_device_transmissions == n and drop.num_device_receptions == n, "number of transmissions and receptions")
                expect(len(drop.channel_realizations) == len(w.scenario.channels), "number of realizations")
                outs = [np.asarray(t.mixed_signal[:, :]) for t in drop.device_transmissions]
                for i, t in enumerate(drop.device_transmissions):
                    expect(t.num_operator_transmissions == len(w.tx[i]), "device %s: %s operator transmissions instead of %s", i, t.num_operator_transmissions, len(w.tx[i]))
                    expect(bool(np.any(outs[i])) == bool(w.tx[i]), "device %s emits %s", i, outs[i].ravel()[:3])
                for r, rec in enumerate(drop.device_receptions):
                    expect(rec.num_operator_receptions == len(w.rx[r]) and len(rec.operator_inputs) == len(w.rx[r]), "device %s: %s operator receptions instead of %s", r, rec.num_operator_receptions, len(w.rx[r]))
                    expect(rec.num_impinging_signals == n, "device %s: %s impinging signals", r, rec.num_impinging_signals)
                    for t, s in enumerate(rec.impinging_signals):
                        w.same(s, outs[t] * w.gain[w.link(t, r)] ** 0.5, "device %s receives from device %s" % (r, t))
            want = sorted([("t", id(o)) for l in w.tx for o in l] * len(stamps) + [("r", id(o)) for l in w.rx for o in l] * len(stamps))
            expect(sorted(seen) == want, "callbacks: %s calls instead of %s", len(seen), len(want))
            acc.state(("d", w.key(), repr(times)))

        acc.run("drop/%s devices/%s/%s/at %s" % (n, ".".join("%s%s%s" % (a, b, c) for (a, b), c in links), ".".join("".join(map(str, o)) for o in ops), times), body, {"devices": n, "links": links, "times": times})


def run_guards(acc, _):
    """Scenarios reject foreign, repeated and late registrations and mismatching numbers of signals."""

    def twice():
        w = World(2)
        for d in list(w.devices):
            try:
                w.scenario.add_device(d)
            except ValueError:
                w.check()
                continue
            expect(False, "a device is registered twice")

    acc.run("guard/registered twice", twice, {})

    for n in range(1, 4):
        for m in range(0, 5):
            if n == m:
                continue

            def counts():
                w = World(n)
                sigs = [Signal.Create(np.ones((1, 4), complex), 1.0) for _ in range(m)]
                for what, f in (("transmit signals", lambda: w.scenario.propagate(sigs)), ("inputs", lambda: w.scenario.process_inputs(sigs)), ("operator transmissions", lambda: w.scenario.generate_outputs([[]] * m)), ("operator inputs", lambda: w.scenario.receive_operators([[]] * m))):
                    try:
                        f()
                    except ValueError:
                        continue
                    expect(False, "%s %s are accepted for %s devices", m, what, n)

            acc.run("guard/%s signals of %s devices" % (m, n), counts, {})

    def new():
        w = World(1)
        d = w.scenario.new_device(carrier_frequency=3e9)
        expect(d in w.scenario.devices and d.carrier_frequency == 3e9 and d.scenario is w.scenario, "new device isn't registered as configured")

    acc.run("guard/new device", new, {})

    def moved():
        """Devices passed to the constructor are registered, the channels belong to the scenario."""
        d = [SimulatedDevice() for _ in range(3)]
        s = SimulationScenario(devices=d)
        expect(s.devices == d and all(x.scenario is s for x in d) and all(x.random_mother is s for x in d), "devices of the constructor")
        expect(len(s.channels) == 1 and s.channels[0].scenario is s, "default channel")

    acc.run("guard/constructor", moved, {})


def main(check):
    t = check.thorough
    depth = 3 if not t else 4
    hs = []
    for start, gain in ((2, 1.0), (2, 0.0), (3, 1.0)):
        d = depth if start == 2 and gain == 1.0 else depth - 1
        hs += [(start, gain, h) for h in histories(alphabet(start), d, 1)]
    check.explore(run_histories, chunks(hs, 64))
    drops = []
    opsets = [(), (("+", 0, "t"), ("+", 1, "r")), (("+", 0, "t"), ("+", 1, "t"), ("+", 0, "r"), ("+", 1, "r")), (("+", 1, "t"), ("+", 0, "r"), ("+", 1, "r"))]
    times = [None, 0.0, 0.5, 1, 2, 3.0, [0.0], [0.5, 1.5], [1, 0, 2.0]]
    for n in (1, 2, 3):
        pairs = [(i, j) for i in range(n) for j in range(i, n)]
        combos = list(itertools.product("Daz", repeat=len(pairs))) if n < 3 else [c for c in itertools.product("Dabz", repeat=len(pairs)) if sum(x != "D" for x in c) <= (2 if not t else 4)]
        for k, c in enumerate(combos):
            for o in opsets:
                if n == 1 and any(x[1] > 0 for x in o):
                    continue
                for tt in times if n == 2 or t else [times[k % len(times)]]:
                    drops.append((n, list(zip(pairs, c)), o, tt))
    check.explore(run_drops, chunks(drops, 64))
    check.explore(run_guards, [0])
    check.bounds = {"history depth": depth, "histories": len(hs), "drops": len(drops), "devices": 3}
    check.assumptions = ["ideal channels with distinct gains identify the links"]
