"""P05: random outcomes are determined by the seed and the own history, nothing else."""
import itertools
import pickle
import random

import numpy as np

import hermespy.channel as ch
import hermespy.fec as fec
import hermespy.modem as mo
import hermespy.simulation as si
from hermespy.core import RandomNode, Signal, SignalReceiver
from hermespy.simulation.rf.blocks import ad, amps, mixers
from hermespy.simulation.rf.noise import phase_noise
from hermespy.simulation.simulation import SimulationActor
from ..core import chunks, digest, expect

BIG = 2**60


def disturb(k):
    """Disturb every global source of randomness."""
    np.random.seed(k)
    random.seed(k)
    np.random.random(k)
    random.random()


# ------------------------------------------------------------------ random nodes


OPS = [("seed", i, s) for i in range(3) for s in (1, 2)] + [("mother", i, j) for i in range(3) for j in (None, 0, 1, 2) if i != j] + [("draw", i, None) for i in range(3)]


class Nodes:
    """Reference of a forest of random nodes: a generator is created by seeding or detaching."""

    def __init__(self, initial):
        self.real = []
        self.gen = []  # generator of roots, None for children
        self.mother = []
        self.seed = []
        for kind in initial:
            self.real.append(RandomNode(seed=None if kind is None else kind))
            self.seed.append(kind)
            self.gen.append(self.new(kind))
            self.mother.append(None)

    def new(self, seed):
        return [seed, None if seed is None else np.random.default_rng(seed)]

    def root(self, i):
        seen = set()
        while self.gen[i] is None:
            if i in seen:
                return None
            seen.add(i)
            i = self.mother[i]
        return i

    def cyclic(self):
        return any(self.root(i) is None for i in range(3))

    def apply(self, op, log):
        kind, i, x = op
        if kind == "seed":
            self.real[i].seed = x
            self.seed[i], self.gen[i] = x, self.new(x)
        elif kind == "mother":
            old = self.gen[i], self.mother[i]
            self.mother[i] = x
            self.gen[i] = self.new(self.seed[i]) if x is None else None
            if self.cyclic():
                self.gen[i], self.mother[i] = old
                return False
            self.real[i].random_mother = None if x is None else self.real[x]
        else:
            self.draw(i, log)
        return True

    def draw(self, i, log):
        r = self.root(i)
        value = int(self.real[i]._rng.integers(0, BIG))
        seed, gen = self.gen[r]
        if gen is not None:
            wanted = int(gen.integers(0, BIG))
            expect(value == wanted, "node %s draws %s instead of %s", i, value, wanted)
        else:
            expect(value not in log, "unseeded node %s repeats a number", i)
            log.add(value)
        for k in range(3):
            expect(self.real[k].is_random_root == (self.gen[k] is not None), "node %s is root: %s", k, self.real[k].is_random_root)
            expect(self.real[k].seed == self.seed[k], "seed of node %s is %s instead of %s", k, self.real[k].seed, self.seed[k])


def nodes(acc, initial, history):
    w = Nodes(initial)
    log = set()
    for op in history:
        if not w.apply(op, log):
            return
        acc.step()
    for _ in range(2):
        for i in range(3):
            w.draw(i, log)
    acc.state([(w.root(i), w.seed[i], w.mother[i]) for i in range(3)])


# ------------------------------------------------------------------ catalogue of random components


def device(**kw):
    a = dict(carrier_frequency=1e9, bandwidth=1e6, oversampling_factor=2, antennas=si.SimulatedUniformArray(si.SimulatedIdealAntenna, 0.1, [2, 1, 1]))
    a.update(kw)
    return si.SimulatedDevice(**a)


def at(x):
    from hermespy.core import Transformation

    return Transformation.From_Translation(np.array(x, float))


def ramp_signal(n=6, streams=2, fs=2e6):
    m = (np.arange(n * streams).reshape(streams, n) + 1) * (1 - 0.5j)
    return Signal.Create(m, fs, 1e9)


class Component:
    def __init__(self, name, make, draw):
        self.name, self.make, self.draw = name, make, draw


CATALOG = []


def C(name, make, draw):
    CATALOG.append(Component(name, make, draw))


def seeded(fn):
    def make(seed):
        x = fn()
        x.seed = seed
        return x

    return make


C("bits source", lambda s: mo.RandomBitsSource(s), lambda x: x.generate_bits(40))


def sc():
    return mo.RootRaisedCosineWaveform(num_preamble_symbols=0, num_data_symbols=8, modulation_order=4)


STATE = device().state(0.0)
C("modem", lambda s: mo.TransmittingModem(waveform=sc(), seed=s), lambda x: x.transmit(STATE, notify=False).bits)


def padding(seed):
    m = fec.EncoderManager(seed=seed)
    m.add_encoder(fec.BlockInterleaver(30, 3))
    return m


C("padding", padding, lambda x: x.encode(np.ones(4, int), 45))


def crc(seed):
    m = fec.EncoderManager(seed=seed)
    m.add_encoder(fec.CyclicRedundancyCheck(4, 20))
    return m


C("crc", crc, lambda x: x.encode(np.ones(8, int)))
C("crc itself", seeded(lambda: fec.CyclicRedundancyCheck(4, 30)), lambda x: x.encode(np.ones(4, int)))
C("awgn", lambda s: si.AWGN(seed=s), lambda x: x.add_noise(ramp_signal(), 2.0).view(np.ndarray))
C("phase noise", seeded(lambda: phase_noise.OscillatorPhaseNoise(1e-3, 11.0, 12.0)), lambda x: x.add_noise(rf_ones()).view(np.ndarray))


def rf_ones():
    from hermespy.simulation.rf.signal import RFSignal

    return RFSignal(1, 32, 2e6, buffer=np.ones((1, 32), complex))


def leak(seed):
    d = device()
    d.seed = seed
    return d


C("leakage", leak, lambda d: si.SelectiveLeakage.Normal(d, num_samples=4, mean=1.0, variance=2.0).leakage_response)


def trigger(seed):
    s = si.SimulationScenario(seed=seed)
    d = s.new_device(carrier_frequency=1e9, bandwidth=1e6, oversampling_factor=1)
    link = mo.TransmittingModem(waveform=mo.RootRaisedCosineWaveform(num_preamble_symbols=0, num_data_symbols=4000, modulation_order=2))
    d.transmitters.add(link)
    d.trigger_model = si.RandomTrigger()
    return s


C("trigger", trigger, lambda s: np.array([s.realize_triggers()[0].num_offset_samples for _ in range(4)]))


def noisy_device(seed):
    d = device(noise_model=si.AWGN(), noise_level=si.N0(1.0))
    d.receivers.add(SignalReceiver(64))
    d.seed = seed
    return d


C("device noise", noisy_device, lambda d: d.process_input(ramp_signal(64)).operator_inputs[0].view(np.ndarray))


def noisy_chain():
    c = si.RFChain()
    dac = c.add_block(ad.DAC())
    up = c.add_block(mixers.IdealMixer(mixers.MixerType.UP))
    pa = c.add_block(amps.PowerAmplifier(2.0, noise_model=si.AWGN(), noise_level=si.N0(0.5)))
    down = c.add_block(mixers.IdealMixer(mixers.MixerType.DOWN))
    adc = c.add_block(ad.ADC())
    c.connect(dac.port("o"), up.port("i"))
    c.connect(up.port("o"), pa.port("i"))
    c.connect(down.port("o"), adc.port("i"))
    return c


def chain_device(seed):
    d = si.SimulatedDevice(carrier_frequency=1e9, bandwidth=1e6, oversampling_factor=2)
    d.rf = noisy_chain()
    d.seed = seed
    d.transmitters.add(si_transmitter())
    return d


def si_transmitter():
    from hermespy.core import SignalTransmitter

    return SignalTransmitter(Signal.Create(np.ones((1, 64), complex), 2e6, 0.0))


C("rf chain noise", chain_device, lambda d: d.transmit().mixed_signal.view(np.ndarray))

A, B = ((0.0, 0.0, 5.0), (30.0, 40.0, 1.5))


class Link:
    """A channel sampled between two devices, seeded itself or by its scenario."""

    def __init__(self, channel, seed, scenario, default=False, mono=False):
        self.channel = channel
        if scenario:
            s = si.SimulationScenario(default_channel=channel if default else None)
            a = s.new_device(carrier_frequency=1e9, bandwidth=1e6, oversampling_factor=1, pose=at(A))
            b = a if mono else s.new_device(carrier_frequency=1e9, bandwidth=1e6, oversampling_factor=1, pose=at(B))
            if not default:
                s.set_channel(a, b, channel)
            s.seed = seed
            self.scenario = s
        else:
            a = si.SimulatedDevice(carrier_frequency=1e9, bandwidth=1e6, oversampling_factor=1, pose=at(A))
            b = a if mono else si.SimulatedDevice(carrier_frequency=1e9, bandwidth=1e6, oversampling_factor=1, pose=at(B))
            channel.seed = seed
            self.scenario = channel
        self.a, self.b = a, b

    @property
    def seed(self):
        return self.scenario.seed

    @seed.setter
    def seed(self, value):
        self.scenario.seed = value

    def draw(self):
        s = self.channel.realize().sample(self.a, self.b)
        sig = Signal.Create(np.arange(1, 9)[None, :].astype(complex), 1e6, 1e9)
        return s.propagate(sig).view(np.ndarray).copy()


CD = dict(oxygen_absorption=True)
CHANNELS = {
    "fading": lambda: ch.MultipathFadingChannel(np.array([0.0, 1e-6]), np.array([1.0, 0.5]), np.array([2.0, 0.0]), num_sinusoids=5, doppler_frequency=2.0),
    "fading-los": lambda: ch.MultipathFadingChannel(np.array([0.0]), np.array([1.0]), np.array([np.inf]), num_sinusoids=5),
    "fading-correlated": lambda: ch.MultipathFadingChannel(np.array([0.0, 1e-6]), np.array([1.0, 0.5]), np.array([2.0, 0.0]), num_sinusoids=5, correlation_distance=3.0),
    "tdl": lambda: ch.TDL(ch.TDLType.B, 1e-7, num_sinusoids=4),
    "cost259": lambda: ch.Cost259(ch.Cost259Type.HILLY, num_sinusoids=4),
    "exponential": lambda: ch.Exponential(1e-6, 2e-6, num_sinusoids=4),
    "delay": lambda: ch.RandomDelayChannel((1e-6, 9e-6)),
    "single-target": lambda: ch.SingleTargetRadarChannel((5.0, 5000.0), 1.0, target_azimuth=(0.1, 3.0), target_zenith=(0.1, 1.0), velocity=(1.0, 20.0), attenuate=False),
    "factory": lambda: ch.IndoorFactory(100.0, 80.0, ch.FactoryType.SL, clutter_height=2.5, **CD),
    "office": lambda: ch.IndoorOffice(**CD),
    "rural": lambda: ch.RuralMacrocells(**CD),
    "macro": lambda: ch.UrbanMacrocells(**CD),
    "micro": lambda: ch.UrbanMicrocells(**CD),
    "cdl": lambda: ch.CDL(ch.CDLType.A, 1e-7),
}
SLOW = ("factory", "office", "rural", "macro", "micro", "cdl")
MONO = ("single-target",)
for n, fn in CHANNELS.items():
    C("channel " + n, lambda s, fn=fn, n=n: Link(fn(), s, False, mono=n in MONO), lambda x: x.draw())
    C("linked channel " + n, lambda s, fn=fn, n=n: Link(fn(), s, True, mono=n in MONO), lambda x: x.draw())
    C("default channel " + n, lambda s, fn=fn, n=n: Link(fn(), s, True, True, mono=n in MONO), lambda x: x.draw())


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and np.array_equal(a, b)


_REFS = {}


def component_reference(acc, c):
    if c.name in _REFS:
        return _REFS[c.name]
    disturb(1)
    refs = _REFS[c.name] = {}
    for s in (3, 4):
        x = c.make(s)
        refs[s] = [c.draw(x) for _ in range(3)]
        acc.step(3)
    expect(not all(same(a, b) for a, b in zip(refs[3], refs[4])), "%s: different seeds yield identical outcomes", c.name)
    expect(not (same(refs[3][0], refs[3][1]) and same(refs[3][1], refs[3][2])), "%s: subsequent outcomes are identical", c.name)
    return refs


def component(acc, k, history):
    """Two instances with different seeds, each operation belongs to one of them."""
    c = CATALOG[k]
    refs = component_reference(acc, c)
    seeds, pos = {}, {}
    objs = {}
    for t, (i, op) in enumerate(history):
        disturb(10 + t)
        if op == "new":
            objs[i] = c.make(3 + i)
            seeds[i], pos[i] = 3 + i, 0
        elif i not in objs:
            return
        elif op == "draw":
            if pos[i] > 2:
                return
            got = c.draw(objs[i])
            want = refs[seeds[i]][pos[i]]
            expect(same(got, want), "%s: outcome %s after seeding %s differs after %s: %s instead of %s", c.name, pos[i], seeds[i], history[:t], got, want)
            pos[i] += 1
        else:
            objs[i].seed = op
            seeds[i], pos[i] = op, 0
        acc.step()
    acc.state(c.name, sorted(seeds.items()), sorted(pos.items()))


COMPONENT_OPS = [(i, o) for i in (0, 1) for o in ("new", "draw", 3, 4)]


def component_histories(depth):
    base = [(0, "new"), (1, "new")]
    if depth < 2:
        yield [(0, "new"), (0, "draw"), (1, "new"), (1, "draw"), (0, "draw"), (0, 4), (1, 3), (0, "draw"), (1, "draw"), (1, "draw"), (0, "draw")]
        yield [(1, "new"), (1, "draw"), (1, 3), (0, "new"), (0, "draw"), (1, "draw"), (0, 4), (1, "draw"), (0, "draw"), (0, "draw"), (1, "draw")]
        return
    for h in itertools.product([o for o in COMPONENT_OPS if o[1] != "new"], repeat=depth):
        yield base + list(h)
    for h in itertools.product([o for o in COMPONENT_OPS if o[0] == 0 or o[1] == "new"], repeat=depth - 1):
        yield [(0, "new")] + list(h)


# ------------------------------------------------------------------ scenarios


class World:
    """A scenario assembled in a certain order."""

    STEPS = ["alpha", "beta", "link", "coding", "channel", "default", "noise", "trigger", "rf", "seed"]
    AFTER = {"link": ("alpha", "beta"), "channel": ("alpha", "beta"), "coding": ("link",), "noise": ("beta",), "trigger": ("alpha",), "rf": ("alpha",)}

    def __init__(self, seed, steps=None):
        self.s = si.SimulationScenario(default_channel=ch.MultipathFadingChannel(np.array([0.0, 1e-6]), np.array([0.5, 0.5]), np.array([2.0, 0.0]), num_sinusoids=4))
        self.value = seed
        self.d = {}
        for step in self.STEPS if steps is None else steps:
            getattr(self, step)()

    def alpha(self):
        self.d["alpha"] = self.s.new_device(carrier_frequency=1e9, bandwidth=1e6, oversampling_factor=1, pose=at(A))

    def beta(self):
        self.d["beta"] = self.s.new_device(carrier_frequency=1e9, bandwidth=1e6, oversampling_factor=1, pose=at(B))

    def link(self):
        self.modem = mo.SimplexLink(waveform=sc(), selected_transmit_ports=[0], selected_receive_ports=[0])
        self.d["alpha"].transmitters.add(self.modem)
        self.d["beta"].receivers.add(self.modem)

    def coding(self):
        self.modem.encoder_manager.add_encoder(fec.CyclicRedundancyCheck(4, 4))

    def channel(self):
        self.s.set_channel(self.d["alpha"], self.d["beta"], ch.TDL(ch.TDLType.A, 1e-7, num_sinusoids=4))

    def default(self):
        pass

    def noise(self):
        self.d["beta"].noise_model = si.AWGN()
        self.d["beta"].noise_level = si.N0(0.1)

    def trigger(self):
        self.d["alpha"].trigger_model = si.RandomTrigger()

    def rf(self):
        c = noisy_chain()
        self.d["alpha"].rf = c

    def seed(self):
        self.s.seed = self.value

    def drop(self):
        return outcome(self.s.drop())


def outcome(drop):
    out = []
    for t in drop.device_transmissions:
        out.append(t.mixed_signal.view(np.ndarray).copy())
        out += [np.asarray(o.bits) for o in t.operator_transmissions if hasattr(o, "bits")]
    for r in drop.device_receptions:
        for row in r.impinging_signals:
            out.append(np.asarray(row.view(np.ndarray)).copy())
        out += [np.asarray(o.bits) for o in r.operator_receptions if hasattr(o, "bits")]
        out += [np.asarray(o.signal.view(np.ndarray)).copy() for o in r.operator_receptions]
    return out


def equal(a, b):
    return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))


def orders(limit):
    steps = World.STEPS
    out = []

    def rec(done):
        if len(done) == len(steps):
            out.append(list(done))
            return
        for s in steps:
            if s not in done and s != "default" and all(x in done for x in World.AFTER.get(s, ())):
                # devices keep their order, since outcomes are reported per device
                if s == "beta" and "alpha" not in done:
                    continue
                rec(done + [s])

    steps = [s for s in steps if s != "default"]
    rec([])
    return out if limit is None else out[:: max(1, len(out) // limit)]


_REF = {}


def reference(seed):
    if seed not in _REF:
        disturb(3)
        w = World(seed)
        _REF[seed] = [w.drop() for _ in range(3)]
    return _REF[seed]


def order(acc, steps, k):
    disturb(k)
    w = World(11, steps)
    got = [w.drop() for _ in range(2)]
    acc.step(2)
    ref = reference(11)
    for t in range(2):
        expect(equal(got[t], ref[t]), "drop %s of a scenario assembled in the order %s differs from %s: fields %s", t, steps, World.STEPS, [i for i, (x, y) in enumerate(zip(got[t], ref[t])) if not same(x, y)])
    expect(not equal(ref[0], ref[1]), "subsequent drops are identical")
    expect(not equal(ref[0], reference(12)[0]), "different seeds yield identical drops")
    w.s.seed = 12
    expect(equal(w.drop(), reference(12)[0]), "a scenario seeded again does not restart")
    acc.state("order", steps)


def interleaving(acc, schedule):
    """Operations of two independent scenarios in a certain interleaving."""
    scripts = ["new", "drop", "drop", ("seed", 0), "drop"], ["new", "drop", ("seed", 1), "drop", "drop"]
    w, pos, seed = {}, {}, {}
    p = [0, 0]
    for t, i in enumerate(schedule):
        disturb(t)
        op = scripts[i][p[i]]
        p[i] += 1
        if op == "new":
            w[i], pos[i], seed[i] = World(11 + i), 0, 11 + i
        elif op == "drop":
            expect(equal(w[i].drop(), reference(seed[i])[pos[i]]), "drop %s of scenario %s depends on the interleaving", pos[i], i)
            pos[i] += 1
        else:
            seed[i] = 12 - op[1]
            w[i].s.seed = seed[i]
            pos[i] = 0
        acc.step()
    acc.state("interleaving", schedule)


def actors(acc, created, steps):
    """Actors of one simulation: independent of each other, reproducible individually."""
    template = World(11)
    blob = pickle.dumps(template.s)

    def make(index):
        s = pickle.loads(blob)
        return s, SimulationActor(None, (s, [], []), index)

    def one(actor, scenario):
        out = []
        hooks = []
        for d in scenario.devices:
            for o in d.transmitters:
                hooks.append(o.add_transmit_callback(lambda t: out.append(np.asarray(t.bits))))
            for o in d.receivers:
                hooks.append(o.add_receive_callback(lambda r: out.append(np.asarray(r.signal.view(np.ndarray)).copy())))
        for stage in actor.stage_executors():
            stage()
        for h in hooks:
            h.remove()
        expect(len(out) == 2, "an actor's drop yields %s instead of two results", len(out))
        return out

    ref = {}
    for i in set(created):
        s, a = make(i)
        ref[i] = [one(a, s) for _ in range(len(steps) + 1)]
    for i, j in itertools.combinations(sorted(ref), 2):
        for x in ref[i]:
            for y in ref[j]:
                expect(not equal(x, y), "actors %s and %s generate the same outcome", i, j)
                expect(not same(x[0], y[0]), "actors %s and %s transmit the same bits", i, j)
    live = []
    for i in created:
        disturb(i)
        live.append(make(i) + (i, [0]))
    for t, k in enumerate(steps):
        s, a, i, n = live[k]
        disturb(t)
        expect(equal(one(a, s), ref[i][n[0]]), "actor %s is not reproducible", i)
        n[0] += 1
        acc.step()
    acc.state("actors", created, steps)


# ------------------------------------------------------------------ main


def shard(acc, x):
    kind, cases = x
    for c in cases:
        if kind == "nodes":
            acc.run("nodes", lambda: nodes(acc, *c), c, sample=False)
        elif kind == "component":
            acc.run("component:%s" % CATALOG[c[0]].name, lambda: component(acc, *c), c)
        elif kind == "order":
            acc.run("order", lambda: order(acc, *c), c)
        elif kind == "interleaving":
            acc.run("interleaving", lambda: interleaving(acc, c), c)
        else:
            acc.run("actors", lambda: actors(acc, *c), c)
        acc.count(kind)


def main(check):
    deep = check.thorough
    shards = []
    hist = [(initial, h) for initial in ((None, None, None), (5, None, 6), (5, 5, 5)) for d in range(4 if not deep else 5) for h in itertools.product(OPS, repeat=d)]
    shards += [("nodes", c) for c in chunks(hist, 16)]
    cheap = [k for k, c in enumerate(CATALOG) if "channel" not in c.name]
    for k in range(len(CATALOG)):
        slow = any(n in CATALOG[k].name for n in SLOW)
        depth = (4 if deep else 3) if k in cheap else (3 if deep else 1 if slow else 2)
        shards += [("component", c) for c in chunks([(k, h) for h in component_histories(depth)], 2 if deep else 1)]
    every = orders(None if deep else 150)
    shards += [("order", c) for c in chunks([(o, k) for k, o in enumerate(every)], 12)]
    il = [s for s in itertools.product((0, 1), repeat=10) if sum(s) == 5]
    shards += [("interleaving", c) for c in chunks(il if deep else il[::6], 12)]
    act = [(c, s) for c in ((0, 1), (0, 0), (0, 1, 2), (2, 0)) for s in itertools.product(range(len(c)), repeat=4 if deep else 3)]
    shards += [("actors", c) for c in chunks(act, 6)]
    check.explore(shard, shards, case_timeout=120.0)
    check.bounds = dict(node_depth=4 if deep else 3, components=len(CATALOG), orders=len(every), interleavings=len(il if deep else il[::6]))
