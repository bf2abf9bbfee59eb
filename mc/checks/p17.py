"""P17: radio-frequency chains route and process the samples along their connections."""
import itertools

import numpy as np

from hermespy.core import Signal
from hermespy.simulation.rf import RFChain
from hermespy.simulation.rf.block import RFBlockPort, RFBlockPortType, RFBlockRealization
from hermespy.simulation.rf.blocks import ADC, DAC, HPF, IdealMixer, Mixer, MixerType, PowerAmplifier, Shift, Source, Split, Sum, X4
from hermespy.simulation.rf.noise import N0, NoPhaseNoise, OscillatorPhaseNoise
from hermespy.simulation.rf.signal import RFSignal
from ..core import chunks, expect
from .p35 import roundtrip

RATE, CARRIER, N = 8.0, 1e9, 6

# name: constructor, number of inputs, number of outputs, matrix from inputs to outputs
BLOCKS = {
    "D1": (lambda: DAC(), 1, 1, np.eye(1)),
    "D2": (lambda: DAC(num_ports=2), 2, 2, np.eye(2)),
    "A1": (lambda: ADC(), 1, 1, np.eye(1)),
    "A2": (lambda: ADC(num_ports=2), 2, 2, np.eye(2)),
    "PA": (lambda: PowerAmplifier(2.0), 1, 1, np.full((1, 1), 2.0)),
    "S2": (lambda: Shift(0.5, num_ports=2), 2, 2, np.exp(0.5j) * np.eye(2)),
    "Y2": (lambda: Split(2), 1, 2, np.ones((2, 1))),
    "Y3": (lambda: Split(3), 1, 3, np.ones((3, 1))),
    "P2": (lambda: Sum(2), 2, 1, np.ones((1, 2))),
    "L": (lambda: Source(CARRIER, amplitude=0.25), 0, 1, np.zeros((1, 0))),
}


def port(ref, kind, index):
    return getattr(ref, kind)[index]


def samples(streams, n=N, key=0):
    k = np.arange(streams * n).reshape(streams, n) + 1 + 3 * key
    return np.cos(k * k + key) + 1j * np.sin(3 * k)


class Model:
    """Connections of a chain interpreted by definition."""

    def __init__(self, names):
        self.names = names
        self.wires = []  # (output block, output port, input block, input port)

    def ins(self, b):
        return BLOCKS[self.names[b]][1]

    def outs(self, b):
        return BLOCKS[self.names[b]][2]

    def open_in(self, b):
        return [p for p in range(self.ins(b)) if (b, p) not in {w[2:] for w in self.wires}]

    def open_out(self, b):
        return [p for p in range(self.outs(b)) if (b, p) not in {w[:2] for w in self.wires}]

    def reaches(self, a, b):
        return a == b or any(self.reaches(w[2], b) for w in self.wires if w[0] == a)

    def options(self):
        """Connections of open input ports without loops."""
        for a, b in itertools.product(range(len(self.names)), repeat=2):
            if self.names[b][0] == "D" or self.names[a][0] == "A" or self.reaches(b, a):
                continue
            for i, o in itertools.product(self.open_in(b), range(self.outs(a))):
                yield a, o, b, i

    def evaluate(self, external, n):
        """Samples of all blocks' outputs given the samples of open ports."""
        out = {}

        def value(b):
            if b not in out:
                if self.names[b] == "L":
                    out[b] = np.full((1, n), 0.25 + 0j)
                else:
                    x = np.zeros((self.ins(b), n), complex)
                    for p in range(self.ins(b)):
                        if (b, p) in external:
                            x[p] = external[b, p]
                    for a, o, c, i in self.wires:
                        if c == b:
                            x[i] = value(a)[o]
                    out[b] = BLOCKS[self.names[b]][3] @ x
            return out[b]

        for b in range(len(self.names)):
            value(b)
        return out

    def transmit(self, x):
        external, k = {}, 0
        for b, name in enumerate(self.names):
            if name[0] == "D":
                for p in range(self.ins(b)):
                    external[b, p] = x[k]
                    k += 1
        out = self.evaluate(external, x.shape[1])
        rows = [out[b][p] for b, name in enumerate(self.names) if name[0] != "A" for p in self.open_out(b)]
        return np.array(rows).reshape(len(rows), x.shape[1])

    def receive(self, x):
        external, k = {}, 0
        for b, name in enumerate(self.names):
            if name[0] != "D":
                for p in self.open_in(b):
                    external[b, p] = x[k]
                    k += 1
        out = self.evaluate(external, x.shape[1])
        rows = [out[b][p] for b, name in enumerate(self.names) if name[0] == "A" for p in range(self.outs(b))]
        return np.array(rows).reshape(len(rows), x.shape[1])

    @property
    def rf_inputs(self):
        return sum(len(self.open_in(b)) for b, n in enumerate(self.names) if n[0] != "D")


def build(names):
    chain = RFChain(seed=3)
    return chain, [chain.add_block(BLOCKS[n][0]()) for n in names]


def compare(chain, model, what, n=N):
    digital = sum(model.ins(b) for b, name in enumerate(model.names) if name[0] == "D")
    expect(chain.num_digital_input_ports == digital, "%s: %d digital inputs instead of %d", what, chain.num_digital_input_ports, digital)
    outs = sum(model.outs(b) for b, name in enumerate(model.names) if name[0] == "A")
    expect(chain.num_digital_output_ports == outs, "%s: %d digital outputs instead of %d", what, chain.num_digital_output_ports, outs)
    realization = chain.realize(RATE, 1, CARRIER)
    results = []
    if digital:
        x = samples(digital, n)
        s = Signal.Create(x.copy(), RATE, 0.0)
        for _ in range(2):
            got = np.asarray(chain.transmit(s, realization))
            want = model.transmit(x)
            expect(got.shape == want.shape, "%s: transmits %s instead of %s samples", what, got.shape, want.shape)
            expect(np.allclose(got, want, atol=1e-12), "%s: transmitted samples %s instead of %s", what, got.round(3).tolist(), want.round(3).tolist())
        expect(np.array_equal(np.asarray(s), x), "%s: transmitting modifies the digital samples", what)
        results.append(want)
    if outs:
        x = samples(model.rf_inputs, n, 1)
        s = Signal.Create(x.copy(), RATE, CARRIER)
        for _ in range(2):
            got = np.asarray(chain.receive(s, realization))
            want = model.receive(x)
            expect(got.shape == want.shape, "%s: receives %s instead of %s samples", what, got.shape, want.shape)
            expect(np.allclose(got, want, atol=1e-12), "%s: received samples %s instead of %s", what, got.round(3).tolist(), want.round(3).tolist())
        expect(np.array_equal(np.asarray(s), x), "%s: receiving modifies the impinging samples", what)
        results.append(want)
    return results


def wire(refs, wires, grouped, swap):
    """Connect the wires in order; grouped connections of the same blocks at once."""
    chain = refs[0]
    groups = []
    for a, o, b, i in wires:
        if grouped and groups and groups[-1][0] == a and groups[-1][2] == b:
            groups[-1][1].append(o)
            groups[-1][3].append(i)
        else:
            groups.append((a, [o], b, [i]))
    for a, o, b, i in groups:
        x, y = refs[1][a].port("o"), refs[1][b].port("i")
        x, y = select(x, o), select(y, i)
        chain.connect(*((y, x) if swap else (x, y)))


def select(reference, indices):
    if len(indices) == 1:
        return reference[indices[0] : indices[0] + 1]
    step = indices[1] - indices[0] if len(indices) == 2 else 1
    stop = indices[-1] + (1 if step > 0 else -1)
    return reference[indices[0] : (None if stop < 0 else stop) : step]


def groupable(wires):
    """Ports of grouped wires must form slices."""
    last = None
    run = []
    for w in wires + [None]:
        if w is not None and last is not None and (w[0], w[2]) == (last[0], last[2]):
            run.append(w)
        else:
            if len(run) > 2 or (len(run) == 2 and (run[0][1] == run[1][1] or run[0][3] == run[1][3])):
                return False
            run = [w]
        last = w
    return True


def check_wiring(acc, names, first, depth):
    """All connections up to a depth, starting with a given one."""
    def explore(wires):
        model = Model(names)
        model.wires = wires
        for grouped, swap in ((False, len(wires) % 2 == 1), (True, False)):
            if grouped and not groupable(wires):
                continue
            chain, refs = build(names)
            wire((chain, refs), wires, grouped, swap)
            for b, r in enumerate(refs):
                expect(list(r.open_input_ports) == model.open_in(b), "open inputs %s of block %d instead of %s", r.open_input_ports, b, model.open_in(b))
                expect(r.num_connected_input_ports == model.ins(b) - len(model.open_in(b)), "number of connected inputs of block %d", b)
            compare(chain, model, "%s %s" % ("+".join(names), wires))
            acc.step(2)
        if len(wires) in (1, depth):
            restored = roundtrip(chain)
            compare(restored, model, "restored %s %s" % ("+".join(names), wires))
            acc.step()
        acc.state(names, tuple(wires))
        if len(wires) < depth:
            for w in list(model.options()):
                # Independent wires commute: only the order of wires between the same pair of blocks and ascending inputs
                if not wires or w[2:] > wires[-1][2:] or w[0] == wires[-1][0] and w[2] == wires[-1][2]:
                    explore(wires + [w])

    explore([first] if first else [])


def check_invalid(acc, names, wires):
    """Rejected connections leave the chain as it is."""
    model = Model(names)
    model.wires = list(wires)
    chain, refs = build(names)
    wire((chain, refs), wires, False, False)
    attempts = []
    for a, b in itertools.product(range(len(names)), repeat=2):
        for pa, pb in itertools.product("io", repeat=2):
            try:
                x, y = refs[a].port(pa), refs[b].port(pb)
            except AttributeError:
                continue
            if pa == pb or x.num_ports != y.num_ports:
                attempts.append((x, y))
    for x, y in attempts:
        try:
            chain.connect(x, y)
        except ValueError:
            acc.step()
            continue
        raise AssertionError("connected invalid ports")
    for r in refs:
        for missing in ("q", "seed"):
            try:
                r.port(missing)
            except AttributeError:
                continue
            raise AssertionError("port %s exists" % missing)
    compare(chain, model, "after rejected connections")
    acc.state(names, tuple(wires), "invalid")


def propagate(block, x, oversampling=1, carriers=None, filter=True):
    r = block.realize(RATE, oversampling, CARRIER)
    s = RFSignal.FromNDArray(x.copy(), RATE * oversampling, np.full(x.shape[0], 0.0) if carriers is None else np.asarray(carriers, float))
    out = block.propagate(r, s, filter)
    expect(np.array_equal(np.asarray(s), x), "propagation modifies its input")
    return np.asarray(out), out


def check_filter(acc, n, oversampling, streams):
    """The anti-aliasing filter keeps lengths, is linear and passes the block's bandwidth only."""
    block = DAC(num_ports=streams)
    a, b = samples(streams, n, 1), samples(streams, n, 2)
    ya, yb = propagate(block, a, oversampling)[0], propagate(block, b, oversampling)[0]
    expect(ya.shape == a.shape, "%d samples filtered to %s", n, ya.shape)
    z = propagate(block, a - 2j * b, oversampling)[0]
    expect(np.allclose(z, ya - 2j * yb, atol=1e-9 * max(1.0, np.abs(z).max(initial=0))), "filtering isn't linear")
    if streams > 1 and n:
        alone = propagate(DAC(), a[1:2], oversampling)[0]
        expect(np.allclose(ya[1:2], alone, atol=1e-9), "filtered streams interact")
    acc.step(3)
    if n == 60 and oversampling > 2:
        t = np.arange(400)
        for k in range(-10, 11):
            f = 0.05 * k  # cycles per sample
            y = propagate(DAC(), np.exp(2j * np.pi * f * t)[None, :], oversampling)[0][0, 150:250]
            level = np.sqrt(np.mean(np.abs(y) ** 2))
            if abs(f) <= 0.9 * 0.5 / oversampling:
                expect(abs(level - 1) < 0.02, "tone within the bandwidth at %g is scaled by %g", f, level)
            elif abs(f) >= 0.3:
                expect(level < 0.01, "tone out of the bandwidth at %g is scaled by %g", f, level)
            acc.step()
    acc.state(n, oversampling, streams)


def check_mixing(acc, f0, lo, ideal):
    """Mixing up and down again returns to the initial carrier."""
    x = samples(1, 7)
    carrier = f0
    if ideal:
        up, down = IdealMixer(MixerType.UP, lo), IdealMixer(MixerType.DOWN, lo)
        y, s = propagate(up, x, carriers=[carrier])
        want = carrier + (lo or CARRIER)
        expect(s.carrier_frequencies[0] == want and s.carrier_frequency == want, "mixed up to %s instead of %s", s.carrier_frequencies, want)
        z, s = propagate(down, y, carriers=s.carrier_frequencies)
    else:
        lo_x = np.full((1, 7), np.exp(0.3j))
        y, s = propagate(Mixer(MixerType.UP), np.concatenate([x, lo_x]), carriers=[carrier, lo])
        expect(s.carrier_frequencies.tolist() == [carrier + lo] and y.shape == x.shape, "mixed up to %s", s.carrier_frequencies)
        expect(np.allclose(y, x * np.exp(0.3j)), "samples mixed up")
        z, s = propagate(Mixer(MixerType.DOWN), np.concatenate([y, lo_x]), carriers=[carrier + lo, lo])
    expect(z.shape == x.shape and np.allclose(z, x), "samples after mixing up and down")
    expect(s.carrier_frequencies.tolist() == [carrier] and s.carrier_frequency == carrier, "carrier %s after mixing up and down instead of %s", s.carrier_frequencies, carrier)
    acc.step(2)
    acc.state(f0, lo, ideal)


def check_noise(acc, kind, power, n):
    """Block noise is added to the samples, once per realization, scaled by the noise power."""
    make = {"DAC": lambda p: DAC(num_ports=2, noise_level=N0(p), seed=4), "ADC": lambda p: ADC(num_ports=2, noise_level=N0(p), seed=4), "Shift": lambda p: Shift(0.0, num_ports=2, noise_level=N0(p), seed=4)}[kind]
    x, y = samples(2, n, 1), samples(2, n, 2)

    def run(block, r, v):
        return np.asarray(block.propagate(r, RFSignal.FromNDArray(v.copy(), RATE, np.zeros(2))))

    block = make(power)
    r1, r2 = block.realize(RATE, 1, CARRIER), block.realize(RATE, 1, CARRIER)
    n1 = run(block, r1, x) - x
    expect(np.allclose(run(block, r1, x) - x, n1, atol=1e-12), "a realization adds different noise")
    expect(np.allclose(run(block, r1, y) - y, n1, atol=1e-9), "noise depends on the signal")
    n2 = run(block, r2, x) - x
    if power:
        expect(not np.allclose(n1, n2), "two realizations add equal noise")
        twin = make(4 * power)
        expect(np.allclose(run(twin, twin.realize(RATE, 1, CARRIER), x) - x, 2 * n1, rtol=1e-9), "noise doesn't scale with its power")
        expect(0.3 * power * RATE < np.mean(np.abs(n1) ** 2) < 3 * power * RATE or n < 30, "noise power %g instead of %g", np.mean(np.abs(n1) ** 2), power * RATE)
    else:
        expect(not n1.any() and not n2.any(), "noise without noise level")
    acc.step(4)
    acc.state(kind, power, n)


def check_source(acc, amplitude, noisy, n):
    block = Source(CARRIER, OscillatorPhaseNoise(1e-9, 1.0, 10.0, seed=3) if noisy else NoPhaseNoise(), amplitude, seed=1)
    r = block.realize(RATE, 1, 5.0)
    s = RFSignal(0, n, RATE)
    a, b = block.propagate(r, s), block.propagate(r, s)
    expect(np.asarray(a).shape == (1, n) and a.carrier_frequencies.tolist() == [CARRIER], "source of shape %s at %s", a.shape, a.carrier_frequencies)
    expect(np.allclose(np.abs(np.asarray(a)), amplitude, rtol=1e-12), "amplitude of the source")
    expect(np.array_equal(np.asarray(a), np.asarray(b)), "a realization generates different samples")
    expect(noisy == (not np.allclose(np.asarray(a), amplitude, atol=1e-9)), "phase noise of the source")
    if noisy:
        c = block.propagate(block.realize(RATE, 1, 5.0), s)
        expect(not np.allclose(np.asarray(a), np.asarray(c)), "realizations of phase noise are equal")
    own = Source().realize(RATE, 1, 5.0)
    expect(own.carrier_frequency == 5.0, "default carrier of the source")
    acc.step(3)
    acc.state(amplitude, noisy, n)


PORTED = {
    "DAC": lambda n: DAC(num_ports=n), "ADC": lambda n: ADC(num_ports=n), "Shift": lambda n: Shift(0.5, num_ports=n), "Split": lambda n: Split(n), "Sum": lambda n: Sum(n),
    "PowerAmplifier": lambda n: PowerAmplifier(1.0), "HPF": lambda n: HPF(1.0), "Mixer": lambda n: Mixer(MixerType.UP), "IdealMixer": lambda n: IdealMixer(MixerType.UP, 1.0),
    "Source": lambda n: Source(), "X4": lambda n: X4(),
}


def check_ports(acc, kind, n):
    """The named ports of a block are its input and output ports, each exactly once."""
    block = PORTED[kind](n)
    found = {RFBlockPortType.IN: [], RFBlockPortType.OUT: []}
    for name, direction in (("i", RFBlockPortType.IN), ("lo", RFBlockPortType.IN), ("o", RFBlockPortType.OUT)):
        named = getattr(block, name, None)
        if not isinstance(named, RFBlockPort):
            continue
        expect(named.block is block and named.port_type is direction, "port %s of type %s", name, named.port_type)
        expect(named.num_ports == len(named.port_indices), "port %s of %s ports for %s", name, named.num_ports, named.port_indices)
        found[direction] += named.port_indices
        for first in range(named.num_ports):
            expect(named[first].port_indices == [named.port_indices[first]] and named[first].port_type is direction and named[first].block is block, "selected port %s of %s", first, name)
            for last in range(first, named.num_ports + 1):
                expect(named[first:last].port_indices == named.port_indices[first:last], "selected ports %s to %s of %s", first, last, name)
                acc.step(1)
    for direction, count in ((RFBlockPortType.IN, block.num_input_ports), (RFBlockPortType.OUT, block.num_output_ports)):
        if found[direction]:
            expect(sorted(found[direction]) == list(range(count)), "ports %s named of %s %s ports", found[direction], count, direction)
    expect(found[RFBlockPortType.IN] or found[RFBlockPortType.OUT], "no ports named")
    acc.state(kind, n)


def run_cases(acc, shard):
    for kind, *args in shard:
        fn = {"wiring": check_wiring, "invalid": check_invalid, "filter": check_filter, "mixing": check_mixing, "noise": check_noise, "source": check_source, "ports": check_ports}[kind]
        acc.run("rf/%s/%s" % (kind, "+".join(args[0]) if kind == "wiring" else ""), lambda: fn(acc, *args), {"kind": kind, "arguments": [str(a) for a in args]})


SETS = [("D1", "PA"), ("D2", "Y2"), ("D2", "S2"), ("S2", "D2"), ("D2", "P2", "PA"), ("D1", "Y2", "P2"), ("D2", "S2", "P2"), ("D1", "D1", "S2"), ("Y3", "D1", "PA"), ("D1", "L", "P2"),
        ("A1", "PA"), ("A2", "Y2"), ("S2", "A2"), ("A2", "S2"), ("P2", "PA", "A1"), ("A2", "A1", "Y3"), ("S2", "P2", "A1"), ("L", "P2", "A1"), ("PA", "A1", "A1"),
        ("D1", "PA", "A1"), ("D2", "A2", "S2"), ("D2", "PA", "PA", "A2"), ("D1", "Y2", "A1", "P2")]
DEEP = [("D2", "S2", "Y2", "P2"), ("D2", "Y3", "P2", "PA"), ("S2", "Y2", "P2", "A2"), ("D2", "S2", "S2", "A2"), ("D1", "Y3", "S2", "P2", "A1")]


def main(check):
    t = check.thorough
    cases = []
    for names in SETS + (DEEP if t else DEEP[:2]):
        depth = (4 if t else 3) if len(names) < 4 else 3
        model = Model(names)
        cases.append(("wiring", names, None, 0))
        for first in model.options():
            cases.append(("wiring", names, first, depth))
    for names in SETS:
        options = list(Model(names).options())
        cases.append(("invalid", names, ()))
        cases += [("invalid", names, (o,)) for o in options]
    for n in list(range(0, 60 if not t else 130)) + [60, 200]:
        for oversampling in (1, 2, 3, 4, 8):
            cases.append(("filter", n, oversampling, 1 + n % 3))
    for f0 in (0.0, 5.0, 1e6):
        for lo in (0.0, 7.0, 1e9):
            cases += [("mixing", f0, lo, ideal) for ideal in (False, True)]
    for kind in ("DAC", "ADC", "Shift"):
        cases += [("noise", kind, p, n) for p in (0.0, 1e-6, 0.5, 3.0) for n in (1, 2, 7, 60)]
    cases += [("source", a, noisy, n) for a in (0.25, 1.0, 3.0) for noisy in (False, True) for n in (1, 2, 9)]
    cases += [("ports", k, n) for k in PORTED for n in (1, 2, 3, 4)]
    check.explore(run_cases, chunks(cases, 128), case_timeout=120)
    check.bounds = {"blocks": 5 if t else 4, "connections": 4 if t else 3, "cases": len(cases), "filtered samples": "0..59, 60, 200"}
    check.assumptions = ["connections are free of loops and each input port is connected once"]
