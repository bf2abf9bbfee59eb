"""P30: swept parameters reach every considered object and the drops evaluated for their section."""
from mc import fakeray

fakeray.patch()

import io
import itertools
from functools import reduce

import numpy as np
from rich.console import Console

from hermespy.channel import IdealChannel
from hermespy.core import AntennaMode, ConsoleMode, LogarithmicSequence, Reception, Transformation, ValueType, dB
from hermespy.core.pymonte import evaluation as _ev
from hermespy.core.pymonte.artifact import Artifact
from hermespy.core.pymonte.grid import GridDimension, RegisteredDimension, SamplePoint, ScalarDimension, register
from hermespy.core.pymonte.monte_carlo import MonteCarlo
from hermespy.core.signal_model import Signal
from hermespy.simulation import N0, SNR, LinearTrajectory, Simulation, SimulatedCustomArray, SimulatedIdealAntenna, StaticTrajectory
from .p20 import Listener, Sender, samples
from ..core import chunks, expect, histories


# --- dimensions of synthetic objects -------------------------------------------------------------------

class Level(ScalarDimension):
    def __init__(self, owner):
        self.owner, self.scalar = owner, None

    def __lshift__(self, scalar):
        self.scalar = scalar
        self.owner.log.append(("scalar", scalar))

    @property
    def title(self):
        return "Level"


NOTHING = "unregistered"


def make_class(impacts, title=None):
    class Thing:
        def __init__(self):
            self.log = []
            self._v = "initial"
            self._level = Level(self)
            self._child = None

        def _get(self):
            return self._v

        def _set(self, v):
            self._v = v
            self.log.append(("set", v))

        def _get_level(self):
            return self._level

        def _set_level(self, v):
            self._level = v
            self.log.append(("level", v))

        def method(self, v):
            self.log.append(("method", v))

        @property
        def child(self):
            return self._child

        @child.setter
        def child(self, c):
            self._child = c

        if impacts == NOTHING:
            value = property(_get, _set)
            level = property(_get_level, _set_level)
        else:
            value = register(first_impact=impacts[0], last_impact=impacts[1], title=title)(property(_get)).setter(_set)
            level = register(first_impact=impacts[0], last_impact=impacts[1], title=title)(property(_get_level)).setter(_set_level)

    return Thing


IMPACTS = [NOTHING, (None, None), ("a", "b"), ("a", "c"), ("a", None), (None, "b"), ("c", "b")]
CLASSES = {(i, t): make_class(i, t) for i in IMPACTS for t in ((None,) if i == NOTHING else (None, "Registered"))}


def tree(thing, depth):
    """An object which holds the considered object at the end of a path."""
    for _ in range(depth):
        parent = CLASSES[(NOTHING, None)]()
        parent.child = thing
        thing = parent
    return thing


class Marker:
    """An object as a sample point."""


MARKERS = [Marker(), Marker(), Marker()]
POINTS = {
    "list": [1.5, -2.0, 7.0],
    "tuple": (1.5, -2.0, 7.0),
    "range": range(3),
    "array": np.array([1.0, 2.0, 0.5]),
    "log": dB(3.0, -1.0, 10.0),
    "objects": MARKERS,
    "points": [SamplePoint(2.0, "two"), SamplePoint(5.0, "five"), SamplePoint(-1.0)],
    "mixed": [SamplePoint(2.0, "two"), 5.0, np.float64(3.0)],
    "marked": [SamplePoint(MARKERS[0], "first"), MARKERS[1], SamplePoint(MARKERS[2])],
    "words": ["x", "y", "z"],
    "partial": [1.0, MARKERS[0], 2.0],
    "none": [None, 1.0, None],
    "lists": [[1, 2], [3, 4], [5, 6]],
}


def values_of(points):
    return [p.value if isinstance(p, SamplePoint) else p for p in points]


def is_value(a, b):
    if isinstance(b, Marker) or b is None:
        return a is b
    return type(a) is type(b) and a == b


def configure(acc, attribute, points, depth, count, form, ops):
    """Configuring a sample point configures all considered objects with exactly this value."""
    things = [CLASSES[(("a", "b"), None)]() if attribute != "plain" else CLASSES[(NOTHING, None)]() for _ in range(count)]
    name = {"plain": "value"}.get(attribute, attribute)
    roots = [tree(t, depth) for t in things]
    path = ".".join(["child"] * depth + [name])
    considered = tuple(roots) if form == "tuple" else roots[0]
    if form == "campaign":
        mc = MonteCarlo(roots[0], 1, [], console=Console(file=io.StringIO()), console_mode=ConsoleMode.SILENT)
        dimension = mc.new_dimension(path, POINTS[points], *([] if count == 1 else roots))
        expect(mc.dimensions == [dimension], "dimension isn't added")
    else:
        dimension = GridDimension(considered, path, POINTS[points])
    expect(dimension.considered_objects == tuple(roots) and dimension.dimension == path, "considered objects")
    values = values_of(POINTS[points])
    got = [p.value for p in dimension.sample_points]
    expect(dimension.num_sample_points == 3 and all(is_value(a, b) for a, b in zip(got, values, strict=True)), "sample points %s instead of %s", got, values)
    for t in things:
        expect(t.log == [], "configuration at construction: %s", t.log)
    scalars = all(np.isscalar(v) for v in values)
    want = [[] for _ in things]
    for op in ops:
        if op == "replace":
            for i in range(count):
                if name == "level":
                    things[i]._level = Level(things[i])
                if depth > 0:
                    old = things[i]
                    things[i] = type(old)()
                    holder = reduce(lambda o, _: o.child, range(depth - 1), roots[i])
                    holder.child = things[i]
                    expect(old.log == want[i], "%s", old.log)
                    want[i] = []
        elif op in (3, -1):
            try:
                dimension.configure_point(op)
            except ValueError:
                continue
            expect(False, "index %d accepted", op)
        else:
            dimension.configure_point(op)
            kind = {"value": "set", "method": "method", "level": "scalar" if scalars else "level"}[name]
            for w in want:
                w.append((kind, values[op]))
        for i, (t, w) in enumerate(zip(things, want)):
            expect(len(t.log) == len(w) and all(a[0] == b[0] and is_value(a[1], b[1]) for a, b in zip(t.log, w)), "object %d: configurations %s instead of %s", i, t.log, w)
            if op == "replace":
                continue
            if name == "value":
                expect(is_value(t.value, w[-1][1]), "value %s", t.value)
            if name == "level" and scalars:
                expect(is_value(t.level.scalar, w[-1][1]), "level %s", t.level.scalar)
        acc.step()
    acc.state(attribute, points, depth, count, ops)


def impacts(acc, kinds, attribute):
    """Impacts are only those all considered objects agree on."""
    things = tuple(CLASSES[(k, None)]() for k in kinds)
    registered = {k for k in kinds if k != NOTHING}
    try:
        d = GridDimension(things, attribute, [1, 2])
    except ValueError:
        return expect(len(registered) > 1, "agreeing impacts rejected")
    expect(len(registered) <= 1, "diverging impacts %s accepted", kinds)
    want = (None, None) if NOTHING in kinds else registered.pop()
    expect((d.first_impact, d.last_impact) == want, "impacts %s instead of %s", (d.first_impact, d.last_impact), want)
    acc.step()


def titles(acc, points, attribute, registered, title, scale, tick):
    thing = CLASSES[(("a", "b"), registered)]()
    d = GridDimension(thing, attribute, POINTS[points], **{k: v for k, v in [("title", title), ("plot_scale", scale), ("tick_format", tick)] if v is not None})
    is_log = isinstance(POINTS[points], LogarithmicSequence)
    scalars = all(np.isscalar(v) for v in values_of(POINTS[points]))
    want = title or ("Level" if attribute == "level" and scalars else (registered if attribute != "method" else None) or attribute)
    expect(d.title == want, "title %r instead of %r", d.title, want)
    expect(d.plot_scale == (scale or ("log" if is_log else "linear")), "scale %s", d.plot_scale)
    expect(d.tick_format == (tick or (ValueType.DB if is_log else ValueType.LIN)), "ticks %s", d.tick_format)
    acc.step()


def accessors(acc, steps, where):
    """Every chain of accessor decorators keeps registration and previous accessors."""
    log = []
    class Base:
        pass

    def getter(k):
        return lambda self: log.append(("get", k)) or k

    def setter(k):
        return lambda self, v: log.append(("set", k, v))

    def deleter(k):
        return lambda self: log.append(("del", k))

    def initial(self):
        """Documented."""
        log.append(("get", "initial"))
        return "initial"

    p = register(first_impact="f", last_impact="l", title="t")(property(initial))
    current = {"get": "initial", "set": None, "del": None}
    for k, s in enumerate(steps):
        q = p
        p = {"get": lambda: q.getter(getter(k)), "set": lambda: q.setter(setter(k)), "del": lambda: q.deleter(deleter(k))}[s]()
        current[s] = k
        expect(q is not p, "property modified in place")
    Base.attribute = p
    C = type("C", (Base,), {}) if where == "subclass" else Base
    registered = getattr(C, "attribute")
    expect(RegisteredDimension.is_registered(registered) and (registered.first_impact, registered.last_impact, registered.title) == ("f", "l", "t"), "registration of %s", steps)
    if current["get"] == "initial":
        expect(registered.__doc__ == "Documented.", "documentation %r", registered.__doc__)
    o = C()
    for kind, f in [("get", lambda: o.attribute), ("set", lambda: setattr(o, "attribute", 7)), ("del", lambda: delattr(o, "attribute"))]:
        log.clear()
        if current[kind] is None:
            try:
                f()
            except AttributeError:
                continue
            expect(False, "%s accepted", kind)
        f()
        expect(log == [(kind, current[kind]) + ((7,) if kind == "set" else ())], "%s calls %s instead of accessor %s", kind, log, current[kind])
        acc.step()
    d = GridDimension(o, "attribute", [1, 2]) if current["set"] is not None else None
    if d is not None:
        expect((d.first_impact, d.last_impact, d.title) == ("f", "l", "t"), "dimension")
        log.clear()
        d.configure_point(1)
        expect(("set", current["set"], 2) in log, "configured by %s", log)


def invalid(acc):
    thing = CLASSES[(("a", "b"), None)]()
    for f in [lambda: GridDimension(thing, "missing", [1]), lambda: GridDimension(thing, "child.value", [1]), lambda: GridDimension(thing, "value", []), lambda: GridDimension((thing, object()), "value", [1]), lambda: GridDimension(thing, "value", ()), lambda: GridDimension(thing, "value.value", [1])]:
        try:
            f()
        except ValueError:
            acc.step()
            continue
        expect(False, "invalid dimension accepted")


GRID_OPS = [("add", 0), ("add", 1), ("remove", 0), ("remove", 1), ("new", None), ("foreign", None)]


def grid(acc, ops):
    """Dimensions of a campaign are those added and not removed, in order."""
    thing = CLASSES[(("a", "b"), None)]()
    mc = MonteCarlo(thing, 1, [], console=Console(file=io.StringIO()), console_mode=ConsoleMode.SILENT)
    dims = [GridDimension(thing, "value", [1, 2]), GridDimension(thing, "level", [1, 2, 3])]
    want = []
    for op, k in ops:
        error = None
        try:
            if op == "add":
                mc.add_dimension(dims[k])
            elif op == "remove":
                mc.remove_dimension(dims[k])
            elif op == "new":
                want.append(mc.new_dimension("value", [3, 4]))
            else:
                mc.dimensions.append(dims[0])
        except ValueError as e:
            error = e
        if op == "add":
            expect((error is not None) == (dims[k] in want), "addition: %s", error)
            if error is None:
                want.append(dims[k])
        elif op == "remove":
            expect((error is not None) == (dims[k] not in want), "removal: %s", error)
            if error is None:
                want.remove(dims[k])
        else:
            expect(error is None, "%s", error)
        expect(len(mc.dimensions) == len(want) and all(a is b for a, b in zip(mc.dimensions, want)), "dimensions of the grid")
        acc.step()


# --- campaigns on real simulations -----------------------------------------------------------------------

class Pulse:
    def __init__(self, phase):
        self.phase = phase


class Source(Sender):
    def __init__(self):
        Sender.__init__(self, None, None)
        self._amplitude, self.pulse_ = 1.0, Pulse(0.0)

    @property
    def pulse(self):
        return self.pulse_

    @property
    def amplitude(self):
        return self._amplitude

    @amplitude.setter
    def amplitude(self, v):
        self._amplitude = v

    def set_amplitude(self, v):
        self._amplitude = 10 * v

    def _transmit(self, state, duration):
        x = samples(1, 5) * self._amplitude * np.exp(1j * self.pulse_.phase)
        self.signal = Signal.Create(x, state.sampling_rate, 0.0)
        return Sender._transmit(self, state, duration)


# attributes of plain instances can't be swept, so the phase is a property
Pulse.phase = property(lambda self: self._phase, lambda self, v: setattr(self, "_phase", v))


class Sink(Listener):
    def _receive(self, signal, state):
        self.seen = (np.asarray(signal.to_dense()).copy(), signal.noise_power, state.carrier_frequency, signal.sampling_rate, np.array(state.position), state.timestamp)
        return Reception(signal)


class Snapshot(Artifact):
    def __init__(self, seen):
        self.seen = seen

    def __str__(self):
        return "snapshot"

    def to_scalar(self):
        return None


class Eval(_ev.Evaluation):
    def __init__(self, seen):
        _ev.Evaluation.__init__(self)
        self.seen = seen

    def artifact(self):
        return Snapshot(self.seen)

    def _prepare_visualization(self, *a, **k):
        raise NotImplementedError

    def _update_visualization(self, *a, **k):
        raise NotImplementedError


class Result(_ev.EvaluationResult):
    def __init__(self, grid, evaluator):
        _ev.EvaluationResult.__init__(self, grid, evaluator)
        self.got = {}

    @property
    def title(self):
        return "result"

    def add_artifact(self, coordinates, artifact, compute_confidence=True):
        self.got.setdefault(tuple(int(c) for c in coordinates), []).append(artifact.seen)
        return False

    def runtime_estimates(self):
        return None

    def to_array(self):
        return np.zeros([d.num_sample_points for d in self.grid])


class Probe(_ev.Evaluator):
    def __init__(self, sink):
        _ev.Evaluator.__init__(self)
        self.sink = sink

    def evaluate(self):
        return Eval(self.sink.seen)

    @property
    def abbreviation(self):
        return "P"

    title = abbreviation

    def initialize_result(self, grid):
        return Result(grid, self)


RATE = 8.0
START = {"amplitude": 1.0, "phase": 0.0, "gain": 1.0, "power": 1.0, "noise": 1e-12 * RATE, "carrier": 1e9, "rate": RATE, "position": np.zeros(3)}


def pose(x):
    return Transformation.From_Translation(np.array([x, 2.0, 0.0]))


# name: (path, points, considered objects, configured values)
SWEEPS = {
    "amplitude": lambda w: ("amplitude", [2.0, 3.0], ("source",), lambda m, v: m.update(amplitude=v)),
    "method": lambda w: ("set_amplitude", [2.0, 3.0], ("source",), lambda m, v: m.update(amplitude=10 * v)),
    "nested": lambda w: ("pulse.phase", [0.5, 1.5], ("source",), lambda m, v: m.update(phase=v)),
    "gain": lambda w: ("gain", [4.0, 0.25], ("channel",), lambda m, v: m.update(gain=v)),
    "gain dB": lambda w: ("gain", dB(3.0, -7.0), ("channel",), lambda m, v: m.update(gain=10 ** (v.value_db / 10))),
    "power": lambda w: ("power", [4.0, 9.0], ("a",), lambda m, v: m.update(power=v)),
    "device noise": lambda w: ("noise_level", dB(-100, -90.0), ("b",), lambda m, v: m.update(noise=10 ** (v.value_db / 10) * m["rate"])),
    "noise points": lambda w: ("noise_level", [SamplePoint(dB(-100), "low"), SamplePoint(dB(-90.0), "high")], ("b",), lambda m, v: m.update(noise=float(v) * m["rate"])),
    "noise objects": lambda w: ("noise_level", [N0(1e-10), N0(1e-9)], ("b",), lambda m, v: m.update(noise=v.power * m["rate"])),
    "scenario noise": lambda w: ("noise_level", [N0(2e-10), N0(3e-9)], ("scenario",), lambda m, v: m.update(noise=v.power * m["rate"])),
    "carrier": lambda w: ("carrier_frequency", [2e9, 3e9], ("a", "b"), lambda m, v: m.update(carrier=v)),
    "rate": lambda w: ("bandwidth", [4.0, 16.0], ("a", "b"), lambda m, v: m.update(noise=m["noise"] / m["rate"] * v, rate=v)),
    "position": lambda w: ("trajectory", [StaticTrajectory(pose(1.0)), StaticTrajectory(pose(5.0))], ("b",), lambda m, v: m.update(position=v.sample(0.0).pose.translation)),
    "threefold": lambda w: ("amplitude", (1.0, 5.0, 7.0), ("source",), lambda m, v: m.update(amplitude=v)),
}


class World:
    def __init__(self, motion, num_samples, num_actors, interval):
        self.simulation = Simulation(console_mode=ConsoleMode.SILENT, num_samples=num_samples, num_actors=num_actors, seed=3, dump_results=False, **({} if interval is None else {"drop_interval": interval}))
        self.scenario = self.simulation.scenario
        array = lambda: SimulatedCustomArray([SimulatedIdealAntenna(AntennaMode.DUPLEX)])
        self.a, self.b = (self.simulation.new_device(antennas=array(), carrier_frequency=1e9, bandwidth=RATE, oversampling_factor=1) for _ in range(2))
        self.b.noise_level = N0(1e-12)
        self.channel = IdealChannel(1.0)
        self.simulation.set_channel(self.a, self.b, self.channel)
        self.source, self.sink = Source(), Sink(None)
        self.a.transmitters.add(self.source)
        self.b.receivers.add(self.sink)
        self.times = [0.0]
        if motion:
            self.trajectory = LinearTrajectory(pose(0.0), pose(10.0), motion)
            self.b.trajectory = self.trajectory
            step = float("inf") if interval is None else interval
            self.times = [0.0]
            while self.times[-1] + step < motion - 1e-9:
                self.times.append(self.times[-1] + step)
        self.probe = Probe(self.sink)
        self.simulation.add_evaluator(self.probe)


def campaign(acc, sweeps, num_samples, num_actors, batch, motion, interval):
    w = World(motion, num_samples, num_actors, interval)
    if batch is not None:
        w.simulation.batch_size = batch
    dims = []
    for s in sweeps:
        path, points, objects, effect = SWEEPS[s](w)
        dims.append((w.simulation.new_dimension(path, points, *[getattr(w, o) for o in objects]), effect))
    rt = fakeray.Runtime({}, "rr", False, max_points=200000)
    result = rt.run(lambda: w.simulation.run())
    expect(not rt.errors, "remote errors %s", rt.errors[:1])
    grid = result.evaluation_results[0].grid
    got = result.evaluation_results[0].got
    effects = []
    for d in grid:
        match = [e for x, e in dims if x.dimension == d.dimension and [p.title for p in x.sample_points] == [p.title for p in d.sample_points]]
        expect(len(match) == 1, "grid dimension %s", d.dimension)
        effects.append(match[0])
    sections = list(itertools.product(*[range(d.num_sample_points) for d in grid]))
    expect(set(got) == set(sections), "sections %s", sorted(got))
    for section in sections:
        m = dict(START)
        order = sorted(range(len(section)), key=lambda i: grid[i].dimension == "bandwidth")
        for i in order:
            effects[i](m, grid[i].sample_points[section[i]].value)
        x = np.sqrt(m["gain"] * m["power"]) * m["amplitude"] * np.exp(1j * m["phase"]) * samples(1, 5)
        expect(len(got[section]) == num_samples * len(w.times), "%d drops in section %s instead of %d", len(got[section]), section, num_samples * len(w.times))
        times = sorted(seen[5] for seen in got[section])
        expect(np.allclose(times, sorted(w.times * num_samples)), "drops at %s instead of %s", times, w.times)
        for y, noise, carrier, rate, position, time in got[section]:
            what = "section %s" % (section,)
            expect(y.shape == x.shape and np.allclose(y, x, atol=1e-3), "%s: received samples %s instead of %s", what, y, x)
            expect(np.isclose(noise, m["noise"]), "%s: noise power %g instead of %g", what, noise, m["noise"])
            expect(carrier == m["carrier"] and rate == m["rate"], "%s: carrier %s, rate %s", what, carrier, rate)
            p = w.trajectory.sample(time).pose.translation if motion and "position" not in sweeps else m["position"]
            expect(np.allclose(position, p), "%s: position %s instead of %s at %s", what, position, p, time)
        noises = [tuple((s[0] - x).flat) for s in got[section]]
        expect(len(set(noises)) == len(noises), "repeated noise in section %s", section)
        acc.step(len(got[section]))
    acc.state(sweeps, num_samples, num_actors, batch, motion, interval)


CASES = {"configure": configure, "impacts": impacts, "titles": titles, "accessors": accessors, "invalid": invalid, "grid": grid, "campaign": campaign}


def run_cases(acc, cases):
    for case in cases:
        acc.run(case[0], lambda case=case: CASES[case[0]](acc, *case[1:]), [str(c) for c in case])


def main(check):
    t = check.thorough
    cases = [("invalid",)]
    for attribute in ("value", "plain", "level", "method"):
        for points in POINTS:
            for depth in (0, 1, 2):
                for count, form in [(1, "single"), (1, "tuple"), (2, "tuple"), (3, "tuple"), (1, "campaign"), (2, "campaign")]:
                    long = (count, form) == (2, "tuple") and points in ("list", "log", "points")
                    for ops in histories([0, 1, 2, "replace", 3, -1], (4 if t else 3) if long else 2, 1):
                        if len(ops) > 2 and (3 in ops or -1 in ops):
                            continue
                        cases.append(("configure", attribute, points, depth, count, form, ops))
    for n in (1, 2, 3):
        cases += [("impacts", k, a) for k in itertools.product(IMPACTS, repeat=n) for a in ("value", "level")]
    cases += [("titles", p, a, r, title, scale, tick) for p in POINTS for a in ("value", "level", "method") for r in (None, "Registered") for title in (None, "Custom") for scale in (None, "log", "linear") for tick in (None, ValueType.DB, ValueType.LIN)]
    cases += [("accessors", s, where) for n in range(5) for s in itertools.product(("get", "set", "del"), repeat=n) for where in ("class", "subclass")]
    cases += [("grid", ops) for ops in histories(GRID_OPS, 4 if not t else 5, 1)]
    names = list(SWEEPS)
    clash = lambda s: len({SWEEPS[x](None)[0].replace("set_amplitude", "amplitude") for x in s}) < len(s)
    for n in (0, 1, 2) + ((3,) if t else ()):
        for s in itertools.permutations(names, n):
            if clash(s) or (n == 2 and not t and s[0] > s[1] and "rate" not in s and "carrier" not in s):
                continue
            cases.append(("campaign", s, 1, 1, None, None, None))
            if n == 1 or t:
                cases += [("campaign", s, k, a, b, None, None) for k in (1, 2) for a in (1, 2) for b in (1, 3)]
    for motion, interval in [(3.0, 1.0), (3.0, None), (2.5, 1.0), (1.0, 0.25), (0.5, 2.0)]:
        cases += [("campaign", s, k, a, None, motion, interval) for s in [(), ("gain",), ("device noise", "gain"), ("position",)] for k in (1, 2) for a in (1, 2)]
    check.explore(run_cases, chunks(cases, 256), case_timeout=120)
    check.bounds = {"cases": len(cases), "sample points": 3, "path depth": 2, "considered objects": 3, "campaign dimensions": 3 if t else 2}
    check.assumptions = ["paths swept in a campaign aren't replaced by another dimension of the same campaign; remote calls run on the controlled stand-in for ray under its fair schedule"]
