"""P28: hardware loops generate, evaluate, record, replay and visualize every configured drop exactly once and in order."""
import itertools
import os
import shutil
import signal
import tempfile
import threading

import matplotlib

matplotlib.use("Agg")
import matplotlib.pyplot as plt
import numpy as np
from scipy.io import loadmat

import hermespy.core.pymonte.evaluation as _ev
import hermespy.hardware_loop.hardware_loop as hl
from hermespy.core import ConsoleMode, ScenarioMode, dB
from hermespy.hardware_loop import HardwareLoop, HardwareLoopPlot, IterationPriority, PhysicalScenarioDummy
from hermespy.hardware_loop.hardware_loop import HardwareLoopSample, PlotThread, ThreadContextManager
from hermespy.modem import BitErrorEvaluator, DuplexModem, RootRaisedCosineWaveform
from hermespy.simulation import N0
from ..core import chunks, expect

POINTS = {"carrier_frequency": [1e9, 2e9, 3e9], "bandwidth": [1e6, 2e6, 3e6], "noise_level": [N0(0.0), N0(1.0), N0(2.0)]}


class Artifact(_ev.Artifact):
    def __init__(self, seen):
        self.seen = seen

    def __str__(self):
        return str(self.seen)

    def to_scalar(self):
        return None


class Eval(_ev.Evaluation):
    def __init__(self, seen):
        self.seen = seen

    def artifact(self):
        return Artifact(self.seen)

    @property
    def title(self):
        return "evaluation"

    def _prepare_visualization(self, figure, axes, **kw):
        return None

    def _update_visualization(self, *a, **k):
        return None


class Result(_ev.EvaluationResult):
    def __init__(self, grid, evaluator):
        _ev.EvaluationResult.__init__(self, grid, evaluator)
        self.got = {}

    @property
    def title(self):
        return "result"

    def add_artifact(self, coordinates, artifact, compute_confidence=True):
        self.got.setdefault(tuple(int(c) for c in coordinates), []).append(artifact.seen)
        return False

    def runtime_estimates(self):
        return None

    def to_array(self):
        out = np.zeros([d.num_sample_points for d in self.grid] or [1])
        for c, values in self.got.items():
            out[c or 0] = len(values)
        return out

    def _prepare_visualization(self, figure, axes, **kw):
        return None

    def _update_visualization(self, *a, **k):
        return None


class Probe(_ev.Evaluator):
    def __init__(self, index, world):
        _ev.Evaluator.__init__(self)
        self.index, self.world, self.results = index, world, []

    def evaluate(self):
        self.world.event("evaluate", self.index)
        return Eval((self.index, self.world.seen(), self.world.drops))

    @property
    def abbreviation(self):
        return "P%d" % self.index

    title = abbreviation

    def initialize_result(self, grid):
        self.results.append(Result(grid, self))
        return self.results[-1]


class Failure(Exception):
    pass


class World:
    """A scenario observing everything the loop does to it."""

    def __init__(self, disturbance=None):
        world = self

        class Scenario(PhysicalScenarioDummy):
            def _drop(self):
                world.drops += 1
                world.event("drop", world.seen())
                return PhysicalScenarioDummy._drop(self)

        self.events, self.drops, self.disturbance, self.calls = [], 0, disturbance, {}
        self.scenario = Scenario(seed=1)
        self.device = self.scenario.new_device(carrier_frequency=5e8, bandwidth=5e5, oversampling_factor=1)

    def seen(self):
        noise = self.scenario.noise_level
        return (self.device.carrier_frequency, self.device.bandwidth, None if noise is None else float(noise.power if hasattr(noise, "power") else noise))

    def event(self, kind, *what):
        self.events.append((kind,) + what)
        self.calls[kind] = self.calls.get(kind, 0) + 1
        if self.disturbance and self.disturbance[1:] == (kind, self.calls[kind] - 1):
            if self.disturbance[0] == "raise":
                raise Failure()
            os.kill(os.getpid(), signal.SIGINT)


def build(world, dims, num_drops, priority, **kw):
    loop = HardwareLoop(world.scenario, plot_information=False, console_mode=ConsoleMode.SILENT, iteration_priority=IterationPriority[priority], **kw)
    loop.num_drops = num_drops
    for name, n in dims:
        if name == "noise_level":
            d = loop.new_dimension(name, POINTS[name][:n])
        else:
            d = loop.new_dimension(name, POINTS[name][:n], world.device)
        expect(d.num_sample_points == n, "the dimension has %s points instead of %s", d.num_sample_points, n)
    return loop


def run(acc, case):
    """Every combination of sweep points is configured, generated, evaluated and filed as often as requested."""
    _, dims, num_drops, priority, hooks, evaluators, disturbance, debug = case
    world = World(disturbance)
    loop = build(world, dims, num_drops, priority, debug=debug)
    probes = [Probe(i, world) for i in range(evaluators)]
    for i, p in enumerate(probes):
        loop.add_evaluator(p)
        expect(loop.num_evaluators == i + 1 and loop.evaluator_index(p) == i, "evaluators aren't listed in order")
    samples = []

    def pre(i):
        def hook(scenario, console):
            expect(scenario is world.scenario and console is loop.console, "hooks receive other objects")
            world.event("pre%d" % i)
        return hook

    def post(i):
        def hook(sample, scenario, console):
            expect(scenario is world.scenario, "hooks receive another scenario")
            samples.append((i, sample))
            world.event("post%d" % i)
        return hook

    for kind, make, add, listed in (("pre", pre, loop.add_pre_drop_hook, lambda: loop.pre_drop_hooks), ("post", post, loop.add_post_drop_hook, lambda: loop.post_drop_hooks)):
        for i in range(hooks):
            h = make(i)
            add(h)
            expect(listed()[-1] is h and len(listed()) == i + 1, "hook %s isn't registered", kind)
            try:
                add(h)
            except ValueError:
                pass
            else:
                expect(False, "the hook was registered twice")
    # Reference run
    sizes = [n for _, n in dims]
    grid = list(itertools.product(*map(range, sizes)))
    order = [(d, g) for d in range(num_drops) for g in grid] if priority == "GRID" else [(d, g) for g in grid for d in range(num_drops)]
    expected, filed, calls, drops, failed = [], [{} for _ in probes], {}, 0, False

    def event(kind, *what):
        expected.append((kind,) + what)
        calls[kind] = calls.get(kind, 0) + 1
        return disturbance and disturbance[1:] == (kind, calls[kind] - 1)

    stop = False
    current = [5e8, 5e5, world.seen()[2]]
    for d, g in order:
        if stop or failed:
            break
        hit = None

        def do(kind, *what):
            nonlocal stop, hit
            if event(kind, *what):
                if disturbance[0] == "raise":
                    raise Failure()
                stop = True

        try:
            for i in range(hooks):
                do("pre%d" % i)
            for (name, _), i in zip(dims, g):
                current[{"carrier_frequency": 0, "bandwidth": 1, "noise_level": 2}[name]] = float(POINTS[name][i].power) if name == "noise_level" else POINTS[name][i]
            drops += 1
            do("drop", tuple(current))
            artifacts = []
            for i in range(evaluators):
                do("evaluate", i)
                artifacts.append((i, tuple(current), drops))
            for f, a in zip(filed, artifacts):
                f.setdefault(g, []).append(a)
            for i in range(hooks):
                do("post%d" % i)
        except Failure:
            failed = debug
    raised = False
    previous = signal.getsignal(signal.SIGINT)
    try:
        loop.run()
    except Failure:
        raised = True
    finally:
        signal.signal(signal.SIGINT, previous)
    expect(raised == failed, "the failure was %s", "raised" if raised else "dropped")
    expect(world.events == expected, "events %s instead of %s", world.events[:12], expected[:12])
    for p, f in zip(probes, filed):
        expect(len(p.results) == 1, "results were initialized %s times", len(p.results))
        expect(p.results[0].got == f, "artifacts %s instead of %s", p.results[0].got, f)
        expect([d.title for d in p.results[0].grid] == [d for d, _ in dims] or len(p.results[0].grid) == len(dims), "results cover other dimensions")
    for k, (i, s) in enumerate(samples):
        expect(len(s.artifacts) == len(s.evaluations) == evaluators and all(e.seen[1] is not None and a.seen == e.seen for e, a in zip(s.evaluations, s.artifacts)), "samples hold other artifacts than evaluations")
        expect(len(s.drop.device_transmissions) == 1, "the sample doesn't hold its drop")
    acc.state(case)
    acc.step(len(expected))


def modems(seed):
    scenario = PhysicalScenarioDummy(seed=seed)
    evaluators = []
    for d in range(2):
        device = scenario.new_device(carrier_frequency=1e9, bandwidth=1e6, oversampling_factor=1)
        modem = DuplexModem(waveform=RootRaisedCosineWaveform(num_preamble_symbols=0, num_data_symbols=8, modulation_order=4))
        device.add_dsp(modem)
        evaluators.append(BitErrorEvaluator(modem, modem))
    scenario.noise_level = N0(1e-6 * 8)
    return scenario, evaluators


def observe(drop):
    return [np.asarray(t.mixed_signal.to_dense().view(np.ndarray)) for t in drop.device_transmissions] + [np.asarray(r.operator_inputs[0].to_dense().view(np.ndarray)) for r in drop.device_receptions if r.operator_inputs]


def replay(acc, case):
    """A replayed run shows the recorded drops and evaluations, results are stored."""
    _, num_drops, points, priority, record, runs = case
    scratch = tempfile.mkdtemp(prefix="mc_p28_")
    previous = signal.getsignal(signal.SIGINT)
    try:
        scenario, evaluators = modems(3)
        loop = HardwareLoop(scenario, plot_information=False, console_mode=ConsoleMode.SILENT, results_dir=scratch, record_drops=record, iteration_priority=IterationPriority[priority])
        loop.num_drops = num_drops
        if points:
            loop.new_dimension("oversampling_factor", [1, 2, 4][:points], scenario.devices[0])
        results = []
        for e in evaluators:
            e.plot_scale = "linear"
            loop.add_evaluator(e)
        seen = []
        loop.add_post_drop_hook(lambda sample, s, c: seen.append((observe(sample.drop), [a.to_scalar() for a in sample.artifacts])))
        for _ in range(runs):
            seen.clear()
            loop.run(overwrite=True)
        expect(scenario.mode is ScenarioMode.DEFAULT, "the scenario remains in mode %s", scenario.mode)
        total = num_drops * max(points, 1)
        expect(len(seen) == total, "%s drops instead of %s", len(seen), total)
        stored = loadmat(os.path.join(scratch, "results.mat"))
        order = [g for _ in range(num_drops) for g in range(max(points, 1))] if priority == "GRID" else [g for g in range(max(points, 1)) for _ in range(num_drops)]
        for k in range(len(evaluators)):
            array = np.asarray(stored["result_%d" % k]).flatten()
            rates = [np.mean([s[1][k] for g, s in zip(order, seen) if g == point]) for point in range(max(points, 1))]
            expect(array.size == max(points, 1) and np.allclose(array, rates, rtol=1e-12), "stored results %s instead of %s", array, rates)
            expect(os.path.isfile(os.path.join(scratch, "result_%d_%s.png" % (k, evaluators[k].abbreviation))), "the plot of result %s wasn't stored", k)
        expect(os.path.isfile(os.path.join(scratch, "drops.h5")) == record, "drops were %srecorded", "not " if record else "")
        if record:
            recorded = list(seen)
            for _ in range(2):
                seen.clear()
                loop.replay(os.path.join(scratch, "drops.h5"))
                expect(scenario.mode is ScenarioMode.DEFAULT, "the scenario remains in mode %s after replaying", scenario.mode)
                expect(len(seen) == total, "%s replayed drops instead of %s", len(seen), total)
                for k, (a, b) in enumerate(zip(recorded, seen)):
                    expect(len(a[0]) == len(b[0]) and all(np.array_equal(x, y) for x, y in zip(a[0], b[0])), "drop %s was replayed differently", k)
                    expect(a[1] == b[1], "artifacts %s instead of %s when replaying drop %s", b[1], a[1], k)
                    acc.step()
    finally:
        signal.signal(signal.SIGINT, previous)
        plt.close("all")
        shutil.rmtree(scratch, ignore_errors=True)
    acc.state(case)


# ---------------------------------------------------------------- visualization threads below a controlled scheduler
class Deadlock(Exception):
    pass


class Abort(BaseException):
    pass


class Scheduler:
    """Runs threads one at a time; every synchronization operation is a scheduling point."""

    def __init__(self, prefix, timeouts):
        self.prefix, self.trace, self.timeouts = list(prefix), [], timeouts
        self.ready, self.gates, self.finished, self.blocked = [], {}, set(), {}
        self.current, self.done = None, threading.Event()
        self.error = None
        self.forced = 0

    def register(self, name):
        self.gates[name] = threading.Semaphore(0)
        self.ready.append(name)

    def choose(self, options):
        """Pick an option, following the prefix of the explored schedule."""
        k = len(self.trace)
        pick = self.prefix[k] if k < len(self.prefix) else 0
        self.trace.append((pick, len(options)))
        return options[pick]

    def enabled(self):
        out = []
        for n in self.ready:
            if n in self.finished:
                continue
            condition = self.blocked.get(n)
            if condition is None or condition():
                out.append(n)
        return out

    def switch(self, me, exiting=False):
        if self.error:
            raise Abort()
        options = self.enabled()
        if not options and self.forced < 12 and len(self.finished) < len(self.ready):
            # Nothing else happens, so that time limits expire eventually
            self.forced += 1
            self.timeouts += 1
            options = self.enabled()
            if not options:
                self.timeouts -= 1
            elif len(options) > 1:
                options = options[:1]
        if not options:
            if exiting and len(self.finished) == len(self.ready):
                self.done.set()
                return
            self.fail(Deadlock("nothing happens anymore, blocked threads are %s" % [n for n in self.ready if n not in self.finished]))
            if exiting:
                return
            raise Abort()
        if me in options and not exiting:  # prefer continuing
            options = [me] + [o for o in options if o != me]
        target = options[0] if len(options) == 1 else self.choose(options)
        if target == me:
            return
        self.gates[target].release()
        if not exiting:
            self.gates[me].acquire()
            if self.error:
                raise Abort()

    def fail(self, error):
        self.error = self.error or error
        for g in self.gates.values():
            g.release()
        self.done.set()

    def point(self, until=None):
        me = threading.current_thread().name
        self.blocked[me] = until
        self.switch(me)
        self.blocked[me] = None

    def thread(self, name, body):
        def main():
            self.gates[name].acquire()
            try:
                if not self.error:
                    body()
            except Abort:
                return
            except BaseException as e:
                self.fail(e)
                return
            self.finished.add(name)
            try:
                self.switch(name, True)
            except Abort:
                pass
        return threading.Thread(target=main, name=name, daemon=True)


def primitives(s):
    class MLock:
        def __init__(self):
            self.owner = None

        def acquire(self, *a, **k):
            s.point(lambda: self.owner is None)
            self.owner = threading.current_thread().name
            return True

        def release(self):
            expect(self.owner == threading.current_thread().name, "a lock is released by another thread")
            self.owner = None

        def locked(self):
            return self.owner is not None

        def __enter__(self):
            return self.acquire()

        def __exit__(self, *a):
            self.release()

    class MCondition:
        def __init__(self, lock=None):
            self.lock = MLock() if lock is None else lock
            self.waiting = []
            self.acquire, self.release = self.lock.acquire, self.lock.release

        def __enter__(self):
            return self.lock.acquire()

        def __exit__(self, *a):
            self.lock.release()

        def wait(self, timeout=None):
            me = threading.current_thread().name
            token = [False]
            self.waiting.append(token)
            self.lock.release()
            def awake():
                return token[0] or (timeout is not None and s.timeouts > 0)
            s.point(lambda: awake() and self.lock.owner is None)
            if not token[0]:
                s.timeouts -= 1
                if token in self.waiting:
                    self.waiting.remove(token)
            self.lock.owner = me
            return token[0]

        def wait_for(self, predicate, timeout=None):
            result = predicate()
            while not result:
                woken = self.wait(timeout)
                result = predicate()
                if not woken and timeout is not None:
                    break
            return result

        def notify(self, n=1):
            expect(self.lock.owner == threading.current_thread().name, "notified without holding the lock")
            for token in self.waiting[:n]:
                token[0] = True
                self.waiting.remove(token)

        def notify_all(self):
            self.notify(len(self.waiting))

    class MEvent:
        def __init__(self):
            self.flag = False

        def set(self):
            s.point()
            self.flag = True

        def clear(self):
            self.flag = False

        def is_set(self):
            return self.flag

        def wait(self, timeout=None):
            s.point(lambda: self.flag or (timeout is not None and s.timeouts > 0))
            if not self.flag:
                s.timeouts -= 1
            return self.flag

    return MLock, MCondition, MEvent


class Shown(HardwareLoopPlot):
    """A plot recording what it is asked to display."""

    def __init__(self, scheduler, idle):
        HardwareLoopPlot.__init__(self)
        self.scheduler, self.shown, self.idle, self.closed = scheduler, [], idle, 0

    @property
    def _default_title(self):
        return "shown"

    def _prepare_plot(self):
        self.scheduler.point()
        return plt.subplots(1, 1, squeeze=False)

    def prepare_plot(self):
        self.scheduler.point()
        return None, None, None

    def update_plot(self, sample):
        self.shown.append(sample)
        self.scheduler.point()

    def close_plot(self):
        self.closed += 1

    def _initial_plot(self, sample, axes):
        return None

    def _update_plot(self, sample, visualization):
        return None


def execute(prefix, plots, samples, patient, timeouts):
    """One schedule of a main thread passing samples and one plotting thread per visualization."""
    s = Scheduler(prefix, timeouts)
    lock, condition, event = primitives(s)
    saved = {n: getattr(hl, n) for n in ("Lock", "Condition", "Event") if hasattr(hl, n)}
    shown = [Shown(s, patient) for _ in range(plots)]
    log = []
    try:
        for n, v in (("Lock", lock), ("Condition", condition), ("Event", event)):
            if n in saved:
                setattr(hl, n, v)
        threads = [PlotThread({}, p, name="plot%d" % i) for i, p in enumerate(shown)]

        def start(t):
            s.register(t.name)
            s.thread(t.name, lambda: t.run(interactive=False)).start()
            t.started = True
            s.point()

        for t in threads:
            t.started = False
            t.start = lambda t=t: start(t)
            t.is_alive = lambda t=t: t.started and t.name not in s.finished
            t.join = lambda timeout=None, t=t: s.point(lambda: t.name in s.finished)

        def main():
            with ThreadContextManager(threads):
                for k in range(samples):
                    for t in threads:
                        t.update_plot(k)
                    if patient:  # no further drop until everything was displayed
                        s.point(lambda: all(p.shown and p.shown[-1] == k for p in shown))
            log.append("done")

        s.register("main")
        s.current = "main"
        s.thread("main", main).start()
        s.gates["main"].release()
        if not s.done.wait(20):
            s.fail(Deadlock("the schedule doesn't terminate"))
    finally:
        for n, v in saved.items():
            setattr(hl, n, v)
    return s, shown, log


def threads(acc, case):
    """Whatever the timing, visualizations show the latest sample, never a missing or an older one, and terminate."""
    _, plots, samples, patient, timeouts, bound, first = case
    stack = [list(first)]
    total = 0
    while stack:
        prefix = stack.pop()
        s, shown, log = execute(prefix, plots, samples, patient, timeouts)
        total += 1
        choices = [t[0] for t in s.trace]
        if isinstance(s.error, Deadlock):
            expect(False, "%s in schedule %s after %s", s.error, choices, [p.shown for p in shown])
        if s.error:
            raise s.error
        expect(log == ["done"], "the loop didn't finish in schedule %s", choices)
        for p in shown:
            expect(None not in p.shown, "a missing sample is displayed in schedule %s: %s", choices, p.shown)
            expect(p.shown == sorted(p.shown), "samples are displayed out of order in schedule %s: %s", choices, p.shown)
            expect(p.closed == 1, "the plot was closed %s times in schedule %s", p.closed, choices)
        acc.step(len(choices))
        for k in range(len(prefix), len(s.trace)):
            for alternative in range(1, s.trace[k][1]):
                new = choices[:k] + [alternative]
                if sum(c > 0 for c in new) <= bound:
                    stack.append(new)
    acc.count("schedules", total)
    acc.state(case)


def plotting(acc, case):
    """Plots belong to one loop, are prepared once, drawn initially once and updated afterwards."""
    _, ops, external = case
    calls = []

    class Plot(HardwareLoopPlot):
        _default_title = "default"

        def _prepare_plot(self):
            calls.append("prepare")
            return plt.subplots(1, 1, squeeze=False)

        def _initial_plot(self, sample, axes):
            calls.append(("initial", sample))
            return "visualization"

        def _update_plot(self, sample, visualization):
            calls.append(("update", sample, visualization))

    kw = {}
    if external:
        figure, axes = plt.subplots(1, 1, squeeze=False)
        kw = {"canvas": figure.canvas, "axes": axes}
    plot, prepared, drawn, expected = Plot(**kw), external, False, []
    expect(plot.title == "default" and Plot("named").title == "named", "titles differ")
    loops = [HardwareLoop(PhysicalScenarioDummy(), console_mode=ConsoleMode.SILENT) for _ in range(2)]
    owner = None
    try:
        for k, op in enumerate(ops):
            if op == "prepare":
                plot.prepare_plot()
                expected += [] if prepared else ["prepare"]
                prepared = True
            elif op == "update":
                plot.update_plot(k)
                expected += [] if prepared else ["prepare"]
                expected.append(("update", k, "visualization") if drawn else ("initial", k))
                prepared = drawn = True
            elif op == "close":
                plot.close_plot()
                prepared = drawn = False
            else:
                loop = loops[op == "add other"]
                try:
                    loop.add_plot(plot)
                    expect(owner is None, "the plot was added twice")
                    owner = loop
                except RuntimeError:
                    expect(owner is not None, "the plot couldn't be added")
                expect(plot.hardware_loop is owner, "the plot belongs to another loop")
            expect(calls == expected, "calls %s instead of %s", calls, expected)
            acc.step()
    finally:
        plt.close("all")
    acc.state(case)


CASES = {"run": run, "replay": replay, "threads": threads, "plotting": plotting}


def run_cases(acc, cases):
    for case in cases:
        acc.run(case[0], lambda c=case: CASES[c[0]](acc, c), case)


def main(check):
    t = check.thorough
    cases = []
    sweeps = [(), (("carrier_frequency", 2),), (("bandwidth", 3),), (("noise_level", 2),), (("carrier_frequency", 2), ("bandwidth", 3)), (("bandwidth", 2), ("carrier_frequency", 1)), (("noise_level", 3), ("carrier_frequency", 2))]
    if t:
        sweeps += [(("carrier_frequency", 3), ("bandwidth", 2), ("noise_level", 2))]
    for dims, drops, priority in itertools.product(sweeps, (1, 2, 3), ("GRID", "DROPS")):
        for hooks, evaluators in itertools.product(range(3), range(3)):
            cases.append(("run", dims, drops, priority, hooks, evaluators, None, False))
        total = drops * int(np.prod([n for _, n in dims] or [1]))
        for kind, stage, k in itertools.product(("raise", "interrupt"), ("pre0", "drop", "evaluate", "post0"), sorted({0, 1, total - 1} if not t else range(total))):
            if k < total:
                for debug in ((False, True) if kind == "raise" else (False,)):
                    cases.append(("run", dims, drops, priority, 1, 1, (kind, stage, k), debug))
    cases += [("replay", drops, points, priority, record, runs) for drops in (1, 2, 3) for points in (0, 2, 3) for priority in ("GRID", "DROPS") for record in (True, False) for runs in ((1, 2) if t or drops == 2 else (1,)) if points != 3 or t]
    ops = ["prepare", "update", "close", "add", "add other"]
    cases += [("plotting", h, external) for n in range(1, 6 if t else 5) for h in itertools.product(ops, repeat=n) for external in (False, True) if not (external and "close" in h)]
    schedules = []
    for plots, samples, patient in itertools.product((1, 2), (0, 1, 2, 3), (False, True)):
        bound = (6 if t else 4) if plots == 1 else (4 if t else 2)
        schedules += [("threads", plots, samples, patient, timeouts, bound, ()) for timeouts in (0, 1, 2)]
    check.explore(run_cases, chunks(schedules, 1) + chunks(cases, 40), case_timeout=240)
    check.bounds = {"cases": len(cases), "drops": "up to 3", "dimensions": "up to 3", "hooks": 2, "evaluators": 2, "visualization schedules": "all schedules deviating at most 2 (one thread: 4) times (thorough: 4 and 6) from running on, up to two threads, three samples and two timeouts"}
    check.assumptions = ["the trigger confirmation is not exercised", "visualization threads are scheduled at their synchronization operations", "threads waiting with a time limit may be woken at most twice by it"]
