"""P04: scalar results average the samples of each section and stop it only with confidence."""
from mc import fakeray

fakeray.patch()

import itertools
import math
from statistics import NormalDist

import numpy as np
import ray

from hermespy.core.pymonte import evaluation as _ev
from hermespy.core.pymonte.actors import MonteCarloCollector
from hermespy.core.pymonte.artifact import Artifact, MonteCarloSample
from hermespy.core.pymonte.grid import GridDimension
from hermespy.core.pymonte.scalar import ScalarEvaluator
from ..core import chunks, expect


class Value(Artifact):
    def __init__(self, value):
        self.value = value

    def __str__(self):
        return str(self.value)

    def to_scalar(self):
        return self.value


class Mean(ScalarEvaluator):
    def evaluate(self):
        raise NotImplementedError

    @property
    def abbreviation(self):
        return "M"

    @property
    def title(self):
        return "Mean"


class Thing:
    a = b = c = 0


def build(shape):
    thing = Thing()
    return [GridDimension(thing, "abc"[i], list(range(n))) for i, n in enumerate(shape)]


def confidence(values, tolerance):
    """Probability of the mean to be off by more than the tolerance, None if the samples do not vary."""
    n = len(values)
    mean = math.fsum(values) / n
    var = math.fsum((v - mean) ** 2 for v in values) / (n - 1)
    if var <= 1e-12:
        return None
    return 2 * (1 - NormalDist().cdf(math.sqrt(n) * tolerance / math.sqrt(var)))


def is_confident(values, evaluator):
    """Whether adding the most recent value makes the evaluator confident; None if numerically undecided."""
    if len(values) % evaluator.min_num_samples:
        return False
    p = confidence(values, evaluator.tolerance)
    if p is None:
        return False
    if abs(p - evaluator.confidence) < 1e-9:
        return None if p != 1.0 else False
    return p < evaluator.confidence


def run_scalar(acc, shape, settings, ops):
    conf, tol, minimum = settings
    evaluator = Mean(conf, tol, minimum)
    expect((evaluator.confidence, evaluator.tolerance, evaluator.min_num_samples) == (conf, tol, minimum), "settings are altered")
    grid = build(shape)
    result = evaluator.initialize_result(grid)
    sections = list(itertools.product(*[range(n) for n in shape]))
    values = {s: [] for s in sections}
    for n, (s, v, compute) in enumerate(ops):
        section = sections[s]
        got = result.add_artifact(section, Value(v), compute)
        want = False
        if v is not None:
            values[section].append(v)
            want = is_confident(values[section], evaluator) if compute else False
        expect(want is None or bool(got) == want, "operation %d: confidence of %s is reported as %s", n, values[section], got)
        array = np.asarray(result.to_array())
        expect(array.shape == tuple(shape), "result has shape %s", array.shape)
        for q in sections:
            x = array[q]
            if not values[q]:
                expect(np.isnan(x), "section %s without samples is %s", q, x)
            else:
                expect(abs(x - math.fsum(values[q]) / len(values[q])) < 1e-9, "section %s is %s instead of the mean of %s", q, x, values[q])
        estimates = result.runtime_estimates()
        expect(estimates is None or np.allclose(estimates, array, equal_nan=True), "estimates differ from the result")
        acc.step()
    acc.state(shape, settings, {str(k): sorted(v) for k, v in values.items()})


# -- collector ---------------------------------------------------------------------------------
class Recorder:
    """Queue manager remembering the sections it was asked to disable."""

    def __init__(self):
        self.disabled = []

    def disable_section(self, coordinates):
        self.disabled.append(tuple(int(c) for c in coordinates))

    def get(self):
        return self.disabled


class Supplier:
    """Actor handing out scripted samples."""

    def __init__(self, batches, final):
        self.batches, self.final, self.stopped = list(batches), final, False

    def _wrap(self, batch):
        return [ray.put([MonteCarloSample(s, 0, [Value(v) for v in values]) for s, values in batch])] if batch else []

    def fetch_results(self):
        if self.batches:
            return self._wrap(self.batches.pop(0))
        if self.stopped:
            final, self.final = self.final, []
            return self._wrap(final)
        return []

    def remaining(self):
        return len(self.batches)

    def finish(self):
        self.stopped = True


def run_collector(acc, shape, settings, batches, final):
    evaluators = [Mean(*s) for s in settings]
    grid = build(shape)
    sections = list(itertools.product(*[range(n) for n in shape]))

    def fn():
        queue = ray.remote(Recorder).options(max_concurrency=2).remote()
        actor = ray.remote(Supplier).options(max_concurrency=2).remote([[(sections[s], v) for s, v in b] for b in batches], [(sections[s], v) for s, v in final])
        collector = ray.remote(MonteCarloCollector).options(max_concurrency=2).remote(queue, [actor], grid, evaluators)
        run = collector.run.remote()
        while ray.get(actor.remaining.remote()):
            pass
        ray.get(collector.stop.remote())
        ray.get(run)
        ray.get(actor.finish.remote())
        results = ray.get(collector.fetch_results.remote())
        return results, ray.get(queue.get.remote())

    rt = fakeray.Runtime({}, "rr", False)
    results, disabled = rt.run(fn)
    expect(not rt.errors, "remote errors %s", rt.errors[:1])
    everything = [x for b in batches for x in b]
    values = {s: [[] for _ in evaluators] for s in sections}
    confident = {s: set() for s in sections}
    want = set()
    for s, vs in everything:
        section = sections[s]
        for e, (evaluator, v) in enumerate(zip(evaluators, vs)):
            if v is None:
                continue
            values[section][e].append(v)
            c = is_confident(values[section][e], evaluator)
            if c is None:
                return "undecided"
            if c:
                confident[section].add(e)
        if len(confident[section]) == len(evaluators) > 0:
            want.add(section)
    for s, vs in final:
        for e, v in enumerate(vs):
            if v is not None:
                values[sections[s]][e].append(v)
    expect(set(disabled) == want, "sections %s are aborted instead of %s", sorted(set(disabled)), sorted(want))
    expect(len(results) == len(evaluators), "%d results", len(results))
    for e, r in enumerate(results):
        array = np.asarray(r.to_array())
        for q in sections:
            v = values[q][e]
            expect(np.isnan(array[q]) if not v else abs(array[q] - math.fsum(v) / len(v)) < 1e-9, "result %d at section %s is %s for the samples %s", e, q, array[q], v)
    acc.step(len(everything) + len(final))
    acc.state(shape, settings, batches, final)


def shard(acc, items):
    for kind, *args in items:
        sig = "%s:%s" % (kind, args)
        acc.run(sig, (lambda: run_scalar(acc, *args)) if kind == "scalar" else (lambda: run_collector(acc, *args)), sig)


SETTINGS = [(1.0, 0.0, 2), (1.0, 0.5, 2), (0.5, 0.5, 2), (0.3, 1.0, 3), (0.05, 2.0, 2), (0.0, 5.0, 2), (0.9, 0.1, 4), (0.32, 0.75, 2)]
VALUES = [0.0, 1.0, -2.5, None]


def main(check):
    t = check.thorough
    jobs = []
    for st in SETTINGS:
        for n in range(1, 7 if t else 6):
            for vs in itertools.product(VALUES, repeat=n):
                jobs.append(("scalar", (), st, tuple((0, v, True) for v in vs)))
        for vs in itertools.product([0.0, 2.0], repeat=6):
            jobs.append(("scalar", (1,), st, tuple((0, v, True) for v in vs)))
        for seq in itertools.product([(s, v) for s in (0, 1) for v in (0.0, 1.5)], repeat=4):
            for shape in ((2,), (1, 2)):
                jobs.append(("scalar", shape, st, tuple((s, v, True) for s, v in seq)))
        for seq in itertools.product([(v, c) for v in (0.0, 3.0) for c in (False, True)], repeat=4):
            jobs.append(("scalar", (2, 2), st, tuple((n % 4 if n < 2 else 3, v, c) for n, (v, c) in enumerate(seq))))
    samples1 = [(s, (v,)) for s in (0, 1) for v in (0.0, 1.0)]
    for st in SETTINGS[1:4]:
        for seq in itertools.product(samples1, repeat=4):
            jobs.append(("collector", (2,), (st,), (seq[:2], seq[2:]), ()))
    pair = [(0.0, 0.0), (1.0, 0.0), (0.0, 1.0), (1.0, 1.0), (None, 1.0)]
    for st in ((SETTINGS[1], SETTINGS[2]), (SETTINGS[1], SETTINGS[0]), (SETTINGS[3], SETTINGS[1]), (SETTINGS[5], SETTINGS[1])):
        for n in (2, 3, 4) if t else (2, 3):
            for seq in itertools.product(pair, repeat=n):
                jobs.append(("collector", (), st, tuple(((0, v),) for v in seq), ((0, (1.0, 2.0)),)))
        for order in itertools.product((0, 1), repeat=5):
            for v in ((0.0, 1.0), (1.0, None)):
                jobs.append(("collector", (2,), st, tuple(((s, (v[0] + i % 2, (v[1] or 0.0) - (i // 2) % 2)),) for i, s in enumerate(order)), ()))
    for n in (0, 1):
        jobs.append(("collector", (2,), (), (((0, ()),), ((1, ()),))[:n], ()))
    check.bounds = {"values": VALUES, "samples per history": 6 if t else 5, "settings": len(SETTINGS), "histories": len(jobs)}
    check.explore(shard, chunks(jobs, 96))
