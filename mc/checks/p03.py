"""P03: samples reflect the grid section they were requested for, whatever was executed before."""
from mc import fakeray

fakeray.patch()

import contextlib
import io
import itertools

import ray

from hermespy.core.pymonte import evaluation as _ev
from hermespy.core.pymonte.actors import MonteCarloActor
from hermespy.core.pymonte.artifact import Artifact
from hermespy.core.pymonte.grid import GridDimension, register
from ..core import chunks, expect

STAGES = ["zero", "one", "two"]
IMPACTS = [(a, b) for a in (None, "zero", "one", "two", "elsewhere") for b in (None, "zero", "one", "two", "elsewhere") if not (a in STAGES and b in STAGES and STAGES.index(a) > STAGES.index(b))]


def affected(impact):
    """Stages whose outcome depends on a dimension with the given impact."""
    first, last = impact
    lo = STAGES.index(first) if first in STAGES else 0
    hi = STAGES.index(last) if last in STAGES else 2
    return range(lo, hi + 1)


CLASSES = {}


def thing_class(impacts):
    if impacts in CLASSES:
        return CLASSES[impacts]

    def init(self):
        self.values = {n: None for n in "ab"[: len(impacts)]}
        self.outputs = [None] * 3
        self.executed = 0
        self.fail = None

    body = {"__init__": init}
    for n, (first, last) in zip("ab", impacts):

        def get(self, n=n):
            return self.values[n]

        def set(self, v, n=n):
            self.values[n] = v

        prop = property(get, set)
        if (first, last) != ("unregistered", "unregistered"):
            prop = register(first_impact=first, last_impact=last)(property(get)).setter(set)
        body[n] = prop
    name = "Thing%d" % len(CLASSES)
    CLASSES[impacts] = globals()[name] = type(name, (object,), {**body, "__module__": __name__})
    return CLASSES[impacts]


class Worker(MonteCarloActor):
    @staticmethod
    def stage_identifiers():
        return list(STAGES)

    def stage_executors(self):
        return [self.zero, self.one, self.two]

    def _stage(self, k, x):
        o = self._investigated_object
        o.executed += 1
        o.outputs[k] = (o.executed, x, {n: v for (n, v), i in zip(o.values.items(), IMPACT[0]) if k in affected(i)})
        if o.fail is not None and o.fail[0] == k and tuple(o.values.values()) == o.fail[1]:
            raise RuntimeError("stage failure")

    def zero(self, x="d"):
        self._stage(0, x)

    def one(self, x="d"):
        self._stage(1, x)

    def two(self, x="d"):
        self._stage(2, x)


IMPACT = [()]


class Snapshot(Artifact):
    def __init__(self, values, outputs):
        self.values, self.outputs = values, outputs

    def __str__(self):
        return "snapshot"

    def to_scalar(self):
        return None


class Probe(_ev.Evaluator):
    def __init__(self, thing, index):
        _ev.Evaluator.__init__(self)
        self.thing, self.index = thing, index

    def evaluate(self):
        probe = self

        class E(_ev.Evaluation):
            def artifact(self):
                return Snapshot(dict(probe.thing.values), list(probe.thing.outputs))

            def _prepare_visualization(self, *a, **k):
                raise NotImplementedError

            def _update_visualization(self, *a, **k):
                raise NotImplementedError

        return E()

    @property
    def abbreviation(self):
        return "P%d" % self.index

    title = abbreviation

    def initialize_result(self, grid):
        raise NotImplementedError


class Script:
    """Queue manager handing out predetermined batches."""

    def __init__(self, batches):
        self.batches = list(batches)

    def next_batch(self):
        return self.batches.pop(0) if self.batches else []


def run_case(acc, impacts, batches, args, probes, fail):
    cls = thing_class(impacts)
    thing = cls()
    thing.fail = fail
    IMPACT[0] = impacts
    grid = [GridDimension(thing, n, [10 * i + j for j in range(2)]) for i, n in enumerate("ab"[: len(impacts)])]
    for d, i in zip(grid, impacts):
        if i != ("unregistered",) * 2:
            expect((d.first_impact, d.last_impact) == i, "impacts of the dimension are %s instead of %s", (d.first_impact, d.last_impact), i)
    stage_arguments = {k: [(v,) for v in range(n)] for k, n in args}

    def fn():
        q = ray.remote(Script).remote(batches)
        a = ray.remote(Worker).options(max_concurrency=2).remote(q, (thing, grid, [Probe(thing, i) for i in range(probes)]), 0, stage_arguments, True)
        ray.get(a.run.remote())
        out = []
        for ref in ray.get(a.fetch_results.remote()):
            out.append(ray.get(ref))
        again = ray.get(a.fetch_results.remote())
        return out, again

    rt = fakeray.Runtime({}, "block", False)
    with contextlib.redirect_stdout(io.StringIO()):
        out, again = rt.run(fn)
    expect(not rt.errors, "remote errors %s", rt.errors[:1])
    expect(list(again) == [], "results are returned twice")
    points = lambda s: {n: 10 * i + c for (i, n), c in zip(enumerate("ab"), s)}
    good = [b for b in batches if fail is None or all(tuple(points(s).values()) != fail[1] for s in b)]
    flat = [s for b in out for s in b]
    combos = list(itertools.product(*[range(dict(args).get(k, 0)) if k in dict(args) else ["d"] for k in STAGES]))
    want = [(s, c) for b in good for s in b for c in combos]
    expect(len(flat) == len(want), "%d samples instead of %d", len(flat), len(want))
    seen_repeat = {}
    for sample, (section, combo) in zip(flat, want):
        expect(tuple(int(c) for c in sample.grid_section) == tuple(section), "sample of section %s is attributed to %s", section, tuple(sample.grid_section))
        expect(len(sample.artifacts) == probes, "%d artifacts from %d evaluators", len(sample.artifacts), probes)
        for artifact in sample.artifacts:
            config = points(section)
            expect(artifact.values == config, "sample of section %s was evaluated for %s", section, artifact.values)
            for k in range(3):
                expect(artifact.outputs[k] is not None, "stage %d was never executed", k)
                uid, x, used = artifact.outputs[k]
                expect(used == {n: v for (n, v), i in zip(config.items(), impacts) if k in affected(i)}, "section %s: stage %d was executed for %s", section, k, used)
                expect(x == combo[k], "section %s: stage %d was executed with argument %s instead of %s", section, k, x, combo[k])
            # two samples never share all of their stage executions
            key = tuple(o[0] for o in artifact.outputs)
            expect(seen_repeat.setdefault(key, sample) is sample, "two samples stem from the same execution")
    acc.step(sum(len(b) for b in batches))
    acc.state(impacts, batches, args, probes, fail)


def shard(acc, items):
    for impacts, batches, args, probes, fail in items:
        sig = "stages:%s:%s:%s:%d:%s" % (impacts, batches, args, probes, fail)
        acc.run(sig, lambda: run_case(acc, impacts, batches, args, probes, fail), sig)


def histories(ndim, length):
    secs = list(itertools.product(range(2), repeat=ndim))
    for n in range(1, length + 1):
        for seq in itertools.product(secs, repeat=n):
            yield seq


def main(check):
    t = check.thorough
    jobs = []
    for i in IMPACTS + [("unregistered",) * 2]:  # a single dimension, arguments and failures
        for seq in histories(1, 4 if t else 3):
            for args in ((), (("zero", 1),), (("zero", 2),), (("one", 3),), (("two", 2),), (("zero", 2), ("two", 2)), (("zero", 2), ("one", 1), ("two", 2))):
                jobs.append(((i,), [list(seq)], args, 1, None))
            for k in affected(i):  # a stage may only fail because of a value it depends on
                jobs.append(((i,), [list(seq), [(0,)], [(1,), (0,)]], (), 2, (k, (1,))))
    pairs = [(a, b) for a in IMPACTS for b in IMPACTS]
    for a, b in pairs:
        for seq in histories(2, 3 if t else 2):
            if len(seq) == 1 and seq != ((0, 0),):
                continue
            jobs.append(((a, b), [list(seq)], (), 1, None))
    few = [(None, None), ("zero", "zero"), ("one", "one"), ("one", "two"), ("two", "two"), ("elsewhere", "elsewhere"), ("zero", "one"), ("two", None), (None, "zero")]
    for a in few:
        for b in few:
            for seq in histories(2, 4 if t else 3):
                if seq[0] != (0, 0) and not t:
                    continue
                jobs.append(((a, b), [list(seq)], (), 1, None))
                if len(seq) == 3:
                    for cut in (1, 2):
                        jobs.append(((a, b), [list(seq[:cut]), list(seq[cut:])], (), 1, None))
                    if a != b:
                        jobs.append(((a, b), [list(seq)], (("one", 2),), 1, None))
    for seq in ([()], [(), ()]):
        for args in ((), (("one", 2),)):
            for probes in (0, 1, 3):
                jobs.append(((), [seq, seq], args, probes, None))
    check.bounds = {"stages": 3, "dimensions": "0-2 with all declared impacts", "sections per history": "1-%d" % (4 if t else 3), "stage arguments": "1-3 per stage", "histories": len(jobs)}
    check.explore(shard, chunks(jobs, 64))
