"""P01: every Monte Carlo sample is delivered exactly once and to the section it belongs to."""
from mc import fakeray

fakeray.patch()

import io
import os
import itertools

import numpy as np
from rich.console import Console

from hermespy.core import ConsoleMode
from hermespy.core.pymonte import *  # noqa - tolerate moved names
from hermespy.core.pymonte import evaluation as _ev
from hermespy.core.pymonte.actors import MonteCarloActor
from hermespy.core.pymonte.artifact import Artifact
from hermespy.core.pymonte.grid import GridDimension, register
from hermespy.core.pymonte.monte_carlo import MonteCarlo
from ..core import chunks, expect

PRODUCED = []  # log of everything evaluated by the actors of the current execution


class Thing:
    """Investigated object.  The declared impacts force the grid to be reordered."""

    def __init__(self):
        self._v = dict(a=0, b=0, c=0)
        self.seen = [None] * 3
        self.fail = None

    @register(first_impact="two", title="A")
    @property
    def a(self):
        return self._v["a"]

    @a.setter
    def a(self, v):
        self._v["a"] = v

    @register(first_impact="one", title="B")
    @property
    def b(self):
        return self._v["b"]

    @b.setter
    def b(self, v):
        self._v["b"] = v

    @register(title="C")
    @property
    def c(self):
        return self._v["c"]

    @c.setter
    def c(self, v):
        self._v["c"] = v


class Worker(MonteCarloActor):
    @staticmethod
    def stage_identifiers():
        return ["zero", "one", "two"]

    def stage_executors(self):
        return [self.zero, self.one, self.two]

    def zero(self, x=0):
        o = self._investigated_object
        o.seen[0] = (x, o._v["c"])

    def one(self, x=0):
        o = self._investigated_object
        o.seen[1] = (x, o._v["c"], o._v["b"])

    def two(self, x=0):
        o = self._investigated_object
        o.seen[2] = (x, dict(o._v))
        if o.fail is not None and o._v == o.fail:
            raise RuntimeError("stage failure")


class Sample(Artifact):
    def __init__(self, uid, config):
        self.uid, self.config = uid, config

    def __str__(self):
        return str(self.uid)

    def to_scalar(self):
        return float(self.uid)


class Eval(_ev.Evaluation):
    def __init__(self, s):
        _ev.Evaluation.__init__(self)
        self.s = s

    def artifact(self):
        return self.s

    def _prepare_visualization(self, *a, **k):
        raise NotImplementedError

    def _update_visualization(self, *a, **k):
        raise NotImplementedError


class Result(_ev.EvaluationResult):
    def __init__(self, grid, evaluator, threshold):
        _ev.EvaluationResult.__init__(self, grid, evaluator)
        self.threshold = threshold
        self.got = {}

    @property
    def title(self):
        return "result"

    def add_artifact(self, coordinates, artifact, compute_confidence=True):
        l = self.got.setdefault(tuple(int(c) for c in coordinates), [])
        l.append((artifact.uid, tuple(sorted(artifact.config.items()))))
        return compute_confidence and self.threshold is not None and len(l) >= self.threshold

    def runtime_estimates(self):
        return self.to_array().astype(float)

    def to_array(self):
        out = np.zeros([d.num_sample_points for d in self.grid], dtype=int)
        for k, v in self.got.items():
            out[k] = len(v)
        return out


class Probe(_ev.Evaluator):
    def __init__(self, thing, key, threshold):
        _ev.Evaluator.__init__(self)
        self.thing, self.key, self.threshold = thing, key, threshold

    def evaluate(self):
        t = self.thing
        uid = len(PRODUCED)
        PRODUCED.append((self.key, uid))
        config = dict(t._v)
        expect(t.seen[2] is not None and t.seen[2][1] == config, "stage results %s were obtained for another configuration than %s", t.seen, config)
        expect(t.seen[1][1:] == (config["c"], config["b"]) and t.seen[0][1] == config["c"], "stage results %s are outdated for %s", t.seen, config)
        return Eval(Sample(uid, config))

    @property
    def abbreviation(self):
        return self.key

    @property
    def title(self):
        return self.key

    def initialize_result(self, grid):
        return Result(grid, self, self.threshold)


def scenario(cfg):
    """Build the simulation of a configuration and the judgement of its outcome."""
    dims, extra, samples, actors, evaluators, threshold, args, mode, batch = cfg
    PRODUCED.clear()
    thing = Thing()
    probes = [Probe(thing, "E%d" % i, threshold + i if threshold is not None else None) for i in range(evaluators)]
    mc = MonteCarlo(thing, samples, probes, batch, actors, console=Console(file=io.StringIO(), width=120), console_mode=ConsoleMode[mode])
    for name, n in dims:
        mc.new_dimension(name, [10 * ord(name) + j for j in range(n)])
    additional = {GridDimension(thing, name, [10 * ord(name) + j for j in range(n)]) for name, n in extra}
    stage_args = {k: [(x,) for x in range(n)] for k, n in args} if args else None

    def fn():
        return mc.simulate(Worker, additional or None, stage_args)

    mult = int(np.prod([n for _, n in args])) if args else 1
    sizes = dict(list(dims) + list(extra))

    def check(result, rt, decisions):
        expect(not rt.errors, "remote errors %s", rt.errors[:2])
        expect(len(result.evaluation_results) == evaluators, "%d results", len(result.evaluation_results))
        for i, res in enumerate(result.evaluation_results):
            made = sorted(u for k, u in PRODUCED if k == "E%d" % i)
            names = [d.title.lower() for d in res.grid]
            expect(sorted(names) == sorted(sizes) and all(d.num_sample_points == sizes[n] for d, n in zip(res.grid, names)), "grid of the result is %s", names)
            seen = []
            for coords, items in res.got.items():
                expect(len(coords) == len(names), "coordinates %s", coords)
                for uid, config in items:
                    seen.append(uid)
                    for c, n, d in zip(coords, names, res.grid):
                        expect(d.sample_points[c].value == dict(config)[n], "sample of %s attributed to section %s of %s", config, coords, names)
            expect(len(seen) == len(set(seen)), "samples delivered twice: %s", sorted(u for u in seen if seen.count(u) > 1))
            expect(sorted(seen) == made, "samples %s were produced but not delivered", sorted(set(made) - set(seen)))
            for coords in itertools.product(*[range(sizes[n]) for n in names]):
                n = len(res.got.get(coords, []))
                if threshold is None:
                    expect(n == samples * mult, "section %s has %d of %d samples", coords, n, samples * mult)
                else:
                    expect(min(threshold + evaluators - 1, samples * mult) <= n <= samples * mult, "section %s has %d samples (threshold %d, maximum %d)", coords, n, threshold, samples * mult)
        table = io.StringIO()
        result.print(Console(file=table, width=200, color_system=None))
        rows = [l for l in table.getvalue().splitlines() if "│" in l]
        expect(len(rows) == int(np.prod(list(sizes.values()))) if sizes else evaluators == 0 or len(rows) >= 1, "printed table has %d rows", len(rows))

    return fn, check


def run_config(acc, cfg, policy, trace, delays, part=0, parts=1):
    sig = "schedule:%s:%s:%s" % (cfg, policy, "lines" if trace else "calls")

    def make():
        fn, check = scenario(cfg)

        def judge(result, rt, decisions):
            try:
                check(result, rt, decisions)
            except AssertionError as e:
                raise type(e)("%s [deviations %s]" % (e, decisions)) from None
            acc.state(cfg, [sorted((k, len(v)) for k, v in r.got.items()) for r in result.evaluation_results], len(rt.tasks))
            acc.count("schedules")

        return fn, judge

    def go():
        if delays is None:
            runs, points = fakeray.explore_freezes(make, (8, 40, 300) if os.environ.get('VERIF_TIER') == 'thorough' else (40, 300), policy, trace, part=part, parts=parts)
        else:
            runs, points = fakeray.explore(make, delays, policy, trace, part=part, parts=parts)
        acc.step(points)
        return {"schedules": runs, "scheduling points": points}

    acc.run(sig, go, sig)


def shard(acc, items):
    for it in items:
        run_config(acc, *it)


S, L, I = "SILENT", "LINEAR", "INTERACTIVE"
#        dims, additional, samples, actors, evaluators, threshold, stage arguments, console, batch size
TINY = [
    ((), (), 2, 2, 1, None, None, S, None),
    ((("a", 2),), (), 1, 2, 1, None, None, S, None),
    ((("a", 2),), (), 2, 2, 1, 1, None, S, None),
]
SMALL = [
    ((("a", 2), ("b", 3)), (), 1, 2, 1, None, None, S, None),
    ((("a", 3), ("c", 2)), (), 2, 1, 2, None, None, S, None),
    ((("a", 2),), (("b", 3),), 1, 2, 1, None, None, S, None),
    ((("b", 2), ("a", 2)), (), 2, 2, 1, 1, None, S, None),
    ((("a", 2),), (), 1, 3, 1, None, None, L, None),
    ((("a", 2), ("b", 2)), (), 1, 2, 1, None, None, I, None),
    ((("a", 2),), (), 2, 2, 1, None, (("zero", 2),), S, None),
]
MANY = [
    (d, e, s, k, ev, t, g, m, b)
    for d in ((), (("a", 1),), (("a", 2), ("b", 3)), (("b", 3), ("a", 2)), (("a", 3), ("b", 2), ("c", 2)), (("c", 2), ("a", 4)))
    for e in ((),)
    for s in (1, 3)
    for k in (1, 2, 3)
    for ev in (0, 1, 2)
    for t in (None, 2)
    for g in (None, (("zero", 2),), (("one", 3),), (("zero", 2), ("two", 2)))
    for m in (S,)
    for b in (None,)
] + [(d, (), 3, k, 2, t, None, S, b) for d in ((), (("a", 2), ("b", 3)), (("c", 2), ("a", 4))) for k in (1, 2) for t in (None, 1) for b in (1, 2, 5, 20)] + [(d, e, s, 2, 2, t, None, m, None) for d in ((), (("a", 2), ("b", 3)), (("a", 12),)) for e in ((), (("c", 3),)) for s in (1, 3) for t in (None, 2) for m in (S, L, I)]


def main(check):
    jobs = []
    t = check.thorough
    for n, c in enumerate(TINY):
        jobs += [(c, p, False, 3 if t else 2 if (n + i) % 2 == 0 else 1) for i, p in enumerate(("block", "rr"))]
        jobs += [(c, p, True, 2 if t else 1) for p in ("block", "rr")]
    for n, c in enumerate(SMALL):
        jobs += [(c, p, False, 2 if t else 1) for p in ("block", "rr")]
        jobs += [(c, p, True, 1) for i, p in enumerate(("block", "rr")) if t or (n + i) % 2]
    for n, c in enumerate(TINY + SMALL):
        jobs += [(c, p, tr, None) for i, p in enumerate(("block", "rr")) for tr in (False, True) if t or not tr or (n + i) % 2]
    shards = [[j + (p, n)] for j in jobs for n in [4 if j[3] is None else 2 if j[3] < 2 else 8 if j[3] == 2 else 32] for p in range(n)]
    many = [(c, p, False, 0) for c in MANY for p in ("block", "rr")]
    shards += chunks(many, 24)
    check.bounds = {"delay bounded configurations": len(jobs), "other configurations": len(many), "delays": "2 at remote calls, 1 at source lines (tiny); 1 (small); 0 (others)" if not t else "3/2 (tiny), 2/1 (small), 0 (others)"}
    check.explore(shard, shards, case_timeout=600)
