"""P02: the queue manager hands out every section exactly as often as required."""
import itertools

import numpy as np

from hermespy.core.pymonte.actors import MonteCarloQueueManager
from hermespy.core.pymonte.grid import GridDimension
from ..core import expect



class Thing:
    a = b = c = 0


def build(shape):
    thing = Thing()
    return [GridDimension(thing, "abc"[i], list(range(n))) for i, n in enumerate(shape)]


def run_history(acc, shape, samples, batch, ops, drain):
    grid = build(shape)
    q = MonteCarloQueueManager(grid, samples, batch) if batch is not None else MonteCarloQueueManager(grid, samples)
    sections = list(itertools.product(*[range(n) for n in shape]))
    given = {s: 0 for s in sections}
    active = set(sections)
    progress = [0.0]

    def judge(where):
        p, flags = q.query_progress()
        expect(0.0 <= p <= 1.0 + 1e-12, "%s: progress %s", where, p)
        expect(p >= progress[0] - 1e-12, "%s: progress decreases from %s to %s", where, progress[0], p)
        done = sum(samples if s not in active else given[s] for s in sections) / (samples * len(sections))
        expect(abs(p - done) < 1e-12, "%s: progress is %s instead of %s", where, p, done)
        expect((p == 1.0) == (not active), "%s: progress %s with %d active sections", where, p, len(active))
        flags = np.asarray(flags)
        expect(flags.size == len(sections) and (not shape or flags.shape == tuple(shape)), "%s: flags of shape %s", where, flags.shape)
        for s in sections:
            expect(bool(flags[s] if shape else flags.flat[0]) == (s in active), "%s: flag of section %s is wrong", where, s)
        progress[0] = p
        acc.state(shape, samples, batch, sorted(given.items()), sorted(active))

    def fetch(where):
        got = [tuple(int(c) for c in s) for s in q.next_batch()]
        limit = len(sections) if batch is None else batch
        expect((len(got) == 0) == (not active), "%s: batch of %d with %d active sections", where, len(got), len(active))
        expect(len(got) <= max(limit, 1), "%s: batch of %d sections exceeds %s", where, len(got), limit)
        for s in got:
            expect(s in active, "%s: section %s is not active", where, s)
            given[s] += 1
            expect(given[s] <= samples, "%s: section %s requested too often", where, s)
            if given[s] == samples:
                active.discard(s)
        if shape and got:
            expect(len(got) == limit or not active, "%s: incomplete batch of %d sections although %s are left", where, len(got), sorted(active))
        acc.step()

    where = "start"
    judge(where)
    for n, op in enumerate(ops):
        where = "operation %d (%s)" % (n, op)
        if op == "next":
            fetch(where)
        else:
            q.disable_section(op)
            active.discard(op)
            acc.step()
        judge(where)
    if drain:
        disabled = {s for s in sections if s not in active and given[s] < samples}
        for _ in range(samples * len(sections) + 2):
            if not active:
                break
            fetch("drain")
            judge("drain")
        expect(not active, "sections %s are never completed", sorted(active))
        for s in sections:
            expect(s in disabled or given[s] == samples, "section %s received %d samples", s, given[s])
        fetch("end")
        judge("end")


def shard(acc, item):
    shape, samples, batch, depth = item
    sections = list(itertools.product(*[range(n) for n in shape]))
    invalid = [tuple(n for n in shape)] if shape else []
    alphabet = ["next"] + sections + invalid
    for ops in itertools.chain.from_iterable(itertools.product(alphabet, repeat=n) for n in range(depth + 1)):
        sig = "queue:%s:%s:%s:%s" % (shape, samples, batch, ops)
        acc.run(sig, lambda: run_history(acc, shape, samples, batch, ops, True), sig, sample=len(ops) == depth)


def main(check):
    t = check.thorough
    items = []
    for shape in [(), (1,), (2,), (3,), (1, 1), (2, 2), (2, 3), (3, 1), (2, 2, 2), (5,)]:
        k = int(np.prod(shape)) + 2
        for samples in (1, 2, 3, 4):
            for batch in (None, 1, 2, 3, 5, 7):
                depth = 0
                limit = 20000 if t else 700
                while k ** (depth + 1) <= limit and depth < 6:
                    depth += 1
                items.append((shape, samples, batch, depth))
    check.bounds = {"grids": "0-3 dimensions, up to 8 sections", "samples": "1-4", "batch size": "none, 1-7", "depth": "2-6 operations (up to %d histories per configuration), then drained" % (20000 if t else 700)}
    check.explore(shard, items)
