"""Shared explorer infrastructure of the model-checking framework.

A *check* enumerates a bounded, finite set of cases (operation histories, schedules,
configurations x inputs) and executes each of them on the real HermesPy code next to a
deliberately boring reference model.  This module offers

* `Acc`      - accumulator handed to the code executing the cases of a shard
* `Check`    - bookkeeping of one run (tier, seed, shards, evidence, violations)
* `histories`- enumeration of all operation sequences up to a depth
* `digest`   - canonical hashing of states and outcomes
"""
from __future__ import annotations

import hashlib
import itertools
import json
import math
import multiprocessing as mp
import os
import random
import signal
import sys
import time
import traceback
import fnmatch
from dataclasses import dataclass, field

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.path.join(ROOT, "evidence")
REPLAYS = os.path.join(EVIDENCE, "replays")
PROFILE = bool(os.environ.get("HERMES_MC_PROFILE"))
KNOWN = os.path.join(ROOT, "known_findings.jsonl")


class CaseTimeout(BaseException):
    """A single case exceeded its time limit."""


class Mismatch(AssertionError):
    """The implementation disagrees with the reference."""


def expect(cond, msg="", *args):
    if not cond:
        raise Mismatch(msg % args if args else msg)


def jsonable(x, depth=0):
    import numpy as np

    if depth > 8:
        return repr(x)[:200]
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [jsonable(v, depth + 1) for v in x]
    if isinstance(x, np.ndarray):
        return {"ndarray": jsonable(x.tolist() if x.size <= 64 else repr(x)[:400], depth + 1), "shape": list(x.shape)}
    if isinstance(x, np.generic):
        return jsonable(x.item(), depth + 1)
    if isinstance(x, complex):
        return repr(x)
    if isinstance(x, float) and not math.isfinite(x):
        return repr(x)
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)[:300]


def digest(*parts) -> str:
    h = hashlib.blake2b(digest_size=12)

    def feed(x):
        import numpy as np

        if isinstance(x, np.ndarray):
            h.update(b"A" + str(x.shape).encode())
            if x.dtype.kind in "fc":
                y = np.round(np.asarray(x, dtype=complex), 9) + 0.0
                h.update(np.ascontiguousarray(y).tobytes())
            elif x.dtype.kind == "O":
                for v in x.flat:
                    feed(v)
            else:
                h.update(np.ascontiguousarray(x.astype(np.int64)).tobytes())
        elif isinstance(x, dict):
            h.update(b"D")
            for k in sorted(x, key=repr):
                feed(k)
                feed(x[k])
        elif isinstance(x, (list, tuple)):
            h.update(b"L%d" % len(x))
            for v in x:
                feed(v)
        elif isinstance(x, (set, frozenset)):
            feed(sorted(x, key=repr))
        elif isinstance(x, float):
            h.update(b"F" + repr(round(x, 9) + 0.0).encode())
        else:
            h.update(repr(x).encode())
        h.update(b"|")

    for p in parts:
        feed(p)
    return h.hexdigest()


class Acc:
    """Accumulates what a shard of a check covered."""

    MAX_VIOLATIONS = 12

    def __init__(self, prop: str, case_timeout: float = 60.0):
        self.prop = prop
        self.case_timeout = case_timeout
        self.states: set[str] = set()
        self.transitions = 0
        self.traces = 0
        self.cases = 0
        self.samples: list = []
        self.violations: list[dict] = []
        self.suppressed = 0
        self.counters: dict[str, int] = {}
        self.known = load_known(prop)
        self.known_seen: set[str] = set()

    def state(self, *parts):
        self.states.add(digest(*parts))

    def step(self, n: int = 1):
        self.transitions += n

    def count(self, name: str, n: int = 1):
        self.counters[name] = self.counters.get(name, 0) + n

    def violation(self, signature: str, detail, case=None):
        for k in self.known:  # listed findings never displace an unlisted violation
            if fnmatch.fnmatchcase(signature, k["match"]) and k.get("detail", "") in str(detail):
                self.known_seen.add(k["match"])
                return
        if len(self.violations) >= self.MAX_VIOLATIONS:
            self.suppressed += 1
            return
        self.violations.append({"signature": signature, "detail": jsonable(detail), "case": jsonable(case)})

    def run(self, signature: str, fn, case=None, sample: bool = True):
        """Execute one case.  Mismatches and unexpected exceptions become violations."""

        self.cases += 1
        if PROFILE:
            t = time.perf_counter()
            try:
                return self._run(signature, fn, case, sample)
            finally:
                self.count("us:" + signature, int(1e6 * (time.perf_counter() - t)))
        return self._run(signature, fn, case, sample)

    def _run(self, signature: str, fn, case, sample: bool):

        started, used = time.monotonic(), time.process_time()

        def on_alarm(*_):
            # A machine that stalls lets neither the case nor its processor time proceed
            if time.process_time() - used < 0.8 * self.case_timeout and time.monotonic() - started < 5 * self.case_timeout:
                signal.setitimer(signal.ITIMER_REAL, 0.2 * self.case_timeout)
                return
            raise CaseTimeout()

        old = signal.signal(signal.SIGALRM, on_alarm)
        signal.setitimer(signal.ITIMER_REAL, self.case_timeout)
        try:
            out = fn()
            self.traces += 1
            if sample and len(self.samples) < 3:
                self.samples.append({"case": jsonable(case if case is not None else signature), "outcome": jsonable(out)})
            return True
        except Mismatch as e:
            signal.setitimer(signal.ITIMER_REAL, 0)
            self.violation(signature, str(e), case)
        except CaseTimeout:
            self.violation(signature, f"no termination within {self.case_timeout} s", case)
        except KeyboardInterrupt:
            raise
        except BaseException as e:  # noqa - unexpected exception of the code under test
            signal.setitimer(signal.ITIMER_REAL, 0)
            self.violation(signature, "unexpected %s: %s\n%s" % (type(e).__name__, e, "".join(traceback.format_exc()[-1800:])), case)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)
        return False

    def merge(self, other: "Acc"):
        self.states |= other.states
        self.transitions += other.transitions
        self.traces += other.traces
        self.cases += other.cases
        self.suppressed += other.suppressed
        for k, v in other.counters.items():
            self.counters[k] = self.counters.get(k, 0) + v
        self.samples = (self.samples + other.samples)[:6]
        self.violations = self.violations + other.violations
        self.known_seen |= other.known_seen


_WORK = {}


def _worker(i):
    prop, fn, shards, timeout = _WORK["job"]
    acc = Acc(prop, timeout)
    try:
        fn(acc, shards[i])
    except KeyboardInterrupt:
        raise
    except BaseException as e:  # an exception outside of a case
        acc.violation("shard:%s" % (shards[i],), "unexpected %s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-2500:]), shards[i])
    return i, acc


class Check:
    """One run of the check of a property."""

    def __init__(self, prop: str, level: str = "model_checking"):
        self.prop = prop
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.thorough = self.tier == "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.start = time.time()
        self.acc = Acc(prop)
        self.assumptions: list[str] = []
        self.bounds: dict = {}
        self.exhaustive = True
        self.extra: dict = {}

    def explore(self, fn, shards, procs: int | None = None, case_timeout: float = 60.0):
        """Execute `fn(acc, shard)` for every shard, distributed over forked workers."""

        shards = list(shards)
        order = list(range(len(shards)))
        random.Random(self.seed).shuffle(order)  # the order never influences the verdict
        if procs is None:
            procs = min(8, os.cpu_count() or 1, max(1, len(shards)))
        _WORK["job"] = (self.prop, fn, shards, case_timeout)
        results = {}
        if procs <= 1:
            for i in order:
                _, a = _worker(i)
                results[i] = a
        else:
            ctx = mp.get_context("fork")
            with ctx.Pool(procs) as pool:
                for i, a in pool.imap_unordered(_worker, order, chunksize=1):
                    results[i] = a
        for i in range(len(shards)):  # merge deterministically
            self.acc.merge(results[i])
        return self.acc

    # -- reporting -------------------------------------------------------------------
    def finish(self) -> int:
        os.makedirs(REPLAYS, exist_ok=True)
        reported = self.acc.violations
        for k in load_known(self.prop):
            if k["match"] in self.acc.known_seen:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))

        code = 0
        # One example per kind of violation first
        first: dict = {}
        for v in reported:
            first.setdefault(v["signature"], v)
        reported = list(first.values()) + [v for v in reported if first[v["signature"]] is not v]
        limit = int(os.environ.get("HERMES_MC_REPORTS", "5"))
        for n, v in enumerate(reported[:limit]):
            path = os.path.join(REPLAYS, "%s-%d.json" % (self.prop, n))
            with open(path, "w") as f:
                json.dump({"property": self.prop, "tier": self.tier, "seed": self.seed, **v}, f, indent=1)
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            print("  case: %s" % v["signature"][:400])
            for line in str(v["detail"]).splitlines()[:14]:
                print("    " + line[:300])
            code = 1
        if len(reported) > limit:
            print("  ... %d more (and %d suppressed)" % (len(reported) - limit, self.acc.suppressed))

        a = self.acc
        evidence = {
            "property": self.prop,
            "tier": self.tier if self.tier in ("quick", "thorough") else "quick",
            "seed": self.seed,
            "level": self.level,
            "coverage": {
                "states": len(a.states),
                "transitions": a.transitions,
                "traces_validated_against_impl": a.traces,
                "evaluations": a.cases,
                "exhaustive": bool(self.exhaustive),
                "bounds": jsonable(self.bounds),
                "counters": a.counters,
                "samples": a.samples or [{"note": "no sample"}],
                **self.extra,
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.start, 3),
            "violations": len(reported),
        }
        with open(os.path.join(EVIDENCE, self.prop + ".json"), "w") as f:
            json.dump(evidence, f, indent=1)
        print(
            "%s %s: %d cases, %d states, %d transitions, %d traces, %d violations, %.1f s"
            % (self.prop, self.tier, a.cases, len(a.states), a.transitions, a.traces, len(reported), time.time() - self.start)
        )
        return code


def load_known(prop):
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if not line or line.startswith("fixed:") or line.startswith("#"):
                continue
            k = json.loads(line)
            if k["property"] == prop:
                out.append(k)
    return out


def histories(alphabet, depth, start=0):
    """All operation sequences over `alphabet` with start <= length <= depth."""

    for n in range(start, depth + 1):
        yield from itertools.product(alphabet, repeat=n)


def chunks(seq, n):
    seq = list(seq)
    k = max(1, -(-len(seq) // n))
    return [seq[i : i + k] for i in range(0, len(seq), k)]
