"""P40: executables keep their results apart and honour their output settings."""
import builtins
import contextlib
import io
import itertools
import os
import re
import shutil
import tempfile
import threading

import matplotlib.pyplot as plt
from rich.console import Console

import hermespy.core.executable as ex
from hermespy.core import ConsoleMode, Executable, Verbosity
from ..core import chunks, expect, histories

CALLS = ("mkdir", "stat", "lstat", "rmdir", "unlink", "rename", "replace", "listdir", "scandir", "open")
NAME = re.compile(r"\d{4}-\d\d-\d\d_(\d+)$")


class Stub(Executable):
    action = None

    def run(self):
        return None if self.action is None else self.action()


class Killed(BaseException):
    pass


class Schedule:
    """Runs callers one at a time, switching only at their file system calls."""

    def __init__(self, prefix, budget, crash=None):
        self.prefix, self.budget, self.crash = list(prefix), budget, crash
        self.trace, self.me = [], threading.local()
        self.cond = threading.Condition()
        self.running, self.alive, self.counts = None, [], {}

    def choose(self, options):
        i = len(self.trace)
        c = self.prefix[i] if i < len(self.prefix) else 0
        self.trace.append((c, len(options)))
        return options[c]

    def pick(self, current):
        """The running caller goes on by default, switching to another one costs a preemption."""
        others = [a for a in self.alive if a != current]
        if current in self.alive:
            options = [current] + (others if self.budget else [])
        else:
            options = others
        if not options:
            return None
        n = options[0] if len(options) == 1 else self.choose(options)
        if current in self.alive and n != current:
            self.budget -= 1
        return n

    def point(self):
        name = getattr(self.me, "name", None)
        if name is None:
            return
        n = self.counts[name] = self.counts.get(name, 0) + 1
        if self.crash == (name, n):
            raise Killed()
        with self.cond:
            self.running = self.pick(name)
            self.cond.notify_all()
            self.cond.wait_for(lambda: self.running == name)

    def run(self, bodies):
        results = {}

        def main(name, body):
            self.me.name = name
            with self.cond:
                self.cond.wait_for(lambda: self.running == name)
            try:
                results[name] = ("ok", body())
            except Killed:
                results[name] = ("killed", None)
            except BaseException as e:
                results[name] = ("error", "%s: %s" % (type(e).__name__, e))
            self.me.name = None
            with self.cond:
                self.alive.remove(name)
                self.running = self.pick(None)
                self.cond.notify_all()

        self.alive = list(range(len(bodies)))
        threads = [threading.Thread(target=main, args=x, daemon=True) for x in enumerate(bodies)]
        for t in threads:
            t.start()
        with self.cond:
            self.running = self.pick(None)
            self.cond.notify_all()
        for t in threads:
            t.join(30)
            expect(not t.is_alive(), "a caller doesn't return")
        return results


@contextlib.contextmanager
def intercepted(schedule):
    """Every file system call of the executables' module and the modules below is a scheduling point."""
    saved = []

    def patch(owner, name, fn):
        saved.append((owner, name, getattr(owner, name)))
        setattr(owner, name, fn)

    wrapped = {}
    for n in CALLS:
        real = getattr(os, n)

        def call(*a, _real=real, **k):
            schedule.point()
            return _real(*a, **k)

        wrapped[real] = call
        patch(os, n, call)
    for n, v in list(vars(ex).items()):
        with contextlib.suppress(TypeError):
            if v in wrapped:
                patch(ex, n, wrapped[v])
    real_exists = os.path.exists

    def exists(*a):
        schedule.point()
        return real_exists(*a)

    if real_exists.__module__ != "genericpath" or not hasattr(real_exists, "__code__"):
        patch(os.path, "exists", exists)  # Implemented natively, doesn't call os.stat
    try:
        yield
    finally:
        for owner, name, value in reversed(saved):
            setattr(owner, name, value)


class Scratch:
    """A working directory holding previous results."""

    def __init__(self, previous):
        self.root = tempfile.mkdtemp(prefix="mc-p40-")
        self.previous = []
        try:
            import datetime
            self.today = str(datetime.date.today())
            for p in previous:
                self.add(p)
        except BaseException:
            self.close()
            raise

    def add(self, p):
        d = os.path.join(self.root, "results", p.replace("$", self.today))
        os.makedirs(d, exist_ok=True)
        f = os.path.join(d, "results.mat")
        with open(f, "w") as h:
            h.write(p)
        self.previous.append((f, p))

    def untouched(self):
        for f, p in self.previous:
            expect(os.path.isfile(f), "previous results %s removed", p)
            with open(f) as h:
                expect(h.read() == p, "previous results %s modified", p)

    def close(self):
        shutil.rmtree(self.root)

    def __enter__(self):
        self.cwd = os.getcwd()
        os.chdir(self.root)
        return self

    def __exit__(self, *_):
        os.chdir(self.cwd)
        self.close()


def base_of(w, experiment):
    base = os.path.join(os.path.realpath(w.root), "results")
    return base if experiment is None else os.path.join(base, experiment)


def check_dir(w, result, experiment, overwrite, before):
    kind, d = result
    expect(kind == "ok", "failed with %s", d)
    base = base_of(w, experiment)
    expect(os.path.isdir(d), "%s doesn't exist", d)
    d = os.path.realpath(d)
    if overwrite:
        expect(d == base, "results directory %s instead of %s", d, base)
        return None
    expect(os.path.dirname(d) == base and NAME.match(os.path.basename(d)), "results directory %s", d)
    expect(os.path.basename(d).startswith(w.today + "_"), "results directory %s isn't dated %s", d, w.today)
    expect(d not in before, "results directory %s existed before", d)
    return d


def existing(w):
    return {os.path.realpath(os.path.join(r, x)) for r, ds, _ in os.walk(w.root) for x in ds}


def first_free(before, base, today):
    i = 0
    while os.path.join(base, "%s_%03d" % (today, i)) in before:
        i += 1
    return i


def schedules(make, limit):
    """Depth first enumeration of the schedules of a set of callers."""
    prefix = []
    while True:
        trace = make(prefix)
        yield trace
        while trace and trace[-1][0] + 1 >= trace[-1][1]:
            trace.pop()
        if not trace:
            return
        prefix = [c for c, _ in trace[:-1]] + [trace[-1][0] + 1]
        limit -= 1
        if limit < 0:
            raise RuntimeError("too many schedules")


def check_race(acc, previous, callers, budget, crash):
    n = 0

    def make(prefix):
        s = Schedule(prefix, budget, crash)
        with Scratch(previous) as w:
            before = existing(w)
            with intercepted(s):
                results = s.run([lambda e=e, o=o: Executable.default_results_dir(e, o) for e, o in callers])
            acc.step(sum(s.counts.values()))
            dirs = []
            for i, (e, o) in enumerate(callers):
                if results[i][0] == "killed":
                    continue
                dirs.append(check_dir(w, results[i], e, o, before))
            mine = [d for d in dirs if d is not None]
            expect(len(set(mine)) == len(mine), "shared results directory %s", mine)
            for d in mine:
                expect(os.listdir(d) == [] or not d.endswith(tuple("0123456789")), "results directory %s isn't empty", d)
            for e in {e for e, o in callers if not o}:
                base = base_of(w, e)
                got = sorted(int(NAME.match(os.path.basename(d)).group(1)) for d in mine if os.path.dirname(d) == base)
                if crash is None and sum(1 for d in before if os.path.dirname(d) == base) == first_free(before, base, w.today):
                    k = first_free(before, base, w.today)
                    expect(got == list(range(k, k + len(got))), "indices %s instead of %d and following", got, k)
            w.untouched()
            # A run started afterwards finds a directory of its own
            late = check_dir(w, ("ok", Executable.default_results_dir(callers[0][0])), callers[0][0], False, before | set(mine))
            expect(late not in mine, "later run shares %s", late)
            acc.state(previous, callers, sorted(os.path.relpath(x, w.root) for x in existing(w)))
        acc.count("schedules")
        return s.trace

    for _ in schedules(make, 400000):
        n += 1


def check_sequence(acc, ops):
    """Runs following each other, with results written and removed in between."""
    with Scratch(()) as w:
        removed = None
        for o in ops:
            acc.step()
            before = existing(w)
            if o == "file":
                base = base_of(w, None)
                os.makedirs(base, exist_ok=True)
                p = os.path.join(base, "%s_%03d" % (w.today, first_free(before, base, w.today)))
                if not os.path.exists(p):
                    with open(p, "w"):
                        pass
                continue
            if o == "remove":
                mine = sorted(d for d in before if NAME.search(d))
                if mine:
                    removed = mine[0]
                    w.previous = [(f, p) for f, p in w.previous if not os.path.realpath(f).startswith(removed + os.sep)]
                    shutil.rmtree(removed)
                continue
            e, overwrite = o
            d = check_dir(w, ("ok", Executable.default_results_dir(e, overwrite)), e, overwrite, before)
            if d is not None:
                f = os.path.join(d, "results.mat")
                with open(f, "w") as h:
                    h.write(f)
                w.previous.append((f, f))
            stub = Stub(results_dir=Executable.default_results_dir(e, True) if d is None else d)
            expect(os.path.isdir(stub.results_dir), "results directory")
            w.untouched()
            acc.state(sorted(os.path.relpath(x, w.root) for x in existing(w)))


def check_directory(acc, ops):
    """The results directory is a directory or unset, rejected ones leave it."""
    with Scratch(("a", "b")) as w:
        with open("file", "w"):
            pass
        e, now = Stub(), None
        expect(e.results_dir is None, "results directory %s", e.results_dir)
        for o in ops:
            acc.step()
            good = o is None or os.path.isdir(o)
            try:
                e.results_dir = o
                expect(good, "%s accepted", o)
                now = o
            except ValueError:
                expect(not good, "%s rejected", o)
            expect(e.results_dir == now, "results directory %s instead of %s", e.results_dir, now)
            try:
                expect(Stub(results_dir=o).results_dir == o and good, "results directory of another executable")
            except ValueError:
                expect(not good, "%s rejected at construction", o)
            acc.state(ops[:1], now)


def check_settings(acc, ops):
    """Verbosity, console and console mode set by name or value."""
    e = Stub(verbosity=Verbosity.INFO, console_mode=ConsoleMode.LINEAR, debug=False)
    want = {"verbosity": Verbosity.INFO, "console_mode": ConsoleMode.LINEAR, "style": None}
    try:
        for kind, v in ops:
            acc.step()
            if kind == "verbosity":
                good = v if isinstance(v, Verbosity) else getattr(Verbosity, v.upper(), None)
            elif kind == "console_mode":
                good = v if isinstance(v, ConsoleMode) else getattr(ConsoleMode, v, None)
            else:
                good = v if v in ("dark", "light") or v in plt.style.available else None
            try:
                setattr(e, kind, v)
                expect(good is not None, "%s %s accepted", kind, v)
                want[kind] = good
            except (KeyError, ValueError):
                expect(good is None, "%s %s rejected", kind, v)
            for k, x in want.items():
                expect(x is None or getattr(e, k) == x, "%s is %s instead of %s", k, getattr(e, k), x)
            acc.state(str(want))
        check_context(acc, e, want["style"])
    finally:
        e.style = "dark"


def rc(style):
    """Parameters the style applies."""
    if style in ("dark", "light"):
        style = os.path.join(os.path.dirname(ex.__file__), "styles", style + ".mplstyle")
    with plt.style.context(style):
        return dict(plt.rcParams)


class Failure(Exception):
    pass


def check_context(acc, e, style):
    """The style applies while running, and only then, even if the run fails."""
    before = dict(plt.rcParams)
    want = rc(style or "dark")
    seen = []

    def look():
        seen.append(dict(plt.rcParams))

    def fail():
        look()
        raise Failure()

    for action in (look, fail):
        acc.step()
        e.action = action
        try:
            e.execute()
            expect(action is look, "failure of the run lost")
        except Failure:
            expect(action is fail, "unexpected failure")
        expect(dict(plt.rcParams) == before, "style remains after the run")
    with Executable.style_context():
        look()
    expect(dict(plt.rcParams) == before, "style remains")
    expect(len(seen) == 3, "run %d times", len(seen) - 1)
    for s in seen:
        diff = [k for k in want if s[k] != want[k]]
        expect(not diff, "style %s not applied: %s", style, diff[:4])


def check_exception(acc, debug, verbosity, mode, force, confirm, answer):
    acc.step()
    out = io.StringIO()
    c = Console(file=out, width=120)
    e = Stub(verbosity=verbosity, console=c, console_mode=mode, debug=debug)
    asked = []

    def ask(*a, **k):
        asked.append(1)
        return answer

    saved = ex.Confirm.ask
    ex.Confirm.ask = ask
    end = None
    try:
        try:
            raise Failure("the failure")
        except Failure as f:
            failure = f
            try:
                e._handle_exception(f, force=force, confirm=confirm, show_locals=False)
            except BaseException as x:
                end = x
    finally:
        ex.Confirm.ask = saved
    if debug:
        expect(end is failure and not asked and not out.getvalue(), "debugged failure ends with %s", end)
        return
    if mode == ConsoleMode.SILENT and not force:
        shown = "the failure" in out.getvalue()  # Silent consoles may still print errors
    else:
        shown = force or verbosity != Verbosity.NONE
        expect(("the failure" in out.getvalue()) == shown, "failure %sprinted", "not " if shown else "")
    expect(bool(asked) == (shown and confirm), "%s for confirmation", "asked" if asked else "not asked")
    if asked and not answer:
        expect(isinstance(end, SystemExit), "declined, but ended with %s", end)
    else:
        expect(end is None, "ended with %s", end)


KINDS = {"race": check_race, "sequence": check_sequence, "directory": check_directory, "settings": check_settings, "exception": check_exception}


def run_cases(acc, shard):
    for c in shard:
        acc.run(c[0], lambda: KINDS[c[0]](acc, *c[1:]), case=c)


def main(check):
    t = check.thorough
    N, O, E = (None, False), (None, True), ("experiment", False)
    previous = [(), ("",), ("$_000",), ("$_000", "$_001"), ("$_001",), ("2001-02-03_000", "experiment/$_000"), ("$_000", "$_002")]
    cases = []
    for p in previous:
        for callers in ((N, N), (N, E), (E, E), (N, O), (O, O), (E, ("experiment", True))):
            cases.append(("race", p, callers, 99 if t else 3, None))
        for callers in ((N, N, N), (N, E, N), (N, N, O)):
            cases.append(("race", p, callers, 3 if t else 2, None))
        for callers in ((N, N), (E, E), (N, O)):
            for k in range(1, 9):
                for who in (0, 1):
                    cases.append(("race", p, callers, 3 if t else 1, (who, k)))
    ops = [N, E, O, ("experiment", True), ("other", False), "file", "remove"]
    cases += [("sequence", h) for h in histories(ops, 5 if t else 4, 1)]
    dirs = [None, "results/a", "results/b", "missing", "file", "."]
    cases += [("directory", h) for h in histories(dirs, 4 if t else 3, 1)]
    sets = [("verbosity", v) for v in (*Verbosity, "all", "NONE", "Info", "loud")] + [("console_mode", m) for m in (*ConsoleMode, "SILENT", "INTERACTIVE", "LOUD")] + [("style", s) for s in ("light", "dark", plt.style.available[0], "no such style")]
    cases += [("settings", h) for h in histories(sets, 2, 0)]
    styles = [x for x in sets if x[0] == "style"]
    cases += [("settings", h) for h in histories(styles, 4, 3)]
    cases += [("exception", *x) for x in itertools.product((False, True), Verbosity, ConsoleMode, (False, True), (False, True), (False, True))]
    check.explore(run_cases, chunks(cases, 256), case_timeout=600)
    check.bounds = {"concurrent callers": 3, "preemptions of two callers": 99 if t else 3, "preemptions of three callers": 3 if t else 2, "depth of sequences": 5 if t else 4, "cases": len(cases)}
    check.assumptions = ["file system calls are atomic and the only scheduling points", "the date doesn't change during a check"]
