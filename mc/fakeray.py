"""A controlled stand-in for the ray runtime.

Every remote task runs in its own thread, but exactly one thread runs at a time.  At each
scheduling point (remote call, get, wait, put, sleep and - if enabled - every line of the
traced modules while another task of the same actor exists) a deterministic scheduler picks
the next thread.  `explore` enumerates all schedules deviating from the deterministic one by
at most `delays` skipped candidates (delay-bounded scheduling).

Arguments and results are pickled, as between the processes of a real cluster.
"""
from __future__ import annotations

import sys
import threading
import time

import ray
from ray import cloudpickle

RT = None  # the runtime of the current execution


class Killed(BaseException):
    pass


class Deadlock(AssertionError):
    pass


class Livelock(AssertionError):
    pass


class Ref:
    def __init__(self, rt, name):
        self.rt, self.name, self.done, self.data, self.error = rt, name, False, None, None
        self.id = len(rt.refs)
        rt.refs.append(self)

    def __reduce__(self):
        return (_ref, (self.id,))

    def set(self, value):
        self.data = cloudpickle.dumps(value)
        self.done = True

    def fail(self, error):
        self.error = error
        self.done = True

    def value(self):
        if self.error is not None:
            raise self.error
        return cloudpickle.loads(self.data)

    def __class_getitem__(cls, item):
        return cls


def _ref(i):
    return RT.refs[i]


def _handle(i):
    return RT.handles[i]


class Method:
    def __init__(self, handle, name):
        self.handle, self.name = handle, name

    def options(self, **_):
        return self

    def remote(self, *args, **kwargs):
        return self.handle._submit(self.name, args, kwargs)


class Handle:
    def __init__(self, rt, cls, concurrency, index):
        self._rt, self._cls, self._concurrency, self._index = rt, cls, concurrency, index
        self._instance, self._pending, self._running = None, [], 0

    def __reduce__(self):
        return (_handle, (self._index,))

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if not hasattr(self._cls, name):
            raise AttributeError(name)
        return Method(self, name)

    def _submit(self, name, args, kwargs):
        rt = self._rt
        ref = Ref(rt, "%s%d.%s" % (self._cls.__name__, self._index, name))
        payload = cloudpickle.dumps((args, kwargs))
        Task(rt, ref.name, self, name, payload, ref)
        rt.point("remote " + name)
        return ref


class RemoteClass:
    def __init__(self, cls, opts=None):
        self.cls, self.opts = cls, dict(opts or {})

    def options(self, **opts):
        return RemoteClass(self.cls, {**self.opts, **opts})

    def remote(self, *args, **kwargs):
        rt = RT
        h = Handle(rt, self.cls, int(self.opts.get("max_concurrency") or 1), len(rt.handles))
        rt.handles.append(h)
        h._submit("__init__", args, kwargs)
        return h


def remote(*args, **opts):
    if len(args) == 1 and isinstance(args[0], type):
        return RemoteClass(args[0])
    return lambda cls: RemoteClass(cls, opts)


def get(refs, *, timeout=None):
    rt = RT
    many = isinstance(refs, (list, tuple))
    todo = list(refs) if many else [refs]
    rt.point("get", lambda: all(r.done for r in todo))
    values = [r.value() for r in todo]
    return values if many else values[0]


def wait(refs, *, num_returns=1, timeout=None, fetch_local=True):
    rt = RT
    refs = list(refs)
    if not refs:
        return [], []
    if num_returns < 1 or num_returns > len(refs):
        raise ValueError("invalid num_returns %s for %d references" % (num_returns, len(refs)))
    if len(set(map(id, refs))) != len(refs):
        raise ValueError("wait requires unique references")
    if timeout is None:
        rt.point("wait", lambda: sum(r.done for r in refs) >= num_returns)
    else:
        rt.point("wait")
    ready = [r for r in refs if r.done][:num_returns]
    return ready, [r for r in refs if r not in ready]


def put(value):
    rt = RT
    ref = Ref(rt, "put")
    ref.set(value)
    rt.point("put")
    return ref


def sleep(_=0.0):
    if RT is None or RT.current_task() is None:
        return
    RT.point("sleep", back=True)


class Task:
    def __init__(self, rt, name, handle, method, payload, ref):
        self.rt, self.name, self.handle, self.method, self.payload, self.ref = rt, name, handle, method, payload, ref
        self.index = len(rt.tasks)
        self.started, self.finished, self.ready = False, False, None
        self.sem = threading.Semaphore(0)
        rt.tasks.append(self)
        rt.live.append(self)
        if handle is not None:
            handle._pending.append(self)

    def runnable(self):
        if self.finished:
            return False
        if self.started:
            return self.ready is None or self.ready()
        h = self.handle
        if h._instance is None:  # only the constructor may run
            return self.method == "__init__" and h._running == 0
        if h._running >= h._concurrency:
            return False
        return h._concurrency > 1 or h._pending[0] is self

    def start(self):
        self.started = True
        self.handle._pending.remove(self)
        self.handle._running += 1
        self.thread = threading.Thread(target=self.body, daemon=True)
        self.thread.start()

    def body(self):
        self.sem.acquire()
        rt = self.rt
        try:
            if rt.killed:
                return
            rt.local.task = self
            if rt.trace:
                sys.settrace(rt.tracer)
            args, kwargs = cloudpickle.loads(self.payload)
            args = tuple(a.value() if isinstance(a, Ref) else a for a in args)
            h = self.handle
            if self.method == "__init__":
                h._instance = h._cls(*args, **kwargs)
                result = None
            else:
                result = getattr(h._instance, self.method)(*args, **kwargs)
            sys.settrace(None)
            self.ref.set(result)
        except Killed:
            pass
        except BaseException as e:  # noqa
            sys.settrace(None)
            self.ref.fail(e)
            rt.errors.append((self.name, e))
        finally:
            sys.settrace(None)
            self.finished = True
            self.handle._running -= 1
            if self in rt.live:
                rt.live.remove(self)
            if not rt.killed:
                try:
                    nxt = rt.choose(self, False)
                except BaseException as e:  # noqa - deadlock: hand the problem to the driver
                    rt.fatal = e
                    nxt = rt.tasks[0]
                rt.resume(nxt)


class Runtime:
    def __init__(self, decisions, policy="block", trace=False, max_points=6000, modules=("core/pymonte",)):
        self.decisions, self.policy, self.trace, self.max_points, self.modules = decisions, policy, trace, max_points, modules
        self.refs, self.handles, self.tasks, self.live, self.errors = [], [], [], [], []
        self.choices = []  # number of candidates at every choice
        self.points = 0
        self.killed = False
        self.freeze = self.frozen = None
        self.fatal = None
        self.local = threading.local()
        self.log = []

    def current_task(self):
        return getattr(self.local, "task", None)

    # -- tracing ---------------------------------------------------------------------------
    def tracer(self, frame, event, arg):
        f = frame.f_code.co_filename
        if any(m in f for m in self.modules):
            return self.line
        return None

    def line(self, frame, event, arg):
        if event == "line":
            t = self.current_task()
            if t is not None and any(o is not t and o.handle is t.handle for o in self.live):
                self.point("line %d" % frame.f_lineno)
        return self.line

    # -- scheduling ------------------------------------------------------------------------
    def choose(self, current, keep, back=False):
        if self.points > self.max_points:
            raise Livelock("no termination within %d scheduling points" % self.max_points)
        cand = [t for t in self.live if t.runnable()]
        if not cand:
            raise Deadlock("no task can proceed: %s" % ", ".join("%s%s" % (t.name, "" if t.started else " (queued)") for t in self.live))
        i = current.index
        cand.sort(key=lambda t: ((t.index - i - 1) % (len(self.tasks) + 1)))
        if current in cand:
            cand.remove(current)
            if self.policy == "block" and keep and not back:
                cand.insert(0, current)
            else:
                cand.append(current)
        if len(cand) == 1:
            return cand[0]
        k = len(self.choices)
        self.choices.append(len(cand))
        if self.freeze is not None and self.freeze[0] == k:
            self.frozen = cand[0]
        if self.frozen is not None and k < self.freeze[0] + self.freeze[1] and self.frozen in cand:
            cand.remove(self.frozen)
            return cand[0]
        return cand[min(self.decisions.get(k, 0), len(cand) - 1)]

    def point(self, what, ready=None, back=False):
        me = self.current_task()
        if self.killed:
            raise Killed()
        self.points += 1
        me.ready = ready
        nxt = self.choose(me, True, back)
        if nxt is not me:
            self.resume(nxt)
            me.sem.acquire()
            if self.killed:
                raise Killed()
        me.ready = None
        if me.index == 0 and self.fatal is not None:
            raise self.fatal

    def resume(self, task):
        if not task.started:
            task.start()
        task.sem.release()

    # -- execution -------------------------------------------------------------------------
    def run(self, fn):
        global RT
        RT = self
        main = Task(self, "driver", None, None, None, None)
        main.started = True
        self.local.task = main
        if self.trace:
            pass  # the driver is a process of its own
        try:
            return fn()
        finally:
            self.killed = True
            self.local.task = None
            for t in list(self.live):
                if t.started and t.index and not t.finished:
                    t.sem.release()
            for t in self.tasks[1:]:
                if t.started:
                    t.thread.join(10)
            RT = None


def patch():
    """Redirect the ray package to the controlled runtime (before hermespy is imported)."""
    ray.remote, ray.get, ray.wait, ray.put = remote, get, wait, put
    ray.init = lambda *a, **k: None
    ray.is_initialized = lambda: True
    ray.available_resources = lambda: {"CPU": 2}
    ray.shutdown = lambda *a, **k: None
    ray.kill = lambda *a, **k: None
    ray.ObjectRef = Ref
    time.sleep = sleep  # only the code under test sleeps in a check using this module


def explore(make, delays, policy="block", trace=False, max_points=6000, part=0, parts=1):
    """Run `make()` under every schedule with up to `delays` deviations.

    With `parts` > 1 only the schedules whose first deviation is at an index congruent to `part`
    are executed.  `make` returns (fn, check): `fn` is executed by the driver, `check(result, runtime)` judges it.
    """
    stack = [({}, 0, delays)]
    runs = points = 0
    while stack:
        decisions, start, left = stack.pop()
        fn, check = make()
        rt = Runtime(decisions, policy, trace, max_points)
        result = rt.run(fn)
        runs += 1
        points += rt.points
        check(result, rt, decisions)
        if left > 0:
            for k in range(len(rt.choices) - 1, start - 1, -1):
                if not decisions and k % parts != part:
                    continue
                for skip in range(1, min(rt.choices[k] - 1, left) + 1):
                    stack.append(({**decisions, k: skip}, k + 1, left - skip))
    return runs, points


def explore_freezes(make, spans, policy="block", trace=False, max_points=20000, part=0, parts=1):
    """Run `make()` with every single task put to sleep at every choice for every given span.

    This covers tasks which take very long, for example the computation of a batch.
    """
    fn, check = make()
    rt = Runtime({}, policy, trace, max_points)
    check(rt.run(fn), rt, {})
    runs, points, n = 1, rt.points, len(rt.choices)
    for span in spans:
        for k in range(part, n, parts):
            fn, check = make()
            rt = Runtime({}, policy, trace, max_points)
            rt.freeze = (k, span)
            check(rt.run(fn), rt, {"freeze": (k, span)})
            runs += 1
            points += rt.points
    return runs, points
