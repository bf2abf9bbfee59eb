"""P16: hooks observe every output exactly once from their registration to their removal."""
import itertools
import os
import shutil
import tempfile

import numpy as np

from hermespy.core import Hook, Hookable, Signal, SignalReceiver, SignalTransmitter, Transformation
from hermespy.jcas import MatchedFilterJcas
from hermespy.modem import ReceivingModem, RootRaisedCosineWaveform, TransmittingModem
from hermespy.radar import FMCW, Radar
from hermespy.simulation import SimulatedDevice, SimulationScenario
from ..core import chunks, expect, histories
from .p23 import MODELS, SLOW


class Log:
    """Callback recording the outputs it was notified of."""

    def __init__(self):
        self.seen = []

    def __call__(self, output):
        self.seen.append(output)


def same(seen, wanted, note):
    expect(len(seen) == len(wanted) and all(a is b for a, b in zip(seen, wanted)), "%s: notified of %d outputs instead of %d", note, len(seen), len(wanted))


def hookable(acc, case):
    """Histories of registrations, removals and notifications, including those within callbacks."""
    _, history = case
    h = Hookable()
    logs, hooks, active, wanted = [Log() for _ in range(3)], [[] for _ in range(3)], [[] for _ in range(3)], [[] for _ in range(3)]
    extra, pending = [], []

    for step, (op, i) in enumerate(history):
        acc.step()
        if op == "callback":
            hook = h.add_callback(logs[i])
            expect(isinstance(hook, Hook), "no hook returned")
            hooks[i].append(hook)
            active[i].append(hook)
        elif op == "hook":
            # Registering the same hook again has no effect, removed hooks become active again
            if hooks[i]:
                h.add_hook(hooks[i][-1])
                if hooks[i][-1] not in active[i]:
                    active[i].append(hooks[i][-1])
        elif op == "remove":
            # Removing a removed hook has no effect
            if hooks[i]:
                hooks[i][0].remove() if step % 2 else h.remove_hook(hooks[i][0])
                if hooks[i][0] in active[i]:
                    active[i].remove(hooks[i][0])
                if len(hooks[i]) > 1:
                    hooks[i].pop(0)
        elif op == "once":
            # A callback removing its own hook
            entry = {"count": 0, "wanted": 1}

            def once(output, e=entry):
                e["count"] += 1
                e["hook"].remove()

            entry["hook"] = h.add_callback(once)
            pending.append(entry)
        elif op == "spawn":
            # A callback registering another one, which is notified from the next output on
            entry = {"log": Log(), "count": 0, "wanted": 1, "since": None}

            def spawn(output, e=entry):
                e["count"] += 1
                e["hook"].remove()
                h.add_callback(e["log"])

            entry["hook"] = h.add_callback(spawn)
            pending.append(entry)
            extra.append(entry)
        elif op == "notify":
            output = object()
            h.notify(output)
            for j in range(3):
                wanted[j] += [output] * len(active[j])
            for e in extra:
                if e["since"] is None:
                    e["since"] = [output]
                else:
                    e["since"].append(output)
            for e in pending:
                expect(e["count"] == 1, "callback removing itself was notified %d times", e["count"])
    for j in range(3):
        same(logs[j].seen, wanted[j], "callback %d" % j)
    for e in extra:
        # Being notified of the output during which it was registered is optional
        seen = e["log"].seen
        if e["since"]:
            expect(seen in (e["since"], e["since"][1:]), "callback registered while notifying saw %d of %d outputs", len(seen), len(e["since"]))
        else:
            expect(not seen, "unregistered callback was notified")
    acc.state(tuple(map(len, active)))


WAVE = lambda: RootRaisedCosineWaveform(num_preamble_symbols=0, num_data_symbols=8, modulation_order=4)
RATE = 1e6
TRANSMITTERS = {
    "signal": lambda: SignalTransmitter(Signal.Create(np.ones((1, 20), dtype=complex), RATE)),
    "modem": lambda: TransmittingModem(waveform=WAVE()),
    "radar": lambda: Radar(waveform=FMCW(2, 20e-6, 20e-6)),
    "joint": lambda: MatchedFilterJcas(300.0, waveform=WAVE()),
}
RECEIVERS = {
    "signal": lambda: SignalReceiver(20),
    "modem": lambda: ReceivingModem(waveform=WAVE()),
    "radar": lambda: Radar(waveform=FMCW(2, 20e-6, 20e-6)),
    "joint": lambda: MatchedFilterJcas(300.0, waveform=WAVE()),
}


def operator(acc, case):
    _, side, kind, history = case
    device = SimulatedDevice(bandwidth=RATE, oversampling_factor=1)
    state = device.state()
    op = (TRANSMITTERS if side == "transmit" else RECEIVERS)[kind]()
    if kind == "joint" and side == "receive":
        op.transmit(state)
    logs, hooks, wanted = [Log(), Log()], [None, None], [[], []]
    produced = []
    for o in history:
        acc.step()
        if o[0] == "add":
            if hooks[o[1]] is None:
                hooks[o[1]] = (op.add_transmit_callback if side == "transmit" else op.add_receive_callback)(logs[o[1]])
        elif o[0] == "remove":
            if hooks[o[1]] is not None:
                hooks[o[1]].remove()
                hooks[o[1]] = None
        else:
            _, notify, alone = o
            signal = Signal.Create(np.ones((1, 20), dtype=complex), RATE, 1e9)
            if alone:
                out = op.transmit(state, notify=notify) if side == "transmit" else op.receive(signal, state, notify=notify)
            else:
                container = device.transmitters if side == "transmit" else device.receivers
                if op not in list(container):
                    container.add(op)
                out = (device.transmit_operators(state, notify=notify) if side == "transmit" else device.receive_operators([signal], state, notify=notify))[0]
            expect(not any(out is p for p in produced), "the same output was returned twice")
            produced.append(out)
            if notify:
                for w, h in zip(wanted, hooks):
                    if h is not None:
                        w.append(out)
    for i in range(2):
        same(logs[i].seen, wanted[i], "callback %d of a %s %s" % (i, kind, side))
    acc.state((side, kind, tuple(h is not None for h in hooks)))


def device(acc, case):
    """Callbacks of simulated devices."""
    _, history = case
    d = SimulatedDevice(bandwidth=RATE, oversampling_factor=1)
    tx, rx = TRANSMITTERS["signal"](), RECEIVERS["signal"]()
    d.transmitters.add(tx)
    d.receivers.add(rx)
    points = {"out": d.output_callbacks, "in": d.input_callbacks, "sim out": d.simulated_output_callbacks, "sim in": d.simulated_input_callbacks}
    adders = {k: v.add_callback for k, v in points.items()}
    adders["tx"], adders["rx"] = tx.add_transmit_callback, rx.add_receive_callback
    logs = {k: Log() for k in adders}
    hooks, counts = {}, dict.fromkeys(adders, 0)
    last = {}

    def hit(*keys):
        for k in keys:
            if k in hooks:
                counts[k] += 1

    for op in history:
        acc.step()
        if op[0] == "toggle":
            for k in op[1]:
                if k in hooks:
                    hooks.pop(k).remove()
                else:
                    hooks[k] = adders[k](logs[k])
        elif op[0] == "transmit":
            out = d.transmit(d.state(), notify=op[1])
            hit("out", "sim out", *(("tx",) if op[1] else ()))
            last["output"] = out
        elif op[0] == "receive":
            d.receive(Signal.Create(np.ones((1, 20), dtype=complex), RATE, 0.0), d.state(), notify=op[1])
            hit("in", "sim in", *(("rx",) if op[1] else ()))
        elif op[0] == "output":
            out = d.generate_output([tx.transmit(d.state(), notify=False)], d.state())
            hit("out", "sim out")
            for k in ("out", "sim out"):
                if k in hooks:
                    expect(logs[k].seen[-1] is out, "%s callback was notified of another output", k)
        elif op[0] == "input":
            processed = d.process_input(Signal.Create(np.ones((1, 20), dtype=complex), RATE, 0.0), d.state())
            hit("in", "sim in")
            for k in ("in", "sim in"):
                if k in hooks:
                    expect(logs[k].seen[-1] is processed, "%s callback was notified of another input", k)
        for k in adders:
            expect(len(logs[k].seen) == counts[k], "%s callback: notified of %d instead of %d outputs after %s", k, len(logs[k].seen), counts[k], op)
    acc.state(tuple(sorted(hooks)))


def channel(acc, case):
    """Sample hooks of channels, selecting the link's devices."""
    _, name, filters, history = case
    c = MODELS[name](1.0)
    devices = [SimulatedDevice(bandwidth=RATE, oversampling_factor=1, carrier_frequency=1e9, pose=Transformation.From_Translation(np.array(p))) for p in ((0.0, 0, 0), (60.0, 10, 1.5), (20.0, 80.0, 1.5))]
    a, b, x = devices
    logs = [Log() for _ in filters]
    hooks = [None] * len(filters)
    wanted = [[] for _ in filters]
    realization, registered = None, []
    sample = None

    def observe(s, tx, rx, active):
        for i in active:
            t, r = filters[i]
            if (t is None or devices[t] is tx) and (r is None or devices[r] is rx):
                wanted[i].append(s)

    for step, op in enumerate(history):
        acc.step()
        if op == "add" or op == "remove":
            for i in range(len(filters)):
                if op == "add" and hooks[i] is None:
                    hooks[i] = c.add_sample_hook(logs[i], None if filters[i][0] is None else devices[filters[i][0]], None if filters[i][1] is None else devices[filters[i][1]])
                    expect(hooks[i] in c.sample_hooks, "hook isn't registered")
                elif op == "remove" and hooks[i] is not None:
                    c.remove_sample_hook(hooks[i])
                    c.remove_sample_hook(hooks[i])
                    expect(hooks[i] not in c.sample_hooks, "hook wasn't removed")
                    hooks[i] = None
            expect(len(c.sample_hooks) == sum(h is not None for h in hooks), "%d hooks registered", len(c.sample_hooks))
            c.sample_hooks.clear()
            expect(len(c.sample_hooks) == sum(h is not None for h in hooks), "copies of the hooks aren't independent")
            continue
        if op == "realize" or realization is None:
            realization = c.realize()
            # Hooks registered at its realization observe the realization's samples
            registered = [i for i, h in enumerate(hooks) if h is not None]
            if op == "realize":
                continue
        if op == "propagate":
            tx, rx = (a, b) if step % 2 else (b, a)
            before = [len(l.seen) for l in logs]
            c.propagate(Signal.Create(np.ones((1, 8), dtype=complex), RATE, 1e9), tx, rx)
            for i, h in enumerate(hooks):
                matches = h is not None and filters[i][0] in (None, devices.index(tx)) and filters[i][1] in (None, devices.index(rx))
                expect(len(logs[i].seen) - before[i] == matches, "hook of link %s notified %d times by a propagation from %d to %d", filters[i], len(logs[i].seen) - before[i], devices.index(tx), devices.index(rx))
                if matches:
                    wanted[i].append(logs[i].seen[-1])
            realization = c.realization
            registered = [i for i, h in enumerate(hooks) if h is not None]
        elif op == "devices" or sample is None:
            sample = realization.sample(a, b, 0.0)
            observe(sample, a, b, registered)
            source = realization
        elif op == "states":
            s = realization.sample(x.state(0.0), b.state(0.0))
            observe(s, x, b, registered)
        elif op == "reciprocal":
            s = source.reciprocal_sample(sample, b, a, 0.0) if source is realization else None
            if s is not None:
                observe(s, b, a, registered)
        elif op == "reciprocal states":
            s = source.reciprocal_sample(sample, b.state(0.0), a.state(0.0)) if source is realization else None
            if s is not None:
                observe(s, b, a, registered)
    for i in range(len(filters)):
        same(logs[i].seen, wanted[i], "hook of link %s" % (filters[i],))
    acc.state((name, filters))


def scenario(acc, case):
    """Every drop notifies each operator once, generated, recorded or replayed."""
    _, num_devices, history = case
    s = SimulationScenario(seed=5)
    ops = []
    for i in range(num_devices):
        d = s.new_device(bandwidth=RATE, oversampling_factor=1)
        for kind in (("signal",) if i else ("signal", "modem")):
            t, r = TRANSMITTERS[kind](), RECEIVERS[kind]()
            d.transmitters.add(t)
            d.receivers.add(r)
            ops.append((i, len(list(d.transmitters)) - 1, t, r))
    logs = [(Log(), Log()) for _ in ops]
    hooks = [(t.add_transmit_callback(l[0]), r.add_receive_callback(l[1])) for (_, _, t, r), l in zip(ops, logs)]
    active = [True] * len(ops)
    scratch = tempfile.mkdtemp(prefix="hooks")
    file = os.path.join(scratch, "drops.h5")
    mode, available, position = "default", 0, 0
    try:
        for op in history:
            acc.step()
            if op == "drop":
                if mode == "replay" and position >= available:
                    continue
                for l in logs:
                    l[0].seen.clear()
                    l[1].seen.clear()
                drop = s.drop()
                available += mode == "record"
                position += mode == "replay"
                for (i, n, _, _), l, on in zip(ops, logs, active):
                    for log, side, part in ((l[0], "transmit", drop.device_transmissions[i].operator_transmissions[n]), (l[1], "receive", drop.device_receptions[i].operator_receptions[n])):
                        expect(len(log.seen) == on, "%s callback of operator %d at device %d was notified %d times by a drop in mode %s", side, n, i, len(log.seen), mode)
                        if on:
                            got = log.seen[0]
                            expect(type(got) is type(part), "notified of a %s", type(got).__name__)
                            expect(np.array_equal(np.asarray(got.signal.to_dense()), np.asarray(part.signal.to_dense())), "%s callback was notified of another drop's signal in mode %s", side, mode)
            elif op == "record" and mode == "default":
                s.record(file, overwrite=True)
                mode, available = "record", 0
            elif op == "replay" and mode == "default" and available:
                s.replay(file)
                mode, position = "replay", 0
            elif op == "stop" and mode != "default":
                s.stop()
                mode = "default"
            elif op == "toggle":
                for i, (_, _, t, r) in enumerate(ops[::2]):
                    i *= 2
                    if active[i]:
                        for h in hooks[i]:
                            h.remove()
                    else:
                        hooks[i] = (t.add_transmit_callback(logs[i][0]), r.add_receive_callback(logs[i][1]))
                    active[i] = not active[i]
                    logs[i][0].seen.clear()
                    logs[i][1].seen.clear()
        if mode != "default":
            s.stop()
    finally:
        shutil.rmtree(scratch)
    acc.state((num_devices, mode, tuple(active)))


def stages(acc, case):
    """Operations of complete scenarios notify each device's callbacks, operators only on request."""
    _, n, history = case
    s = SimulationScenario(seed=1)
    counts, logs, tx = {}, {}, []
    for i in range(n):
        d = s.new_device(bandwidth=RATE, oversampling_factor=1, carrier_frequency=1e9)
        t, r = TRANSMITTERS["signal"](), RECEIVERS["signal"]()
        d.transmitters.add(t)
        d.receivers.add(r)
        tx.append(t)
        for k, add in (("tx", t.add_transmit_callback), ("rx", r.add_receive_callback), ("out", d.output_callbacks.add_callback), ("sim out", d.simulated_output_callbacks.add_callback), ("in", d.input_callbacks.add_callback), ("sim in", d.simulated_input_callbacks.add_callback)):
            logs[k, i], counts[k, i] = Log(), 0
            add(logs[k, i])
    signals = [Signal.Create(np.ones((1, 20), dtype=complex), RATE, 1e9) for _ in range(n)]
    baseband = [[Signal.Create(np.ones((1, 20), dtype=complex), RATE, 0.0)] for _ in range(n)]
    HITS = {"transmit_operators": ("tx",), "generate_outputs": ("out", "sim out"), "transmit_devices": ("tx", "out", "sim out"), "process_inputs": ("in", "sim in"), "receive_operators": ("rx",), "receive_devices": ("rx", "in", "sim in")}
    for name, notify in history:
        acc.step()
        k = {} if notify is None else {"notify": notify}
        if name == "transmit_operators":
            out = s.transmit_operators(**k)
        elif name == "generate_outputs":
            out = s.generate_outputs([[t.transmit(d.state(), notify=False)] for t, d in zip(tx, s.devices)])
        elif name == "transmit_devices":
            out = s.transmit_devices(**k)
        elif name == "process_inputs":
            out = s.process_inputs([[x] for x in signals])
        elif name == "receive_operators":
            out = s.receive_operators(baseband, **k)
        else:
            out = s.receive_devices([[x] for x in signals], **k)
        for key in HITS[name]:
            if key not in ("tx", "rx") or notify is not False:
                for i in range(n):
                    counts[key, i] += 1
        for key in logs:
            expect(len(logs[key].seen) == counts[key], "%s callback of device %d: notified of %d instead of %d outputs after %s with notify=%s", *key, len(logs[key].seen), counts[key], name, notify)
        if notify is not False:
            for i in range(n):
                if name == "transmit_operators":
                    expect(logs["tx", i].seen[-1] is out[i][0], "another transmission")
                elif name == "receive_operators":
                    expect(logs["rx", i].seen[-1] is out[i][0], "another reception")
                elif name == "transmit_devices":
                    expect(logs["tx", i].seen[-1] is out[i].operator_transmissions[0], "another transmission")
                elif name == "receive_devices":
                    expect(logs["rx", i].seen[-1] is out[i].operator_receptions[0], "another reception")
                elif name == "generate_outputs":
                    expect(logs["out", i].seen[-1] is out[i], "another output")
                else:
                    expect(logs["in", i].seen[-1] is out[i], "another input")
    acc.state(n, history)


CASES = {"hookable": hookable, "operator": operator, "device": device, "channel": channel, "scenario": scenario, "stages": stages}


def run_cases(acc, cases):
    for case in cases:
        acc.run(case[0] if case[0] != "channel" else "channel/" + case[1], lambda c=case: CASES[c[0]](acc, c), case)


def main(check):
    t = check.thorough
    cases = []
    ops = [("callback", 0), ("callback", 1), ("hook", 0), ("remove", 0), ("remove", 1), ("once", 0), ("spawn", 0), ("notify", 0)]
    cases += [("hookable", h + (("notify", 0),)) for h in histories(ops, 6 if t else 5)]
    ops = [("add", 0), ("add", 1), ("remove", 0), ("run", True, True), ("run", False, True), ("run", True, False), ("run", False, False)]
    cases += [("operator", side, kind, h) for side, ks in (("transmit", TRANSMITTERS), ("receive", RECEIVERS)) for kind in ks for h in histories(ops, 4 if t else 3) if any(o[0] == "run" for o in h)]
    ops = [("toggle", ("out", "rx")), ("toggle", ("in", "tx", "sim out")), ("toggle", ("sim in", "sim out")), ("transmit", True), ("transmit", False), ("receive", True), ("receive", False), ("output",), ("input",)]
    cases += [("device", (("toggle", ("out", "in", "sim out", "sim in", "tx", "rx")),) * first + h) for first in (0, 1) for h in histories(ops, 4 if t else 3)]
    links = [(None, None), (0, None), (None, 1), (0, 1), (1, 0), (2, 1)]
    ops = ["add", "remove", "realize", "devices", "states", "reciprocal", "reciprocal states", "propagate"]
    for name in MODELS:
        depth = (4 if t else 3) if name in ("ideal", "spatial delay", "fading", "multi target") else 2 + (t and name not in SLOW)
        cases += [("channel", name, tuple(links), ("add",) + h) for h in histories(ops, depth) if set(h) - {"add", "remove", "realize"}]
    ops = ["drop", "record", "replay", "stop", "toggle"]
    found = [h for h in histories(ops, 4 if t else 3)]
    full = [h + ("drop", "stop", "replay", "drop", "toggle", "drop") for h in found if "record" in h]
    cases += [("scenario", n, h) for n in (1, 2) for h in found + full if "drop" in h]
    ops = [(k, x) for k in ("transmit_operators", "transmit_devices", "receive_operators", "receive_devices") for x in (None, True, False)] + [("generate_outputs", None), ("process_inputs", None)]
    cases += [("stages", n, h) for n in (1, 2) for h in histories(ops, 3 if t else 2)]
    check.explore(run_cases, chunks(cases, 200), case_timeout=60)
    check.bounds = {"cases": len(cases), "operations": "hooks %d, operators %d, devices %d, channels %s, scenarios %d" % ((6, 4, 4, "3 to 4", 10) if t else (5, 3, 3, "2 to 3", 9)), "channel models": len(MODELS), "links": len(links)}
    check.assumptions = ["callbacks removed or added by other callbacks during a notification may or may not observe it", "samples are observed by the hooks registered when their channel was realized"]
