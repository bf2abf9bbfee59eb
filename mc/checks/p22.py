"""P22: evaluators report the errors and powers of the latest transmission and reception."""
import itertools
import os
import shutil
import tempfile

import numpy as np
from rich.console import Console

import hermespy.channel as ch
import hermespy.radar as ra
import hermespy.radar.evaluators
from hermespy.core import AntennaMode, Signal
from hermespy.core.evaluators import PAPR, ReceivePowerEvaluator, SignalExtractor, TransmitPowerEvaluator
from hermespy.core.pymonte.grid import GridDimensionInfo, SamplePoint
from hermespy.core import ValueType
from hermespy.core.signal_model import SignalBlock
from hermespy.modem import BitErrorEvaluator, BlockErrorEvaluator, ConstellationEVM, FrameErrorEvaluator, ThroughputEvaluator
from hermespy.modem.modem import CommunicationReception, CommunicationReceptionFrame, CommunicationTransmission, CommunicationTransmissionFrame, ReceivingModem, TransmittingModem
from hermespy.modem.symbols import Symbols
from hermespy.simulation import N0, SimulatedDevice, SimulationScenario
from ..core import chunks, expect, histories

RATE = 100.0


class Tx(TransmittingModem):
    def _transmit(self, state, duration):
        return self.next


class Rx(ReceivingModem):
    def _receive(self, signal, state):
        return self.next


def signal(n=10, streams=1, scale=1.0):
    k = np.arange(n * streams).reshape(streams, n) + 1
    return Signal.Create(scale * (np.cos(k * k) + 2j * np.sin(3 * k) * (1 + np.arange(streams)[:, None])), RATE, 1e9)


def symbols(bits):
    b = np.asarray(bits, float)
    return Symbols((1 - 2 * b + 0.1j * np.arange(len(b)))[None, None, :]) if len(b) else Symbols(np.empty((1, 0, 0), complex))


def transmission(frames, block, n=10):
    return CommunicationTransmission(signal(n), [CommunicationTransmissionFrame(signal(n), np.array(f, np.uint8), block, np.array(f, np.uint8), block, symbols(f), symbols(f), 0.1 * i) for i, f in enumerate(frames)])


def reception(frames, block, n=10):
    out = []
    for i, f in enumerate(frames):
        b = np.array(f, np.uint8)
        s = symbols(f)
        e = Symbols(s.raw * (0.5 + 0.5j)) if len(f) else s
        out.append(CommunicationReceptionFrame(signal(n), signal(n), s, s, 0.1 * i, e, 1 - b if len(b) else b, block, b, block))
    return CommunicationReception(signal(n), out)


DEVICE = None


def state():
    global DEVICE
    if DEVICE is None:
        DEVICE = SimulatedDevice()
    return DEVICE.state(0.0)


def deliver(tx, rx, t, r, n=10):
    if t is not None:
        tx.next = t
        expect(tx.transmit(state()) is t, "transmission returned")
    if r is not None:
        rx.next = r
        expect(rx.receive(signal(n), state()) is r, "reception returned")


def want_bits(tx, rx):
    a, b = sum(tx, ()), sum(rx, ())
    n = max(len(a), len(b))
    a, b = a + (0,) * (n - len(a)), b + (0,) * (n - len(b))
    return [int(x != y) for x, y in zip(a, b)]


def want_blocks(tx, rx, block):
    out = []
    for i in range(max(len(tx), len(rx))):
        a = tx[i] if i < len(tx) else ()
        b = rx[i] if i < len(rx) else ()
        blocks = lambda f: [f[k : k + block] for k in range(0, len(f), block)]
        a, b = blocks(a), blocks(b)
        for k in range(max(len(a), len(b))):
            out.append(int(k >= len(a) or k >= len(b) or a[k] != b[k]))
    return out


def want_frames(tx, rx):
    return [int(i >= len(tx) or i >= len(rx) or tx[i] != rx[i]) for i in range(max(len(tx), len(rx)))]


def compare(evaluation, want, what):
    got = np.asarray(evaluation.evaluation).astype(int).tolist()
    expect(got == want, "%s %s instead of %s", what, got, want)
    if want:
        a = evaluation.artifact().to_scalar()
        expect(abs(a - np.mean(want)) < 1e-12, "%s rate %s instead of %s", what, a, np.mean(want))


def check_errors(acc, tx_frames, rx_frames, block):
    tx, rx = Tx(), Rx()
    evaluators = BitErrorEvaluator(tx, rx), BlockErrorEvaluator(tx, rx), FrameErrorEvaluator(tx, rx), ThroughputEvaluator(tx, rx)
    evm = ConstellationEVM(tx, rx)
    deliver(tx, rx, transmission(tx_frames, block), reception(rx_frames, block))
    compare(evaluators[0].evaluate(), want_bits(tx_frames, rx_frames), "bit errors")
    compare(evaluators[1].evaluate(), want_blocks(tx_frames, rx_frames, block), "block errors")
    frames = want_frames(tx_frames, rx_frames)
    compare(evaluators[2].evaluate(), frames, "frame errors")
    # Throughput assumes frames of the first frame's size
    if len({len(f) for f in tx_frames + rx_frames}) <= 1:
        got = evaluators[3].evaluate().artifact().to_scalar()
        n = len(frames)
        want = (n - sum(frames)) * len((rx_frames or ((),))[0]) / (n * 10 / RATE) if n else 0.0
        expect(abs(got - want) < 1e-9 * max(1.0, want), "throughput %s instead of %s", got, want)
        if rx_frames and tx_frames and len(tx_frames[0]):
            a = np.concatenate([symbols(f).raw.flatten() for f in tx_frames])
            b = np.concatenate([symbols(f).raw.flatten() * (0.5 + 0.5j) for f in rx_frames])
            m = min(len(a), len(b))
            got = evm.evaluate().artifact().to_scalar()
            want = np.sqrt(np.mean(np.abs(a[:m] - b[:m]) ** 2))
            expect(abs(got - want) < 1e-9, "error vector magnitude %s instead of %s", got, want)
    acc.step(5)
    acc.state(tx_frames, rx_frames, block)


PAYLOADS = (((0, 1, 1, 0),), ((1, 1, 1, 1), (0, 0, 1, 0)))


def check_history(acc, history):
    """Evaluators refer to the latest results of their own modems, whatever happened in between."""
    txs, rxs = (Tx(), Tx()), (Rx(), Rx())
    pairs = ((0, 0), (1, 1), (0, 1))
    evaluators = {p: [cls(txs[p[0]], rxs[p[1]]) for cls in (BitErrorEvaluator, BlockErrorEvaluator, FrameErrorEvaluator)] for p in pairs}
    extra = {"tp": TransmitPowerEvaluator(txs[0]), "rp": ReceivePowerEvaluator(rxs[0]), "tx": SignalExtractor(txs[0]), "rx": SignalExtractor(rxs[0])}
    last_t, last_r = [None, None], [None, None]
    sig_t = sig_r = None
    seen = []
    hooks = []

    def evaluate():
        for p in pairs:
            t, r = last_t[p[0]], last_r[p[1]]
            for i, e in enumerate(evaluators[p]):
                if t is None or r is None:
                    try:
                        e.evaluate()
                    except RuntimeError:
                        continue
                    raise AssertionError("evaluated without %s" % ("transmission" if t is None else "reception"))
                compare(e.evaluate(), (want_bits(t, r), want_blocks(t, r, 2), want_frames(t, r))[i], "errors of link %s" % (p,))
        for k, s in (("tp", sig_t), ("tx", sig_t), ("rp", sig_r), ("rx", sig_r)):
            if s is None:
                try:
                    extra[k].evaluate()
                except RuntimeError:
                    continue
                raise AssertionError("evaluated nothing")
            e = extra[k].evaluate()
            if k.endswith("p"):
                want = np.mean(np.abs(np.asarray(s.to_dense())) ** 2, axis=1)
                expect(np.allclose(e.power, want, rtol=1e-12), "power %s instead of %s", e.power, want)
                expect(abs(e.artifact().to_scalar() - want.sum()) < 1e-9, "power artifact")
            else:
                expect(np.array_equal(np.asarray(e.signal.to_dense()), np.asarray(s.to_dense())), "extracted signal")

    log = []
    for op in history:
        acc.step()
        if op[0] == "transmit":
            _, link, payload, notify = op
            t = transmission(PAYLOADS[payload], 2, 10 + payload)
            txs[link].next = t
            txs[link].transmit(state(), notify=notify)
            if notify:
                last_t[link] = PAYLOADS[payload]
                sig_t = t.signal if link == 0 else sig_t
                log.append(("t", link, payload))
        elif op[0] == "receive":
            _, link, payload, notify = op
            r = reception(PAYLOADS[payload], 2, 10 + payload)
            rxs[link].next = r
            rxs[link].receive(signal(), state(), notify=notify)
            if notify:
                last_r[link] = PAYLOADS[payload]
                sig_r = r.signal if link == 0 else sig_r
        elif op[0] == "reject":
            # Receiving a wrong number of streams fails and counts as nothing
            rxs[0].next = reception(PAYLOADS[0], 2)
            try:
                rxs[0].receive(signal(4, 3), state())
            except ValueError:
                pass
            else:
                raise AssertionError("received three streams")
        elif op[0] == "evaluate":
            evaluate()
    evaluate()
    acc.state(tuple(last_t), tuple(last_r))


def check_powers(acc, streams, n, sparse, scale):
    """Powers, peak to average ratios and extracted samples follow the signals' samples."""
    m = np.asarray(signal(n, streams, scale).to_dense())
    if sparse:
        h = n // 2
        s = Signal.Create([SignalBlock(streams, h, 0, m[:, :h].tobytes()), SignalBlock(streams, n - h, n + 3, m[:, h:].tobytes())], RATE, 1e9)
        m = np.concatenate([m[:, :h], np.zeros((streams, n + 3 - h)), m[:, h:]], axis=1)
    else:
        s = signal(n, streams, scale)
    tx, rx = Tx(), Rx()
    tp, rp, ex = TransmitPowerEvaluator(tx), ReceivePowerEvaluator(rx), SignalExtractor(tx)
    t, r = transmission((), 1), reception((), 1)
    t.signal = r.signal = s
    deliver(tx, rx, t, r)
    power = np.mean(np.abs(m) ** 2, axis=1)
    for e in (tp.evaluate(), rp.evaluate()):
        expect(np.allclose(e.power, power, rtol=1e-9), "power %s instead of %s", e.power, power)
        expect(abs(e.artifact().to_scalar() - power.sum()) <= 1e-9 * power.sum(), "power artifact")
    device = SimulatedDevice()
    for direction in (AntennaMode.TX, AntennaMode.RX):
        papr = PAPR(device, direction)
        try:
            papr.evaluate()
        except RuntimeError:
            pass
        else:
            raise AssertionError("peak to average ratio of nothing")

        class Result:
            mixed_signal = s
            impinging_signals = [s]

        (device.output_callbacks if direction == AntennaMode.TX else device.input_callbacks).notify(Result)
        e = papr.evaluate()
        expect(np.allclose(e.instantaneous_power, np.abs(m) ** 2), "instantaneous power")
        want = np.mean(np.max(np.abs(m) ** 2, axis=1) / power)
        expect(abs(e.artifact().to_scalar() - want) < 1e-9 * want, "peak to average ratio %g instead of %g", e.artifact().to_scalar(), want)
        acc.step()
    # Extracted signals are collected by section in the order of their delivery
    result = ex.initialize_result([GridDimensionInfo([SamplePoint(float(i)) for i in range(2)], "dimension", "linear", ValueType.LIN)])
    order = [(0, signal(3, 1)), (1, s), (0, s), (1, signal(2, 2))]
    for section, q in order:
        t.signal = q
        tx.next = t
        tx.transmit(state())
        result.add_artifact((section,), ex.evaluate().artifact())
    array = result.to_array()
    expect(array.shape == (2, 2, max(streams, 2), max(m.shape[1], 3)), "extracted array of shape %s", array.shape)
    seen = [0, 0]
    for section, q in order:
        d = np.asarray(q.to_dense())
        got = array[section, seen[section]]
        seen[section] += 1
        expect(np.array_equal(got[: d.shape[0], : d.shape[1]], d), "extracted samples of section %d", section)
        expect(not got[d.shape[0] :].any() and not got[:, d.shape[1] :].any(), "padding of extracted samples")
    acc.step(4)
    acc.state(streams, n, sparse, scale)


# ------------------------------------------------------------------ radar evaluators


GRIDS = {1: (), 2: (2,), 4: (2, 2)}


def info(shape):
    return [GridDimensionInfo([SamplePoint(float(i)) for i in range(n)], "dimension", "linear", ValueType.LIN) for n in shape]


def roc(values, n):
    """Detection and false alarm probabilities at n thresholds between the extreme values."""
    flat = [v for pair in values for v in pair]
    if not flat:
        return np.full((n, 2), np.nan)
    lo, hi = min(flat), max(flat)
    out = []
    for k in range(n):
        t = hi if k == n - 1 else lo + (hi - lo) * k / (n - 1)
        out.append((sum(h1 >= t - 1e-12 for _, h1 in values) / len(values), sum(h0 >= t - 1e-12 for h0, _ in values) / len(values)))
    return np.array(out)


def check_roc(acc, values, thresholds, shape):
    a, b = SimulatedDevice(), SimulatedDevice()
    radar = ra.Radar(ra.FMCW())
    b.add_dsp(radar)
    evaluator = ra.ReceiverOperatingCharacteristic(radar, a, b, ch.SingleTargetRadarChannel(10.0, 1.0), num_thresholds=thresholds)
    result = evaluator.initialize_result(info(shape))
    sections = list(np.ndindex(*shape))
    want = {s: [] for s in sections}
    for i, v in enumerate(values):
        s = sections[(i * i + i // 2) % len(sections)]
        want[s].append(v)
        expect(not result.add_artifact(s, ra.evaluators.RocArtifact(*v)), "stops sampling operating characteristics")
    array = result.to_array()
    expect(array.shape == shape + (thresholds, 2), "operating characteristics of shape %s instead of %s", array.shape, shape + (thresholds, 2))
    for s in sections:
        expect(np.allclose(array[s], roc(want[s], thresholds), equal_nan=True), "operating characteristics of %s at %d thresholds: %s", want[s], thresholds, array[s].tolist())
        acc.step()
    acc.state(values, thresholds, shape)


def radar_scenario(target, noise=1e-3, seed=4):
    s = SimulationScenario(seed=seed)
    d = SimulatedDevice(carrier_frequency=10e9, noise_level=N0(noise) if noise else None)
    r = ra.Radar(ra.FMCW(num_chirps=3, chirp_duration=1e-6, pulse_rep_interval=1.5e-6))
    d.add_dsp(r)
    s.add_device(d)
    s.set_channel(d, d, ch.SingleTargetRadarChannel(30.0, 1.0, target_exists=target))
    return s, r, d


def cube_maximum(drop):
    return float(drop.device_receptions[0].operator_receptions[0].cube.data.max())


def check_campaigns(acc, n0, n1, offset, limit):
    """Operating characteristics of recorded campaigns consider each drop of both hypotheses once."""
    folder = tempfile.mkdtemp(prefix="mc-p22-")
    try:
        path = os.path.join(folder, "roc.h5")
        values = []
        for name, n, target in (("h0_measurements", n0, False), ("h1_measurements", n1, True)):
            s, r, d = radar_scenario(target)
            s.record(path, campaign=name, state=s)
            values.append([cube_maximum(s.drop()) for _ in range(n)])
            s.stop()
        available = min(n0, n1) - offset
        n = available if limit is None else min(available, limit)
        pairs = list(zip(values[0][offset:], values[1][offset:]))[:n]
        result = ra.ReceiverOperatingCharacteristic.FromFile(path, drop_offset=offset, num_drops=limit, num_thresholds=7)
        expect(np.allclose(result.to_array()[0], roc(pairs, 7)), "operating characteristics of the file differ from its %d drops", n)
        s, r, d = radar_scenario(True)
        s.replay(path, "h1_measurements")
        result = ra.ReceiverOperatingCharacteristic.FromScenario(s, r, "h0_measurements", "h1_measurements", offset, 0 if limit is None else limit, console=Console(quiet=True))
        s.stop()
        expect(np.allclose(result.to_array()[0], roc(pairs, 101)), "operating characteristics of the replayed scenario differ from its %d drops", n)
        zero, one = radar_scenario(False, seed=4)[0], radar_scenario(True, seed=4)[0]
        result = ra.ReceiverOperatingCharacteristic.FromScenarios(zero, one, min(n0, n1), num_thresholds=5)
        zero, one = radar_scenario(False, seed=4)[0], radar_scenario(True, seed=4)[0]
        pairs = [(cube_maximum(zero.drop()), cube_maximum(one.drop())) for _ in range(min(n0, n1))]
        expect(np.allclose(result.to_array()[0], roc(pairs, 5)), "operating characteristics of the scenarios differ from their drops")
        acc.step(n0 + n1 + n)
    finally:
        shutil.rmtree(folder, ignore_errors=True)
    acc.state(n0, n1, offset, limit)


def check_hypothesis(acc, noise, drops):
    """The null hypothesis of a drop is the same drop without target."""
    s, r, d = radar_scenario(True, noise)
    zero, zr, zd = radar_scenario(False, noise)
    evaluator = ra.ReceiverOperatingCharacteristic(r, d, d, s.channel(d, d))
    twin = ra.ReceiverOperatingCharacteristic(zr, zd, zd, zero.channel(zd, zd))
    try:
        evaluator.evaluate()
    except RuntimeError:
        pass
    else:
        raise AssertionError("operating characteristics of nothing")
    for _ in range(drops):
        one = cube_maximum(s.drop())
        null = cube_maximum(zero.drop())
        for _ in range(2):
            a = evaluator.evaluate().artifact()
            twin.evaluate()  # Evaluations draw from the device's random generator
            expect(abs(a.h1_value - one) <= 1e-9 * one, "alternative hypothesis %g instead of %g", a.h1_value, one)
            expect(abs(a.h0_value - null) <= 1e-9 * max(one, null), "null hypothesis %g instead of %g", a.h0_value, null)
        acc.step(4)
    acc.state(noise, drops)


class PresetRadar(ra.Radar):
    def _receive(self, signal, state):
        return self.next


def check_detections(acc, counts):
    """Detection probabilities and root mean square errors of a history of point clouds."""
    radar = PresetRadar(ra.FMCW())
    d = SimulatedDevice()
    d.add_dsp(radar)
    channel = ch.SingleTargetRadarChannel(25.0, 1.0)
    probability, rmse = ra.DetectionProbEvaluator(radar), ra.RootMeanSquareError(radar, d, d, channel)
    for e in (probability, rmse):
        try:
            e.evaluate()
        except RuntimeError:
            continue
        raise AssertionError("evaluated no detections")
    grid = info((2,))
    results = probability.initialize_result(grid), rmse.initialize_result(grid)
    cube = ra.RadarCube(np.ones((1, 1, 2)), np.zeros((1, 2)), np.zeros(1), np.arange(2.0), 1e9)
    found, errors = [[], []], [[], []]
    for i, n in enumerate(counts):
        cloud = ra.RadarPointCloud(100.0)
        points = [np.array([1.0 * i, 2.0 * k + 1, -3.0]) for k in range(n)]
        for p in points:
            cloud.add_point(ra.PointDetection(p, np.zeros(3), 1.0 + i))
        radar.next = ra.RadarReception(signal(), cube, cloud)
        sample = channel.realize().sample(d, d)
        truth = [p.ground_truth[0] for p in sample.paths]
        radar.receive(signal(), d.state(0.0))
        section = i % 2
        a, b = probability.evaluate().artifact(), rmse.evaluate().artifact()
        expect(bool(a.to_scalar()) == (n > 0), "detection indicator %s of %d points", a.to_scalar(), n)
        own = [float(np.sum((p - t) ** 2)) for p in points for t in truth]
        expect(b.num_errors == len(own) and abs(b.cummulation - sum(own)) <= 1e-9 * sum(own), "squared errors %s instead of %s", b.cummulation, sum(own))
        if own:
            expect(abs(b.to_scalar() - np.sqrt(np.mean(own))) < 1e-9, "root mean square error of an evaluation")
        found[section].append(n > 0)
        errors[section] += own
        for r, artifact in zip(results, (a, b)):
            r.add_artifact((section,), artifact)
        acc.step(2)
    for s in range(2):
        if found[s]:
            expect(abs(results[0].to_array()[s] - np.mean(found[s])) < 1e-12, "detection probability")
        if errors[s]:
            expect(abs(results[1].to_array()[s] - np.sqrt(np.mean(errors[s]))) < 1e-9, "root mean square error")
    acc.state(counts)

def run_cases(acc, shard):
    for kind, *args in shard:
        fn = {"roc": check_roc, "campaigns": check_campaigns, "hypothesis": check_hypothesis, "detections": check_detections, "errors": check_errors, "history": check_history, "powers": check_powers}[kind]
        acc.run("evaluators/%s" % kind, lambda: fn(acc, *args), {"kind": kind, "arguments": [str(a) for a in args]})


def main(check):
    t = check.thorough
    cases = []
    bits = lambda *ns: [b for n in ns for b in itertools.product((0, 1), repeat=n)]
    for block, frames, depth in ((1, bits(0, 1, 2), 2), (1, bits(1, 2) if t else bits(1), 3), (2, bits(0, 2), 2), (2, bits(2, 4), 1), (2, [(0, 0, 0, 0), (0, 1, 0, 0), (0, 1, 1, 0), (0, 1)], 2), (3, bits(3, 6) if t else [b + c for b in bits(3) for c in ((), (0, 1, 0))], 1)):
        sets = [f for n in range(depth + 1) for f in itertools.product(frames, repeat=n)]
        cases += [("errors", a, b, block) for a in sets for b in sets]
    alphabet = [("transmit", 0, 0, True), ("transmit", 0, 1, True), ("transmit", 1, 1, True), ("transmit", 0, 1, False), ("receive", 0, 0, True), ("receive", 1, 0, True), ("receive", 1, 1, True), ("receive", 1, 0, False), ("reject",), ("evaluate",)]
    cases += [("history", h) for h in histories(alphabet, 4 if t else 3)]
    for streams in (1, 2, 3):
        for n in (2, 5, 12):
            for sparse in (False, True):
                for scale in (1.0, 1e-3):
                    cases.append(("powers", streams, n, sparse, scale))
    pairs = list(itertools.product((1.0, 2.0, 4.0), repeat=2))
    for n in range(4 if t else 3):
        for values in itertools.product(pairs, repeat=n):
            for thresholds in (2, 3, 4):
                cases.append(("roc", values, thresholds, ()))
    for values in itertools.product(pairs[1::3], repeat=5 if t else 4):
        for shape in ((2,), (2, 2), (3, 1)):
            cases.append(("roc", values, 3, shape))
    for n0, n1 in ((1, 1), (3, 3), (2, 4), (4, 2)):
        for offset in range(min(n0, n1)):
            for limit in (None, 1, 2, 9) if t else (None, 1):
                cases.append(("campaigns", n0, n1, offset, limit))
    for noise in (0.0, 1e-4, 1e-2):
        cases.append(("hypothesis", noise, 3))
    cases += [("detections", c) for n in range(1, 6 if t else 5) for c in itertools.product((0, 1, 2), repeat=n)]
    check.explore(run_cases, chunks(cases, 256), case_timeout=60)
    check.bounds = {"cases": len(cases), "frames": 3, "history depth": 4 if t else 3}
    check.assumptions = ["missing bits compare as zeros", "frames hold full blocks"]
