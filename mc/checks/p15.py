"""P15: recorded drops are replayed exactly as they were generated."""
import itertools
import os
import shutil
import tempfile

import numpy as np

import hermespy.channel as ch
import hermespy.core as co
import hermespy.jcas as jc
import hermespy.modem as mo
import hermespy.radar as ra
from hermespy.core import ScenarioMode, Signal, SignalReceiver, SignalTransmitter, Transformation
from hermespy.simulation import SimulatedDevice, SimulatedIdealAntenna, SimulatedUniformArray, SimulationScenario, StaticTrajectory, StaticTrigger, TimeOffsetTrigger
from ..core import chunks, expect, histories
from ..observe import difference, observe

BASE = tempfile.gettempdir()


def snapshot(x):
    return observe(x, depth=7)


def same(a, b, what):
    d = difference(a, b, "", 1e-9)
    expect(d is None, "%s: %s", what, d)


# ------------------------------------------------------------------ histories of modes


class World:
    FILES = ("a.h5", "b.h5")

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="mc-p15-", dir=BASE)
        self.n = 0
        self.scenario = None
        self.fresh()
        self.data = {}  # file -> campaign -> list of snapshots
        self.mode, self.at, self.pos, self.count, self.last = "default", None, 0, 0, None

    def fresh(self):
        self.scenario = SimulationScenario(seed=3)
        self.tx = SignalTransmitter(self.signal(), selected_transmit_ports=[0])
        self.rx = SignalReceiver(60)
        self.scenario.add_device(SimulatedDevice(transmit_dsp=self.tx))
        self.scenario.add_device(SimulatedDevice(receive_dsp=self.rx))
        self.seen = []
        self.tx.add_transmit_callback(lambda t: self.seen.append(("t", snapshot(t))))
        self.rx.add_receive_callback(lambda r: self.seen.append(("r", snapshot(r))))

    def signal(self):
        self.n += 1
        return Signal.Create((self.n + 0.5j) * np.exp(0.05j * np.arange(60)).reshape(1, -1), 1.0)

    def file(self, f):
        return os.path.join(self.dir, self.FILES[f])

    def close(self):
        try:
            self.scenario.stop()
        finally:
            shutil.rmtree(self.dir, ignore_errors=True)

    def drop(self, *args):
        """A drop, its snapshot and the number of callbacks."""
        self.tx.signal = self.signal()
        self.seen.clear()
        d = self.scenario.drop(*args)
        kinds = sorted(k for k, _ in self.seen)
        expect(kinds == ["r", "t"], "callbacks invoked by a drop: %s", kinds)
        s = snapshot(d)
        got = dict(self.seen)
        same(got["t"], snapshot(d.device_transmissions[0].operator_transmissions[0]), "transmission passed to the callback")
        same(got["r"], snapshot(d.device_receptions[1].operator_receptions[0]), "reception passed to the callback")
        return s

    def fails(self, fn, what, *kinds):
        try:
            fn()
        except kinds or Exception:
            return
        expect(False, "%s doesn't raise", what)

    def apply(self, op):
        s, k = self.scenario, op[0]
        if k == "record":
            _, f, c, over = op
            if self.mode != "default":
                self.fails(lambda: s.record(self.file(f), c, over), "recording in mode %s" % self.mode, RuntimeError)
                return
            s.record(self.file(f), c, over)
            if over or f not in self.data:
                self.data[f] = {}
            self.data[f].setdefault(c, [])
            self.mode, self.at, self.count = "record", (f, c), 0
        elif k == "drop":
            if self.mode == "replay":
                drops = self.data[self.at[0]][self.at[1]]
                if self.pos >= len(drops):
                    self.fails(lambda: s.drop(), "replay beyond the recorded drops")
                    return
                got = self.drop()
                same(got, drops[self.pos], "replayed drop %s of campaign %s" % (self.pos, self.at[1]))
                self.pos += 1
                return
            got = self.drop()
            if self.mode == "record":
                self.data[self.at[0]][self.at[1]].append(got)
                self.count += 1
        elif k == "at":
            # a drop at a given time is generated anew in every mode
            before = self.n
            got = self.drop(op[1])
            amplitude = got["device_transmissions"][1]["operator_transmissions"][1]["signal"][1].ravel()[0]
            expect(abs(amplitude - (before + 1 + 0.5j)) < 1e-9, "a drop at a given time isn't generated anew but has amplitude %s", amplitude)
            if self.mode == "record":
                self.data[self.at[0]][self.at[1]].append(got)
                self.count += 1
        elif k == "stop":
            s.stop()
            self.mode, self.at = "default", None
        elif k in ("replay", "again"):
            _, f, c, off = op if k == "replay" else ("again", self.last, None, 0)
            drops = None if f is None else self.data.get(f, {}).get(c)
            args = (self.file(f) if k == "replay" else None, c, off)
            if drops is None or off >= len(drops):
                self.fails(lambda: s.replay(*args), "replay of unavailable drops")
                # an unsuccessful attempt either leaves the scenario unchanged or stops it
                if s.mode == ScenarioMode.DEFAULT:
                    self.mode, self.at = "default", None
                return
            num = s.replay(*args)
            expect(num == len(drops) - off, "%s drops are reported to be replayed instead of %s", num, len(drops) - off)
            self.mode, self.at, self.pos, self.last = "replay", (f, c), off, f
        elif k == "load":
            _, f, c = op
            drops = self.data.get(f, {}).get(c)
            if not drops or self.mode == "record":
                return
            loaded, num = SimulationScenario.Replay(self.file(f), c)
            try:
                expect(num == len(drops), "%s drops are reported to be replayed instead of %s", num, len(drops))
                expect(loaded.num_devices == 2 and loaded.num_drops == len(drops), "%s devices, %s drops in a loaded scenario", loaded.num_devices, loaded.num_drops)
                for i, d in enumerate(drops):
                    same(snapshot(loaded.drop()), d, "drop %s replayed by a loaded scenario" % i)
            finally:
                loaded.stop()

    def check(self):
        s = self.scenario
        expect(s.mode.name.lower() == self.mode, "scenario is in mode %s instead of %s", s.mode, self.mode)
        want = {"default": 0, "record": self.count}.get(self.mode)
        if self.mode == "replay":
            want = len(self.data[self.at[0]][self.at[1]])
        expect(s.num_drops == want, "%s drops instead of %s in mode %s", s.num_drops, want, self.mode)
        if self.at is not None:
            name = "default" if self.at[1] is None else self.at[1]
            expect(s.campaign == name, "campaign %s instead of %s", s.campaign, name)
        if self.mode != "default":
            self.fails(lambda: s.add_device(SimulatedDevice()), "adding a device in mode %s" % self.mode, RuntimeError)
            self.fails(lambda: s.record(self.file(0), "y"), "recording in mode %s" % self.mode, RuntimeError)

    def finish(self):
        """Every recorded campaign is still completely available."""
        self.scenario.stop()
        self.mode, self.at = "default", None
        for f, campaigns in sorted(self.data.items()):
            for c, drops in campaigns.items():
                if not drops:
                    self.fails(lambda: self.scenario.replay(self.file(f), c), "replay of a campaign without drops", ValueError)
                    continue
                self.apply(("replay", f, c, 0))
                for _ in drops:
                    self.apply(("drop",))
                self.check()
                self.apply(("drop",))
                self.scenario.stop()


def run_histories(acc, shard):
    for hist in shard:

        def body():
            w = World()
            try:
                for op in hist:
                    w.apply(op)
                    w.check()
                    acc.step()
                    acc.state(("h", w.mode, w.at, w.pos if w.mode == "replay" else w.count, tuple(sorted((f, str(c), len(d)) for f, x in w.data.items() for c, d in x.items()))))
                w.finish()
            finally:
                w.close()

        acc.run("modes/" + ".".join("-".join(map(str, o)) for o in hist), body, {"history": hist})


def mode_histories(thorough):
    """All histories over a small alphabet plus all prefixes leading to richer states."""
    ops = [("record", 0, None, False), ("record", 0, "x", False), ("drop",), ("stop",), ("replay", 0, None, 0), ("replay", 0, "x", 0)]
    depth = 5 if thorough else 4
    out = []
    for h in histories(ops, depth, 1):
        # useless histories: never recording, or the same mode change repeated without any drop in between
        if h[0][0] != "record" or any(a == b and a[0] in ("stop", "replay") for a, b in zip(h, h[1:])) or sum(o[0] == "record" for o in h) > 2:
            continue
        if len(h) < depth and not any(o[0] == "drop" for o in h):
            continue
        out.append(h)
    pre = [("record", 0, None, False), ("drop",), ("drop",), ("stop",), ("record", 1, "x", False), ("drop",), ("stop",)]
    rich = [("record", 0, None, True), ("record", 0, "x", False), ("record", 1, "x", False), ("record", 1, None, False), ("drop",), ("at", 0.5), ("stop",), ("replay", 0, None, 1), ("replay", 1, "x", 0), ("replay", 1, "y", 0), ("replay", 0, None, 2), ("again",), ("load", 0, None), ("load", 1, "x")]
    for h in histories(rich, 3 if thorough else 2, 1):
        if any(a == b and a[0] != "drop" for a, b in zip(h, h[1:])):
            continue
        out.append(tuple(pre) + h)
    return out


# ------------------------------------------------------------------ content of the recordings


def devices(kind):
    """A scenario with one of the kinds of signal processing."""
    s = SimulationScenario(seed=11)
    fc = 1e9

    def device(n=1, **kw):
        return s.new_device(antennas=SimulatedUniformArray(SimulatedIdealAntenna, 0.5, (n, 1, 1)), carrier_frequency=fc, **kw)

    def rrc(**kw):
        return mo.RootRaisedCosineWaveform(num_preamble_symbols=4, num_data_symbols=12, pilot_rate=0, roll_off=0.5, filter_length=8, **kw)

    def ofdm():
        res = [mo.GridResource(8, elements=[mo.GridElement(mo.ElementType.DATA, 3), mo.GridElement(mo.ElementType.REFERENCE, 1)])]
        return mo.OFDMWaveform(grid_resources=res, grid_structure=[mo.SymbolSection(2, [0])], num_subcarriers=40, dc_suppression=True)

    a, b = device(), device()
    if kind == "psk":
        link = mo.SimplexLink(waveform=rrc(channel_estimation=mo.SingleCarrierLeastSquaresChannelEstimation(), channel_equalization=mo.SingleCarrierZeroForcingChannelEqualization()))
        link.connect(a, b)
    elif kind == "coded":
        link = mo.SimplexLink(waveform=rrc())
        from hermespy.fec import BlockInterleaver, RepetitionEncoder

        link.encoder_manager.add_encoder(RepetitionEncoder(repetitions=3))
        link.encoder_manager.add_encoder(BlockInterleaver(4, 2))
        link.connect(a, b)
    elif kind == "ofdm":
        w = ofdm()
        w.channel_estimation = mo.OrthogonalLeastSquaresChannelEstimation()
        w.channel_equalization = mo.OrthogonalZeroForcingChannelEqualization()
        link = mo.SimplexLink(waveform=w)
        link.connect(a, b)
        s.set_channel(a, b, ch.MultipathFadingChannel(np.array([0.0, 1e-9]), np.array([1.0, 0.5]), np.array([np.inf, 1.0])))
    elif kind == "duplex":
        modem = mo.DuplexModem(waveform=rrc())
        modem.transmitting_device = a
        modem.receiving_device = b
        a.add_dsp(modem) if modem not in a.transmitters else None
        if modem not in b.receivers:
            b.receivers.add(modem)
        if modem in a.receivers:
            a.receivers.remove(modem)
        if modem in b.transmitters:
            b.transmitters.remove(modem)
    elif kind == "fsk":
        link = mo.SimplexLink(waveform=mo.ChirpFSKWaveform(chirp_duration=1e-6, num_pilot_chirps=2, num_data_chirps=4, modulation_order=4))
        link.connect(a, b)
    elif kind == "mimo":
        a2, b2 = device(2), device(2)
        link = mo.SimplexLink(waveform=rrc(), selected_transmit_ports=[0, 1], selected_receive_ports=[0, 1]) if False else mo.SimplexLink(waveform=rrc())
        link.transmit_symbol_coding[0] = mo.SpatialMultiplexing() if hasattr(mo, "SpatialMultiplexing") else mo.Alamouti()
        link.connect(a2, b2)
    elif kind == "radar":
        r = ra.Radar(ra.FMCW(num_chirps=3, chirp_duration=1e-6, pulse_rep_interval=1.5e-6))
        r.detector = ra.ThresholdDetector(0.01)
        a.add_dsp(r)
        s.set_channel(a, a, ch.SingleTargetRadarChannel(30.0, 1.0))
    elif kind == "hidden":
        r = ra.Radar(ra.FMCW(num_chirps=3, chirp_duration=1e-6, pulse_rep_interval=1.5e-6))
        a.add_dsp(r)
        s.set_channel(a, a, ch.SingleTargetRadarChannel(30.0, 1.0, target_exists=False))
        s.set_channel(b, b, ch.SingleTargetRadarChannel((20.0, 30.0), 1.0, target_azimuth=(0.0, 1.0), velocity=np.array([1.0, 2.0, 3.0])))
    elif kind == "targets":
        r = ra.Radar(ra.FMCW(num_chirps=3, chirp_duration=1e-6, pulse_rep_interval=1.5e-6))
        a.add_dsp(r)
        multi = ch.MultiTargetRadarChannel(interference=True)
        multi.add_target(ch.VirtualRadarTarget(ch.FixedCrossSection(2.0), StaticTrajectory(Transformation.From_Translation(np.array([0.0, 0.0, 20.0])))))
        multi.add_target(ch.PhysicalRadarTarget(ch.FixedCrossSection(1.0), b))
        b.trajectory = StaticTrajectory(Transformation.From_Translation(np.array([5.0, 0.0, 30.0])))
        s.set_channel(a, a, multi)
    elif kind in ("random", "cost", "tdl", "exponential", "cdl", "urban"):
        b.trajectory = StaticTrajectory(Transformation.From_Translation(np.array([5.0, 80.0, 30.0])))
        mo.SimplexLink(waveform=rrc()).connect(a, b)
        s.set_channel(a, b, {"random": lambda: ch.RandomDelayChannel((0.0, 1e-8)), "cost": lambda: ch.Cost259(ch.Cost259Type.URBAN), "tdl": lambda: ch.TDL(ch.TDLType.D, 1e-8, doppler_frequency=10.0), "exponential": lambda: ch.Exponential(1e-9, 1e-9), "cdl": lambda: ch.CDL(ch.CDLType.E, 1e-8), "urban": lambda: ch.UrbanMicrocells()}[kind]())
    elif kind == "jcas":
        j = jc.MatchedFilterJcas(max_range=60, waveform=rrc())
        a.add_dsp(j)
        s.set_channel(a, a, ch.SingleTargetRadarChannel(30.0, 1.0))
    elif kind == "ofdmradar":
        j = jc.OFDMRadar(waveform=ofdm())
        a.add_dsp(j)
        s.set_channel(a, a, ch.SingleTargetRadarChannel(30.0, 1.0))
    elif kind == "delay":
        a.trigger_model = StaticTrigger()
        b.trigger_model = TimeOffsetTrigger(3.0 / b.sampling_rate)
        b.position = np.array([300.0, 0.0, 0.0])
        link = mo.SimplexLink(waveform=rrc(synchronization=mo.SingleCarrierCorrelationSynchronization()))
        link.connect(a, b)
        s.set_channel(a, b, ch.SpatialDelayChannel(model_propagation_loss=False))
    elif kind == "several":
        mo.SimplexLink(waveform=rrc()).connect(a, b)
        mo.SimplexLink(waveform=ofdm()).connect(b, a)
        a.receivers.add(SignalReceiver(50))
        b.transmitters.add(co.SilentTransmitter(80))
    elif kind == "silent":
        a.receivers.add(SignalReceiver(50))
    return s


KINDS = ("hidden", "targets", "random", "cost", "tdl", "exponential", "cdl", "urban", "psk", "coded", "ofdm", "duplex", "fsk", "mimo", "radar", "jcas", "ofdmradar", "delay", "several", "silent")


def taps(s, log):
    done = set()
    for d in s.devices:
        for o in d.transmitters:
            o.add_transmit_callback(lambda t, o=o: log.append(("t", id(o), snapshot(t))))
        for o in d.receivers:
            o.add_receive_callback(lambda r, o=o: log.append(("r", id(o), snapshot(r))))


def run_content(acc, shard):
    for kind, n, offset in shard:

        def body():
            d = tempfile.mkdtemp(prefix="mc-p15-", dir=BASE)
            s = devices(kind)
            loaded = None
            try:
                f = os.path.join(d, "r.h5")
                log = []
                taps(s, log)
                s.record(f, "c")
                recorded, results = [], []
                for _ in range(n):
                    log.clear()
                    recorded.append(snapshot(s.drop()))
                    results.append(list(log))
                    acc.step()
                s.stop()
                for a, b in itertools.combinations(range(n), 2):
                    if kind in ("psk", "ofdm"):
                        expect(difference(recorded[a], recorded[b]) is not None, "drops %s and %s are identical", a, b)
                # the recording scenario replays its own drops, and so does a scenario configured equally
                for who, t in (("same", s), ("equal", devices(kind))):
                    got = []
                    if t is not s:
                        taps(t, log)
                    expect(t.replay(f, "c", offset) == n - offset, "number of replayed drops")
                    for i in range(offset, n):
                        log.clear()
                        same(snapshot(t.drop()), recorded[i], "drop %s replayed by the %s scenario" % (i, who))
                        expect([k for k, _, _ in log] == [k for k, _, _ in results[i]], "callbacks of the replay: %s", [k for k, _, _ in log])
                        for (k, _, x), (_, _, y) in zip(log, results[i]):
                            same(x, y, "drop %s, %s reported by the %s scenario" % (i, "transmission" if k == "t" else "reception", who))
                        acc.step()
                    t.stop()
                if True:
                    loaded, m = SimulationScenario.Replay(f, "c", offset)
                    expect(m == n - offset and loaded.num_devices == s.num_devices, "loaded scenario: %s drops, %s devices", m, loaded.num_devices)
                    for i in range(offset, n):
                        same(snapshot(loaded.drop()), recorded[i], "drop %s replayed by a loaded scenario" % i)
                acc.state(("c", kind, n, offset))
            finally:
                if loaded is not None:
                    loaded.stop()
                s.stop()
                shutil.rmtree(d, ignore_errors=True)

        acc.run("content/%s/%s drops/offset %s" % (kind, n, offset), body, {"kind": kind, "drops": n, "offset": offset})


def main(check):
    t = check.thorough
    hs = mode_histories(t)
    check.explore(run_histories, chunks(hs, 96), case_timeout=120)
    content = [(k, n, o) for k in KINDS for n in ((1, 2, 3) if not t else (1, 2, 3, 5)) for o in range(n)]
    content += [("psk", 12, 0), ("psk", 12, 11)]
    check.explore(run_content, [[c] for c in content], case_timeout=240)
    check.bounds = {"mode histories": len(hs), "kinds of signal processing": len(KINDS), "recorded drops": 12}
