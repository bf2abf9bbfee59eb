"""P26: beamformers and stream codings steer, suppress and combine streams as their configuration states."""
import itertools

import numpy as np

from hermespy.beamforming import (
    BeamformingReceiver,
    BeamformingTransmitter,
    CaponBeamformer,
    ConventionalBeamformer,
    CoordinateFocus,
    NullSteeringBeamformer,
    SphericalFocus,
)
from hermespy.core import (
    AntennaMode,
    Direction,
    DenseSignal,
    ReceiveSignalCoding,
    ReceiveStreamDecoder,
    Signal,
    Transformation,
    TransmitSignalCoding,
    TransmitStreamEncoder,
)
from hermespy.hardware_loop import IQSplitter
from hermespy.simulation import DeviceFocus, SimulatedCustomArray, SimulatedDevice, SimulatedIdealAntenna
from hermespy.simulation.evaluators.beamforming import SidelobeEvaluator
from ..core import chunks, expect, histories
from .p35 import roundtrip

C = 299792458.0
RATE = 8.0
D, R, T = AntennaMode.DUPLEX, AntennaMode.RX, AntennaMode.TX

# Antenna modes and positions in half wavelengths
ARRAYS = {
    "single": [(D, (0, 0, 0))],
    "pair": [(D, (0, 0, 0)), (D, (1, 0, 0))],
    "line": [(D, (0, y, 0)) for y in range(4)],
    "square": [(D, (x, y, 0)) for x in range(2) for y in range(2)],
    "plane": [(D, (x, y, 0)) for x in range(3) for y in range(3)],
    "cube": [(D, (x, y, z)) for x in range(2) for y in range(2) for z in range(2)],
    "sparse": [(D, p) for p in ((0, 0, 0), (0.7, 0.2, 0), (0.1, 1.3, 0.4), (1.9, 0.8, -0.6))],
    "mixed": [(T, (0, 0, 0)), (R, (1, 0, 0)), (D, (0, 1, 0)), (T, (1, 1, 0)), (R, (0, 0, 1)), (D, (1, 0, 1))],
    "split": [(R, (0, 0, 0)), (T, (1, 0, 0)), (R, (0, 1, 0)), (T, (0, 0.7, 0)), (R, (1, 1, 0.2)), (R, (0.4, 0, 1)), (T, (0.6, 1, 1)), (T, (0, 0.3, 1))],
}
POSES = {
    "origin": (np.zeros(3), np.zeros(3)),
    "moved": (np.zeros(3), np.array([10.0, -3.0, 2.0])),
    "yaw": (np.array([0.0, 0.0, 0.5 * np.pi]), np.zeros(3)),
    "roll": (np.array([0.7, 0.0, 0.0]), np.array([0.0, 4.0, 0.0])),
    "turned": (np.array([0.3, -0.9, 2.2]), np.array([1.0, 2.0, 3.0])),
}


def pose(name):
    return Transformation.From_RPY(*POSES[name])


def unit(azimuth, zenith):
    return np.array([np.cos(azimuth) * np.sin(zenith), np.sin(azimuth) * np.sin(zenith), np.cos(zenith)])


class Bench:
    """Device operating an antenna array, and the array's ideal plane wave responses."""

    def __init__(self, array, device_pose, array_pose, carrier, streams=None):
        self.wavelength = C / carrier
        self.elements = ARRAYS[array]
        self.array_pose = array_pose
        self.device = SimulatedDevice(carrier_frequency=carrier, bandwidth=RATE, oversampling_factor=1, pose=pose(device_pose), antennas=SimulatedCustomArray([SimulatedIdealAntenna(mode, Transformation.From_Translation(np.array(p, dtype=float) * self.wavelength / 2)) for mode, p in self.elements], pose=pose(array_pose)))
        self.rotation = np.array(pose(device_pose))[:3, :3] @ np.array(pose(array_pose))[:3, :3]
        self.state = self.device.state()

    def positions(self, mode):
        return np.array([p for m, p in self.elements if m in (D, mode)], dtype=float) * self.wavelength / 2

    def response(self, mode, angles):
        """Phases of a planar wave arriving from a direction within the array's coordinates."""
        return np.exp(2j * np.pi / self.wavelength * (self.positions(mode) @ unit(*angles)))

    def num(self, mode):
        return len(self.positions(mode))

    def focus(self, kind, angles):
        local = unit(*angles)
        if kind == "spherical":
            return SphericalFocus(*angles)
        if kind == "array":
            return SphericalFocus(np.array(angles, dtype=float))
        if kind == "local":
            return CoordinateFocus(3.0 * local, "local")
        if kind == "global":
            return CoordinateFocus(self.rotation @ local, "global")
        if kind == "recalled":
            return roundtrip(CoordinateFocus(self.rotation @ local, "global"))
        if kind == "copied":
            return CoordinateFocus(self.rotation @ local, "global").copy()
        target = self.device.state().position + 123.0 * self.rotation @ local
        device = SimulatedDevice(pose=Transformation.From_Translation(target))
        return DeviceFocus(device) if kind == "device" else DeviceFocus(device).copy()


FOCI = ("spherical", "array", "local", "global", "recalled", "copied", "device", "device copied")
ANGLES = [(0.0, 0.0), (0.0, 0.5), (1.1, 0.8), (2.5, 1.5), (-2.0, 1.2), (-0.6, 2.4), (0.4, 2.9)]
FINE = [(a, z) for a in np.linspace(-np.pi, np.pi, 13) for z in np.linspace(0, np.pi, 8)]
WAVES = np.array([unit(*a) for a in FINE])


def content(streams, length=5, start=1):
    rng = np.random.default_rng(start)
    return rng.standard_normal((streams, length)) + 1j * rng.standard_normal((streams, length))


def make(blocks, carrier, offsets=None):
    return Signal.Create(blocks if len(blocks) > 1 else blocks[0], RATE, carrier, 0.5, 0.75, offsets if len(blocks) > 1 else None)


def same_meta(a, b):
    expect(a.sampling_rate == b.sampling_rate and a.carrier_frequency == b.carrier_frequency, "rate or carrier changed to %s, %s", b.sampling_rate, b.carrier_frequency)
    expect(a.noise_power == b.noise_power and a.delay == b.delay, "noise power or delay changed to %s, %s", b.noise_power, b.delay)
    expect(a.num_samples == b.num_samples and a.num_blocks == b.num_blocks, "%d samples in %d blocks became %d in %d", a.num_samples, a.num_blocks, b.num_samples, b.num_blocks)
    expect(list(a.block_offsets) == list(b.block_offsets), "block offsets changed to %s", b.block_offsets)


def close(got, want, what, tol=1e-6):
    got, want = np.asarray(got), np.asarray(want)
    expect(got.shape == want.shape, "%s: shape %s instead of %s", what, got.shape, want.shape)
    expect(np.allclose(got, want, rtol=tol, atol=tol * max(1.0, np.max(np.abs(want), initial=0.0))), "%s: %s instead of %s", what, got.ravel()[:6], want.ravel()[:6])


def block_sets(streams, blocks):
    if blocks == 1:
        return [content(streams)], None
    return [content(streams, 5), content(streams, 3, 40)], [2, 11]


# ---------------------------------------------------------------------------- conventional beamforming
def check_transmit(acc, array, dpose, apose, carrier, kind, angles, blocks):
    b = Bench(array, dpose, apose, carrier)
    f = ConventionalBeamformer()
    f.transmit_focus = b.focus(kind, angles)
    parts, offsets = block_sets(1, blocks)
    s = make([p.copy() for p in parts], carrier, offsets)
    state = b.state.transmit_state()
    out = f.encode_streams(s, b.num(T), state)
    same_meta(s, out)
    for got, given, part in zip(out.blocks, s.blocks, parts):
        close(given.view(np.ndarray), part, "given samples")
        close(got.view(np.ndarray), b.response(T, angles).conj()[:, None] * part, "radiated samples")
    # All antennas superimpose constructively in the focused direction and nowhere better
    w = out.blocks[0].view(np.ndarray)[:, 0] / parts[0][0, 0]
    gain = abs(b.response(T, angles) @ w)
    expect(abs(gain - b.num(T)) < 1e-6, "%d antennas superimpose to an amplitude of %s in the focused direction", b.num(T), gain)
    elsewhere = np.abs(np.exp(2j * np.pi / b.wavelength * (WAVES @ b.positions(T).T)) @ w)
    acc.step(len(FINE))
    expect(np.max(elsewhere) <= gain + 1e-6, "the beam is stronger towards %s", FINE[int(np.argmax(elsewhere))])
    acc.state("transmit", array, dpose, apose, carrier, kind, angles, blocks)


def check_receive(acc, array, dpose, apose, carrier, kind, angles, blocks):
    b = Bench(array, dpose, apose, carrier)
    f = ConventionalBeamformer()
    f.receive_focus = b.focus(kind, angles)
    waves, offsets = block_sets(1, blocks)
    parts = [b.response(R, angles)[:, None] * w for w in waves]
    s = make([p.copy() for p in parts], carrier, offsets)
    state = b.state.receive_state()
    out = f.decode_streams(s, 1, state)
    same_meta(s, out)
    for got, given, part, wave in zip(out.blocks, s.blocks, parts, waves):
        close(given.view(np.ndarray), part, "given samples")
        close(got.view(np.ndarray), wave, "samples received from the focused direction")
    for other in FINE if kind == "spherical" else ():
        acc.step()
        x = b.response(R, other)[:, None] * waves[0]
        got = f.decode_streams(make([x], carrier), 1, state).view(np.ndarray)
        want = (b.response(R, angles).conj() @ b.response(R, other) / b.num(R)) * waves[0]
        close(got, want, "samples received from %s" % (other,))
    acc.state("receive", array, dpose, apose, carrier, kind, angles, blocks)


# ---------------------------------------------------------------------------- null steering
def projector(a, n):
    """Orthogonal projection of the matched weights onto the weights ignoring the null directions."""
    q, s, _ = np.linalg.svd(np.stack([x.conj() for x in n], axis=1), full_matrices=False)
    q = q[:, s > 1e-9 * s[0]]
    w = a.conj()
    return w - q @ (q.conj().T @ w)


def check_nulls(acc, array, dpose, apose, carrier, kind, angles, nulls, mode):
    b = Bench(array, dpose, apose, carrier)
    f = NullSteeringBeamformer()
    a, n = b.response(mode, angles), [b.response(mode, x) for x in nulls]
    w = projector(a, n)
    if np.linalg.norm(w) < 1e-3 * np.linalg.norm(a):
        acc.count("focus within the nulls")
        return
    w = w / np.linalg.norm(w)
    foci = [b.focus(kind, x) for x in (angles, *nulls)]
    if mode is T:
        f.transmit_focus = foci
        x = content(1)
        out = f.encode_streams(make([x], carrier), b.num(T), b.state.transmit_state())
        got = out.view(np.ndarray)
        close(got, w[:, None] * x, "radiated samples", 1e-7)
        weights = got[:, 0] / x[0, 0]
        respond = lambda y: abs(b.response(T, y) @ weights)
    else:
        f.receive_focus = foci
        state = b.state.receive_state()
        x = content(b.num(R))
        close(f.decode_streams(make([x], carrier), 1, state).view(np.ndarray), w[None] @ x, "received samples", 1e-7)
        respond = lambda y: abs(f.decode_streams(make([b.response(R, y)[:, None]], carrier), 1, state).view(np.ndarray)[0, 0])
    acc.step(3)
    for y in nulls:
        expect(respond(y) < 1e-6, "amplitude %s remains towards the suppressed direction %s", respond(y), y)
    expect(abs(respond(angles) - abs(a @ w)) < 1e-6, "amplitude %s instead of %s towards the focused direction", respond(angles), abs(a @ w))
    acc.state("nulls", array, dpose, apose, carrier, kind, angles, nulls, mode.name)


# ---------------------------------------------------------------------------- capon
def check_capon(acc, array, dpose, apose, carrier, kind, angles, interferer, loading):
    b = Bench(array, dpose, apose, carrier)
    f = CaponBeamformer(loading)
    f.receive_focus = b.focus(kind, angles)
    n = b.num(R)
    x = b.response(R, angles)[:, None] * content(1, 16) + 3 * b.response(R, interferer)[:, None] * content(1, 16, 77) + 0.1 * content(n, 16, 200)
    s = make([x.copy()], carrier)
    out = f.decode_streams(s, 1, b.state.receive_state())
    same_meta(s, out)
    close(s.view(np.ndarray), x, "given samples")
    a = b.response(R, angles)
    cov = x @ x.conj().T + loading * np.eye(n)
    w = np.linalg.solve(cov, a)
    w = w / (a.conj() @ w)
    close(out.view(np.ndarray), (w.conj() @ x)[None], "received samples", 1e-6)
    # No distortionless combination of the streams collects less power
    energy = np.linalg.norm(out.view(np.ndarray)) ** 2 + loading * np.linalg.norm(w) ** 2
    conv = a / n
    expect(energy <= (conv.conj() @ cov @ conv).real * (1 + 1e-9), "conventional beamforming collects less interference")
    acc.step(2)
    # The focused wave passes undistorted, whatever else arrives
    more = x + a[:, None] * content(1, 16, 500)
    got = f.decode_streams(make([more], carrier), 1, b.state.receive_state()).view(np.ndarray)
    cov = more @ more.conj().T + loading * np.eye(n)
    w = np.linalg.solve(cov, a)
    w = w / (a.conj() @ w)
    close(got, (w.conj() @ x)[None] + content(1, 16, 500), "samples with an additional wave", 1e-6)
    acc.state("capon", array, dpose, apose, carrier, kind, angles, interferer, loading)


# ---------------------------------------------------------------------------- probing and configuration
RECEIVERS = {"conventional": (ConventionalBeamformer, 1), "nulls": (NullSteeringBeamformer, 3), "capon": (lambda: CaponBeamformer(0.1), 1)}


def check_probe(acc, name, array, dpose, apose, points, configured):
    """Probing several points yields what focusing each of them yields."""
    carrier = 1e9
    b = Bench(array, dpose, apose, carrier)
    make_former, n = RECEIVERS[name]
    f = make_former()
    grid = np.array([[ANGLES[(i + 2 * j) % len(ANGLES)] for j in range(n)] for i in range(points)])
    x = content(b.num(R), 9)
    state = b.state.receive_state()
    if configured:
        f.probe_focus_points = grid.copy()
        expect(np.array_equal(f.probe_focus_points, grid), "probed points changed")
        got = f.probe(x.copy(), state)
    else:
        before = f.probe_focus_points.copy()
        got = f.probe(x.copy(), state, grid.copy())
        expect(np.array_equal(before, f.probe_focus_points), "probing modified the configured points")
    expect(got.shape == (points, 1, 9), "%d probed points yield the shape %s", points, got.shape)
    for i in range(points):
        acc.step()
        foci = [SphericalFocus(p) for p in grid[i]]
        kept = f.receive_focus
        want = f.decode_streams(make([x], carrier), 1, state, foci if n > 1 else foci[0]).view(np.ndarray)
        close(got[i], want, "probed point %d" % i)
        expect(f.receive_focus is kept, "focusing a point once replaced the configured focus")
        f.receive_focus = foci
        close(f.decode_streams(make([x], carrier), 1, state).view(np.ndarray), want, "configured focus")
    acc.state("probe", name, array, dpose, apose, points, configured)


def raises(fn, error=ValueError):
    try:
        fn()
    except error:
        return
    expect(False, "an invalid configuration was accepted")


def check_invalid(acc, name, wrong):
    b = Bench("square", "turned", "yaw", 1e9)
    make_former, n = RECEIVERS[name]
    f = make_former()
    foci = [SphericalFocus(0.1 * i, 0.2 * i) for i in range(wrong)]
    x = make([content(4)], 1e9)
    state = b.state
    if wrong == n:
        f.receive_focus = foci
        expect(list(f.receive_focus) == foci, "configured focus changed")
        f.decode_streams(x, 1, state.receive_state(), foci)
        f.probe_focus_points = np.zeros((n, 2))
        expect(f.probe_focus_points.shape == (1, n, 2), "a single probed point was not expanded")
    else:
        kept, points = list(f.receive_focus), f.probe_focus_points.copy()
        raises(lambda: setattr(f, "receive_focus", foci))
        raises(lambda: f.decode_streams(x, 1, state.receive_state(), foci))
        raises(lambda: setattr(f, "probe_focus_points", np.zeros((2, wrong, 2))))
        raises(lambda: setattr(f, "probe_focus_points", np.zeros((2,))))
        expect(list(f.receive_focus) == kept and np.array_equal(points, f.probe_focus_points), "a rejected focus was kept")
    if name != "capon":
        y = make([content(1)], 1e9)
        if wrong == n:
            f.transmit_focus = foci
            expect(list(f.transmit_focus) == foci, "configured focus changed")
            f.encode_streams(y, 4, state.transmit_state(), foci)
            for streams in (2, 3, 4):
                raises(lambda: f.encode_streams(make([content(streams)], 1e9), 4, state.transmit_state()))
        else:
            kept = list(f.transmit_focus)
            raises(lambda: setattr(f, "transmit_focus", foci))
            raises(lambda: f.encode_streams(y, 4, state.transmit_state(), foci))
            expect(list(f.transmit_focus) == kept, "a rejected focus was kept")
    if name == "capon":
        raises(lambda: setattr(f, "loading", -1e-9 - wrong))
        expect(f.loading == 0.1, "a rejected loading was kept")
    acc.step(6)
    acc.state("invalid", name, wrong)


# ---------------------------------------------------------------------------- operators and device codings
def check_operators(acc, array, dpose, apose, kind, angles, placement):
    """Beamforming operators and the codings of devices steer alike."""
    carrier = 1e9
    b = Bench(array, dpose, apose, carrier)
    x = content(1, 6)
    f = ConventionalBeamformer()
    f.transmit_focus = b.focus(kind, angles)
    f.receive_focus = b.focus(kind, angles)
    a_tx, a_rx = b.response(T, angles), b.response(R, angles)
    wave = Signal.Create(a_rx[:, None] * x, RATE, carrier)
    if placement == "operators":
        b.device.add_dsp(BeamformingTransmitter(Signal.Create(x.copy(), RATE), f))
        b.device.add_dsp(BeamformingReceiver(f, 6))
        sent = b.device.transmit().mixed_signal
        got = b.device.receive(wave).operator_receptions[0].signal
    else:
        b.device.transmit_coding[0] = f
        b.device.receive_coding[0] = f
        sent = b.device.transmit_coding.encode_streams(Signal.Create(x.copy(), RATE, carrier), b.device.state().transmit_state())
        got = b.device.receive_coding.decode_streams(wave, b.device.state().receive_state())
        expect(b.device.num_transmit_dsp_ports == 1 and b.device.num_receive_dsp_ports == 1, "beamformed devices offer %d and %d ports", b.device.num_transmit_dsp_ports, b.device.num_receive_dsp_ports)
        expect(f.precoding is b.device.receive_coding, "the beamformer isn't attached to its coding")
    close(sent.view(np.ndarray), a_tx.conj()[:, None] * x, "radiated samples")
    close(got.view(np.ndarray), x, "received samples")
    acc.step(2)
    acc.state("operators", array, dpose, apose, kind, angles, placement)


def check_sidelobes(acc, array, dpose, apose, mode, sent, focus, codebook):
    """The evaluated powers are those radiated to or received from the directions of the codebook."""
    carrier = 1e9
    b = Bench(array, dpose, apose, carrier)
    f = ConventionalBeamformer()
    book = None
    directions = [(1.0, 0.4), (2.0, 1.9), (-1.0, 1.0)]
    if codebook:
        book = np.array([b.response(mode, y) for y in directions])
    evaluator = SidelobeEvaluator(b.device, mode, b.focus("global", focus), book)
    x = content(1, 6)
    if mode is T:
        f.transmit_focus = b.focus("spherical", sent)
        b.device.add_dsp(BeamformingTransmitter(Signal.Create(x.copy(), RATE), f))
        b.device.transmit()
        weights = b.response(T, sent).conj()
        power = lambda a: abs(a @ weights) ** 2 / b.num(T)
    else:
        b.device.add_dsp(BeamformingReceiver(f, 6))
        b.device.receive(Signal.Create(b.response(R, sent)[:, None] * x, RATE, carrier))
        power = lambda a: abs(a.conj() @ b.response(R, sent)) ** 2 / b.num(R)
    if book is None:
        n = b.num(mode)
        directions = [(y, z) for z in np.linspace(0, np.pi, n)[1:] for y in np.linspace(0, 2 * np.pi, 2 * n, endpoint=False)]
        book = np.array([np.ones(n)] + [b.response(mode, y) for y in directions])
    want = power(b.response(mode, focus)) / sum(power(a) for a in book)
    evaluation = evaluator.evaluate()
    got = evaluation.artifact().to_scalar()
    expect(abs(got - want) < 1e-7 * max(1.0, want), "sidelobe level %s instead of %s", got, want)
    acc.step(len(book))
    acc.state("sidelobes", array, dpose, apose, mode.name, sent, focus, codebook)


# ---------------------------------------------------------------------------- chains of codings
class Encoder(TransmitStreamEncoder):
    """Multiplies the number of streams, scaling each copy and numbering its application."""

    def __init__(self, factor, tag):
        TransmitStreamEncoder.__init__(self)
        self.factor, self.tag = factor, tag

    def num_transmit_input_streams(self, num_output_streams):
        return num_output_streams // self.factor if num_output_streams % self.factor == 0 else -1

    def apply(self, x):
        return np.concatenate([(self.tag + i) * x + i for i in range(self.factor)], axis=0)

    def encode_streams(self, streams, num_output_streams, device):
        out = self.apply(streams.view(np.ndarray))
        expect(out.shape[0] == num_output_streams, "an encoder is asked for %d instead of %d streams", num_output_streams, out.shape[0])
        return Signal.Create(out, streams.sampling_rate, streams.carrier_frequency, streams.noise_power, streams.delay)

    def serialize(self, process):
        pass

    @classmethod
    def Deserialize(cls, process):
        return cls(1, 1)


class Decoder(ReceiveStreamDecoder):
    """Combines groups of streams."""

    def __init__(self, factor, tag):
        ReceiveStreamDecoder.__init__(self)
        self.factor, self.tag = factor, tag

    def num_receive_output_streams(self, num_input_streams):
        return num_input_streams // self.factor if num_input_streams % self.factor == 0 else -1

    def apply(self, x):
        return self.tag * x.reshape(self.factor, -1, x.shape[1]).sum(axis=0) + 1

    def decode_streams(self, streams, num_output_streams, device):
        out = self.apply(streams.view(np.ndarray))
        expect(out.shape[0] == num_output_streams, "a decoder is asked for %d instead of %d streams", num_output_streams, out.shape[0])
        return Signal.Create(out, streams.sampling_rate, streams.carrier_frequency, streams.noise_power, streams.delay)

    serialize = Encoder.serialize
    Deserialize = Encoder.Deserialize


def check_chain(acc, history, ports, side):
    """Registered, replaced and removed codings are applied in the order of the chain."""
    device = SimulatedDevice(carrier_frequency=1e9, bandwidth=RATE, antennas=SimulatedCustomArray([SimulatedIdealAntenna(pose=Transformation.From_Translation(np.array([i, 0.0, 0.0]))) for i in range(ports)]))
    state = device.state()
    coding = device.transmit_coding if side == "transmit" else device.receive_coding
    kind = Encoder if side == "transmit" else Decoder
    model = []
    for step, op in enumerate(history):
        acc.step()
        verb, arg = op
        if verb == "pop":
            if not model:
                continue
            i = 0 if arg == 0 else len(model) - 1
            got = coding.pop_precoder(i)
            expect(got is model.pop(i), "another coding was removed")
            continue
        new = kind(arg, step + 2)
        if verb == "append":
            coding[len(coding)] = new
            model.append(new)
        elif verb == "front":
            coding[-1] = new
            model.insert(0, new)
        elif verb == "replace":
            if not model:
                continue
            coding[0] = new
            model[0] = new
        expect(new.precoding is coding, "a registered coding doesn't know its chain")
    expect(len(coding) == len(model) and all(a is b for a, b in zip(coding, model)), "the chain contains other codings")
    expect(all(coding[i] is m for i, m in enumerate(model)) and coding[:] == model, "the chain's order differs")
    # Expected number of streams
    numbers = [ports]
    feasible = True
    for m in reversed(model) if side == "transmit" else model:
        if numbers[-1] % m.factor:
            feasible = False
            break
        numbers.append(numbers[-1] // m.factor)
    count = (lambda: device.num_transmit_dsp_ports) if side == "transmit" else (lambda: device.num_receive_dsp_ports)
    run = (lambda s: coding.encode_streams(s, state.transmit_state())) if side == "transmit" else (lambda s: coding.decode_streams(s, state.receive_state()))
    if not feasible:
        raises(count)
        raises(lambda: run(make([content(1)], 1e9)))
        acc.count("infeasible chains")
    else:
        expect(count() == numbers[-1], "%d instead of %d streams", count(), numbers[-1])
        x = content(numbers[-1] if side == "transmit" else ports)
        s = make([x.copy()], 1e9)
        out = run(s)
        same_meta(s, out)
        close(s.view(np.ndarray), x, "given samples")
        want = x
        for m in model:
            want = m.apply(want)
        close(out.view(np.ndarray), want, "coded samples")
        if side == "transmit" and model:
            raises(lambda: run(make([content(numbers[-1] + 1)], 1e9)))
    acc.state("chain", side, ports, tuple((type(m).__name__, m.factor, m.tag) for m in model))


def check_chain_ports(acc, ports, side):
    """Codings of arrays without any ports are rejected."""
    coding = TransmitSignalCoding() if side == "transmit" else ReceiveSignalCoding()
    count = coding.num_transmit_input_streams if side == "transmit" else coding.num_receive_output_streams
    expect(count(ports) == ports, "an empty coding changes the number of streams")
    coding[0] = Encoder(1, 2) if side == "transmit" else Decoder(1, 2)
    if ports < 1:
        raises(lambda: count(ports))
    else:
        expect(count(ports) == ports, "the number of streams changed")
    acc.state("ports", ports, side)


def check_split(acc, streams, samples):
    x = content(streams, samples)
    s = DenseSignal.FromNDArray(x.copy(), RATE, 1e9, 0.5, 0.75)
    b = Bench("line", "origin", "origin", 1e9)
    out = IQSplitter().encode_streams(s, 2 * streams, b.state.transmit_state())
    same_meta(s, out)
    got = out.view(np.ndarray)
    want = np.empty((2 * streams, samples))
    want[::2], want[1::2] = x.real, x.imag
    close(got, want.astype(complex), "split samples", 0.0)
    expect(IQSplitter().num_transmit_input_streams(2 * streams) == streams, "number of split streams")
    close(s.view(np.ndarray), x, "given samples", 0.0)
    acc.state("split", streams, samples)


CASES = {
    "transmit": check_transmit,
    "receive": check_receive,
    "nulls": check_nulls,
    "capon": check_capon,
    "probe": check_probe,
    "invalid": check_invalid,
    "operators": check_operators,
    "sidelobes": check_sidelobes,
    "chain": check_chain,
    "ports": check_chain_ports,
    "split": check_split,
}


def run_cases(acc, shard):
    for kind, *args in shard:
        acc.run("%s/%s" % (kind, args[0] if kind != "chain" else args[2]), lambda: CASES[kind](acc, *args), {"kind": kind, "arguments": [str(a) for a in args]})


def main(check):
    t = check.thorough
    cases = []
    angles = ANGLES if t else ANGLES[:5]
    poses = list(itertools.product(POSES, POSES)) if t else [("origin", "origin"), ("moved", "yaw"), ("yaw", "origin"), ("roll", "yaw"), ("origin", "turned"), ("turned", "moved"), ("turned", "turned")]
    arrays = list(ARRAYS) if t else ["pair", "square", "sparse", "mixed", "split"]
    for array, (dp, ap), carrier, a in itertools.product(arrays, poses, (1e9, 28e9), angles):
        for kind in FOCI:
            if not t and carrier != 1e9 and kind not in ("spherical", "device"):
                continue
            cases.append(("transmit", array, dp, ap, carrier, kind, a, 1 + (kind == "local")))
            cases.append(("receive", array, dp, ap, carrier, kind, a, 1 + (kind == "local")))
    for array in arrays if t else ["square", "sparse", "mixed", "split"]:
        for (dp, ap), i, j, k in itertools.product(poses, range(len(angles)), range(len(angles)), range(len(angles))):
            if len({i, j, k}) < 3:
                continue
            for kind in ("spherical", "global", "device") if t else (("spherical", "global")[(i + j + k) % 2],):
                for mode in (T, R):
                    cases.append(("nulls", array, dp, ap, 1e9, kind, ANGLES[i], (ANGLES[j], ANGLES[k]), mode))
    for array, (dp, ap), kind, i, j, loading in itertools.product(arrays, poses, ("spherical", "global", "device"), range(len(angles)), range(len(angles)), (0.0, 0.01, 1.0)):
        if i != j and (t or (i + j) % 3 == ("spherical", "global", "device").index(kind)):
            cases.append(("capon", array, dp, ap, 1e9, kind, ANGLES[i], ANGLES[j], loading))
    for name, array, (dp, ap), points, configured in itertools.product(RECEIVERS, arrays, poses, (1, 2, 3, 5), (False, True)):
        if name == "nulls" and Bench(array, dp, ap, 1e9).num(R) < 4:
            continue
        cases.append(("probe", name, array, dp, ap, points, configured))
    cases += [("invalid", name, n) for name in RECEIVERS for n in range(6)]
    cases += [("operators", array, dp, ap, kind, a, where) for array in arrays for dp, ap in poses for kind in ("spherical", "global", "device") for a in angles[:3] for where in ("operators", "codings")]
    cases += [("sidelobes", array, dp, ap, mode, s, f, book) for array in arrays for dp, ap in poses for mode in (T, R) for s in angles[1:4] for f in angles[1:4] for book in (False, True)]
    ops = [("append", 1), ("append", 2), ("append", 3), ("front", 1), ("front", 2), ("replace", 2), ("pop", 0), ("pop", -1)]
    cases += [("chain", h, ports, side) for h in histories(ops, 4 if t else 3) for ports in ((1, 4, 6, 12) if t else (4, 12)) for side in ("transmit", "receive")]
    cases += [("ports", n, side) for n in range(-1, 5) for side in ("transmit", "receive")]
    cases += [("split", s, n) for s in range(1, 5) for n in (0, 1, 2, 7)]
    check.explore(run_cases, chunks(cases, 160), case_timeout=60)
    check.bounds = {"cases": len(cases), "arrays": len(arrays), "poses of devices and arrays": len(poses), "directions": "%d focused, %d observed" % (len(angles), len(FINE)), "chain reconfigurations": 4 if t else 3, "streams": 12}
    check.assumptions = ["planar waves and ideal antennas", "null directions don't span the focused direction"]
