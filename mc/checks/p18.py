"""P18: antenna arrays respond as their element positions, poses and characteristics demand."""
import itertools
import math

import numpy as np
from scipy.constants import speed_of_light

from hermespy.core.antennas import AntennaMode, CustomAntennaArray, Dipole, IdealAntenna, LinearAntenna, PatchAntenna, UniformArray
from hermespy.core.signal_model import Signal
from hermespy.core.transformation import Direction, Transformable, Transformation
from hermespy.beamforming import ReceiveBeamformer, SphericalFocus, TransmitBeamformer
from hermespy.simulation.antennas import (
    SimulatedCustomArray,
    SimulatedDipole,
    SimulatedIdealAntenna,
    SimulatedLinearAntenna,
    SimulatedPatchAntenna,
    SimulatedUniformArray,
)
from ..core import chunks, expect
from .p08 import close, mat, rot

MODES = [AntennaMode.DUPLEX, AntennaMode.TX, AntennaMode.RX]
POSES = [((0.0, 0.0, 0.0), (0.0, 0.0, 0.0)), ((0.3, -0.4, 1.0), (-1.0, 2.0, 5.0)), ((0.0, math.pi / 2, 0.0), (0.0, 0.0, 9.0)), ((math.pi, 0.0, -0.5), (3.0, 0.0, 0.0))]


def tf(p):
    return Transformation.From_RPY(np.array(p[0]), np.array(p[1]))


def matches(mode, wanted):
    return wanted == AntennaMode.DUPLEX or mode in (wanted, AntennaMode.DUPLEX)


# ------------------------------------------------------------------ characteristics reference


def local_field(kind, slant, az, ze):
    """Field components along the zenith and azimuth unit vectors."""
    if kind == "ideal":
        return math.sqrt(0.5), math.sqrt(0.5)
    if kind == "linear":
        return math.cos(slant), math.sin(slant)
    if kind == "dipole":
        return (0.0 if math.sin(ze) < 1e-8 else math.cos(0.5 * math.pi * math.cos(ze)) / math.sin(ze)), 0.0
    return max(0.1, (0.1 + 0.9 * math.exp(-1.315 * az * az)) * math.cos(ze) ** 2), 0.0


def spherical(d):
    return math.atan2(d[1], d[0]), math.acos(max(-1.0, min(1.0, d[2])))


def basis(az, ze):
    return np.array([math.cos(ze) * math.cos(az), math.cos(ze) * math.sin(az), -math.sin(ze)]), np.array([-math.sin(az), math.cos(az), 0.0])


def global_field(kind, slant, world, direction):
    """Field of an antenna towards a global direction as a vector of the global frame, projected to the global basis."""
    local = world[:3, :3].T @ direction
    az, ze = spherical(local)
    f = local_field(kind, slant, az, ze)
    e_ze, e_az = basis(az, ze)
    vector = world[:3, :3] @ (f[0] * e_ze + f[1] * e_az)
    g_ze, g_az = basis(*spherical(direction))
    return np.array([vector @ g_ze, vector @ g_az])


ELEMENTS = {
    "ideal": (IdealAntenna, SimulatedIdealAntenna),
    "linear": (LinearAntenna, SimulatedLinearAntenna),
    "dipole": (Dipole, SimulatedDipole),
    "patch": (PatchAntenna, SimulatedPatchAntenna),
}


def element(kind, simulated, mode, slant, pose, weight):
    args = dict(mode=mode, pose=tf(pose))
    if kind == "linear":
        args["slant"] = slant
    if simulated:
        args["weight"] = weight
    return ELEMENTS[kind][simulated](**args)


class Model:
    """Array next to its reference: list of (kind, slant, mode, local matrix, weight)."""

    def __init__(self, spec):
        self.spec = spec
        if spec["type"] == "uniform":
            kind, simulated = spec["kind"], spec["simulated"]
            proto = element(kind, simulated, spec["mode"], spec["slant"], (spec["rpy"], (0, 0, 0)), spec["weight"])
            self.array = (SimulatedUniformArray if simulated else UniformArray)(proto, spec["spacing"], spec["shape"], tf(spec["pose"]))
            self.spacing, self.shape = spec["spacing"], tuple(spec["shape"])
            self.layout()
        else:
            self.elements = [(k, s, m, mat(*p), w) for k, m, s, p, w in spec["elements"]]
            real = [element(k, spec["simulated"], m, s, p, w) for k, m, s, p, w in spec["elements"]]
            self.array = (SimulatedCustomArray if spec["simulated"] else CustomAntennaArray)(real, tf(spec["pose"]))
        self.pose = mat(*spec["pose"])
        self.base = np.eye(4)
        self.device = Transformable(tf(((0, 0, 0), (0, 0, 0))))

    def layout(self):
        s = self.spec
        self.elements = [(s["kind"], s["slant"], s["mode"], mat(s["rpy"], self.spacing * np.array(i)), s["weight"]) for i in np.ndindex(*self.shape)]

    def apply(self, op):
        kind, value = op
        if kind == "spacing":
            self.array.spacing = value
            self.spacing = value
            self.layout()
        elif kind == "dimensions":
            self.array.dimensions = value
            self.shape = tuple(([value] if isinstance(value, int) else list(value)) + [1, 1])[:3]
            self.layout()
        elif kind == "position":
            self.array.position = np.array(value)
            self.pose[:3, 3] = value
        elif kind == "orientation":
            self.array.orientation = np.array(value)
            self.pose[:3, :3] = rot(value)
        elif kind == "base":
            self.array.set_base(self.device if value else None)
            self.base = mat(*self.device_pose) if value else np.eye(4)
        elif kind == "move":
            self.device.pose = tf(value)
            self.device_pose = value
            if not self.array.is_base:
                self.base = mat(*value)
        elif kind == "add":
            k, m, s, p, w = value
            self.array.add_antenna(element(k, self.spec["simulated"], m, s, p, w))
            self.elements.append((k, s, m, mat(*p), w))
        elif kind == "mode":
            self.array.antennas[0].mode = value
            # identify the element by its position
            i = self.order(self.array)[0]
            e = self.elements[i]
            self.elements[i] = (e[0], e[1], value, e[3], e[4])

    device_pose = POSES[0]

    def order(self, array):
        """Indices of the reference elements in the order of the array."""
        out = []
        for a in array.antennas:
            d = [np.linalg.norm(e[3][:3, 3] - a.position) + (1e3 if i in out else 0) for i, e in enumerate(self.elements)]
            expect(d and min(d) < 1e-9, "antenna at unexpected position %s", a.position)
            out.append(int(np.argmin(d)))
        expect(len(out) == len(self.elements), "the array has %d instead of %d antennas", len(out), len(self.elements))
        return out

    def verify(self, acc, full=True):
        order = self.order(self.array)
        elements = [self.elements[i] for i in order]
        verify_array(self.array, elements, self.base @ self.pose, full)
        acc.state([e[3] for e in elements], self.base @ self.pose)
        base = mat(*POSES[1])
        state = self.array.state(tf(POSES[1]))
        verify_array(state, elements, base @ self.pose, full)
        verify_array(self.array, elements, self.base @ self.pose, False)
        return elements, state


DIRECTIONS = [np.array(d, float) / np.linalg.norm(d) for d in ((0, 0, 1), (0, 0, -1), (1, 0, 0), (-1, 2, 0.5), (0.3, -0.2, -1))]
POINTS = [np.array(p, float) for p in ((10, 0, 0), (-3, 4, 1.5), (0, 0.2, -60))]


def verify_array(array, elements, world, full):
    n = len(elements)
    expect(array.num_antennas == n and len(array.antennas) == n, "the array reports %d of %d antennas", array.num_antennas, n)
    expect([a.mode for a in array.antennas] == [e[2] for e in elements], "modes of the antennas")
    for a, e in zip(array.antennas, elements):
        close(a.forwards_transformation, world @ e[3], "global pose of an antenna")
    for mode in MODES:
        sel = [e for e in elements if matches(e[2], mode)]
        topology = np.array([e[3][:3, 3] for e in sel]).reshape(-1, 3)
        count, got, reals = {
            AntennaMode.DUPLEX: (array.num_antennas, array.topology, array.antennas),
            AntennaMode.TX: (array.num_transmit_antennas, array.transmit_topology, array.transmit_antennas),
            AntennaMode.RX: (array.num_receive_antennas, array.receive_topology, array.receive_antennas),
        }[mode]
        expect(count == len(sel) == len(reals), "%d instead of %d antennas of mode %s", count, len(sel), mode)
        close(got, topology, "topology of mode %s" % mode)
        if not full:
            continue
        f = 2.0e8
        k0 = 2 * math.pi * f / speed_of_light
        for d in DIRECTIONS:
            az, ze = spherical(d)
            ref = np.exp(1j * k0 * (topology @ d)) if sel else np.zeros(0)
            same(array.spherical_phase_response(f, az, ze, mode), ref, "phase response towards %s" % d)
            same(array.horizontal_phase_response(f, az, math.pi / 2 - ze, mode), ref, "phase response towards the horizontal angles of %s" % d)
            for frame in ("local", "global"):
                g = world[:3, :3] @ d if frame == "local" else d
                ref = np.array([global_field(e[0], e[1], world @ e[3], g) for e in sel]).reshape(-1, 2)
                if axis(g) or any(axis((world @ e[3])[:3, :3].T @ g) for e in sel):  # the basis is ambiguous there: compare the magnitude
                    ok = [e[0] != "patch" for e in sel]  # the gain of a patch is discontinuous there
                    close(np.linalg.norm(array.characteristics(Direction.From_Cartesian(d), mode, frame), axis=1)[ok], np.linalg.norm(ref, axis=1)[ok], "gain towards %s direction %s" % (frame, d), 1e-6)
                else:
                    close(array.characteristics(Direction.From_Cartesian(d), mode, frame), ref, "characteristics towards %s direction %s" % (frame, d), 1e-7)
        for p in POINTS:
            for frame in ("local", "global"):
                q = (world @ np.append(p, 1))[:3] if frame == "local" else p
                dist = np.array([np.linalg.norm((world @ e[3])[:3, 3] - q) for e in sel])
                phase = np.exp(-1j * k0 * dist)
                same(array.cartesian_phase_response(f, p, frame, mode), phase, "phase response towards %s point %s" % (frame, p))
                g = (q - world[:3, 3]) / np.linalg.norm(q - world[:3, 3])
                ref = np.array([global_field(e[0], e[1], world @ e[3], g) for e in sel]).reshape(-1, 2)
                got = array.cartesian_array_response(f, p, frame, mode)
                expect(got.shape == (len(sel), 2), "response has shape %s", got.shape)
                if axis(g) or any(axis((world @ e[3])[:3, :3].T @ g) for e in sel):
                    ok = [e[0] != "patch" for e in sel]
                    close(np.linalg.norm(got, axis=1)[ok], np.linalg.norm(ref, axis=1)[ok], "gain towards %s point %s" % (frame, p), 1e-6)
                else:
                    same(got, phase[:, None] * ref, "response towards %s point %s" % (frame, p), 1e-7)


def axis(d):
    return abs(abs(d[2]) - 1) < 1e-9


def same(a, b, what, tol=1e-6):
    a, b = np.asarray(a), np.asarray(b)
    expect(a.shape == b.shape, "%s has shape %s instead of %s", what, a.shape, b.shape)
    expect(np.allclose(a, b, atol=tol), "%s is %s instead of %s", what, a, b)


def run_static(acc, shard):
    for spec in shard:
        def case():
            m = Model(spec)
            elements, state = m.verify(acc)
            acc.step()
            subarrays(m, elements, state)
            if spec["simulated"]:
                transceive(m.array, elements)
                patterns(m.array, elements)
        acc.run("array:%s" % (sorted(spec.items(), key=str),), case, case=spec)


def subarrays(m, elements, state):
    for mode in MODES:
        sel = [e for e in elements if matches(e[2], mode)]
        picks = list(range(len(sel))) + [slice(None), slice(1, None), slice(None, None, 2), [], list(range(len(sel)))[::-1]]
        picks += [list(c) for c in itertools.combinations(range(min(len(sel), 4)), 2)]
        for pick in picks:
            sub = state.select_subarray(pick, mode)
            want = [sel[pick]] if isinstance(pick, int) else sel[pick] if isinstance(pick, slice) else [sel[i] for i in pick]
            expect(len(sub) == len(want), "subarray %s has %d antennas", pick, len(sub))
            verify_array(sub, want, mat(*POSES[1]) @ m.pose, False)
            if mode == AntennaMode.DUPLEX:
                verify_array(state[pick], want, mat(*POSES[1]) @ m.pose, False)
        verify_array(state, elements, mat(*POSES[1]) @ m.pose, False)


def transceive(array, elements):
    for mode, fn in ((AntennaMode.TX, array.transmit), (AntennaMode.RX, array.receive)):
        sel = [e for e in elements if matches(e[2], mode)]
        if not sel:
            continue
        x = (np.arange(len(sel) * 3).reshape(len(sel), 3) + 1) * (1 + 0.5j)
        sig = Signal.Create(x.copy(), 2.0, 1e9, noise_power=0.1, delay=3.0)
        out = fn(sig)
        same(out.view(np.ndarray), x * np.array([e[4] for e in sel])[:, None], "signal passing the antennas")
        same(sig.view(np.ndarray), x, "signal passed to the antennas")
        expect((out.sampling_rate, out.carrier_frequency, out.delay) == (2.0, 1e9, 3.0), "parameters of the signal")
        for n in (len(sel) + 1, len(sel) - 1):
            if n > 0:
                try:
                    fn(Signal.Create(np.ones((n, 3), complex), 2.0, 1e9))
                    expect(False, "%d streams over %d antennas are accepted", n, len(sel))
                except ValueError:
                    pass


AIMS = np.array([(0.0, 0.0), (0.0, 0.7), (2.0, 0.7), (-1.0, 1.5), (3.0, 1.2)])


class Sender(TransmitBeamformer):
    """Transmits the conjugate phase response of the focus."""

    num_transmit_focus_points = 1

    def num_transmit_input_streams(self, num_output_streams):
        return 1

    def _encode(self, samples, carrier_frequency, focus_angles, array):
        return array.spherical_phase_response(carrier_frequency, *focus_angles[0], AntennaMode.TX).conj()[:, None] @ samples

    def serialize(self, process):
        pass

    @classmethod
    def Deserialize(cls, process):
        return cls()


class Receiver(ReceiveBeamformer):
    """Combines by the conjugate phase response of the focus."""

    num_receive_focus_points = 1

    def num_receive_output_streams(self, num_input_streams):
        return 1

    def _decode(self, samples, carrier_frequency, angles, array):
        return np.array([array.spherical_phase_response(carrier_frequency, *f[0], AntennaMode.RX).conj() @ samples for f in angles])[:, None, :]

    def serialize(self, process):
        pass

    @classmethod
    def Deserialize(cls, process):
        return cls()


def patterns(array, elements):
    """Radiated and received powers superimpose the weighted phase responses of all elements."""
    for mode in (AntennaMode.TX, AntennaMode.RX):
        w = np.array([e[4] for e in elements if matches(e[2], mode)])
        if w.size < 1:
            continue
        a = np.array([array.spherical_phase_response(1e9, az, ze, mode) for az, ze in AIMS])
        for weights in (None, np.exp(1j * np.arange(w.size) ** 2) * (1 + np.arange(w.size))):
            got = array.calculate_power(1e9, mode, weights, aoi=AIMS)
            want = np.abs((a * w * (1.0 if weights is None else weights)).sum(axis=1)) ** 2
            close(np.ravel(got), want, "power by weights", 1e-7)
        for k, (az, ze) in enumerate(AIMS[1:], 1):
            if mode == AntennaMode.TX:
                beamformer = Sender()
                beamformer.transmit_focus = SphericalFocus(az, ze)
            else:
                beamformer = Receiver()
                beamformer.receive_focus = SphericalFocus(az, ze)
            got = np.ravel(array.calculate_power(1e9, beamformer, aoi=AIMS))
            want = np.abs((a * w * a[k].conj()).sum(axis=1)) ** 2
            close(got * want[k], want * got[k], "power steered towards (%s, %s)" % (az, ze), 1e-6)
            expect(want[k] < 1e-9 or got[k] > 0, "no power towards the focus")


def run_histories(acc, shard):
    for spec, ops in shard:
        def case():
            m = Model(spec)
            m.verify(acc, False)
            kept = []
            for op in ops:
                m.apply(op)
                elements, state = m.verify(acc, False)
                kept.append((state, elements, mat(*POSES[1]) @ m.pose))
                acc.step()
            for k in kept:
                verify_array(*k, False)
            m.verify(acc, True)
        acc.run("history:%s:%s" % (sorted(spec.items(), key=str), ops), case, case={"array": spec, "operations": ops}, sample=False)


def uniform(kind="ideal", simulated=True, mode=AntennaMode.DUPLEX, slant=0.4, rpy=(0, 0, 0), weight=1.0, spacing=0.5, shape=(2, 1, 1), pose=POSES[0]):
    return dict(type="uniform", kind=kind, simulated=simulated, mode=mode, slant=slant, rpy=rpy, weight=weight, spacing=spacing, shape=shape, pose=pose)


def custom(elements, simulated, pose):
    return dict(type="custom", elements=elements, simulated=simulated, pose=pose)


def main(check):
    t = check.thorough
    shapes = list(itertools.product((1, 2, 3), repeat=3)) if t else [(1, 1, 1), (3, 1, 1), (1, 2, 1), (1, 1, 2), (2, 3, 1), (2, 1, 3), (2, 3, 2)]
    specs = [uniform(k, s, m, shape=sh, pose=p, rpy=r, weight=1j * 2 if s else 1.0, spacing=sp)
             for k in ELEMENTS for s in (True, False) for m in MODES for sh in shapes for p, sp in ((POSES[0], 0.5), (POSES[1], 0.2)) for r in ((0, 0, 0), (0.2, 1.0, -2.0))
             if t or (k, m) in (("ideal", MODES[0]), ("linear", MODES[1]), ("dipole", MODES[0]), ("patch", MODES[2]))]
    parts = [("ideal", m, 0.0, p, w) for m, p, w in zip(MODES, (((0, 0, 0), (0, 0, 0)), ((0.1, 0.5, 0), (1, 0, 0)), ((0, 0, 2), (0, -1, 3))), (1.0, 1j, -2.0))]
    parts += [("dipole", MODES[1], 0.0, ((1.0, 0.2, 0), (2, 2, 0)), 0.5), ("linear", MODES[2], 1.1, ((0, 0, 0.3), (0, 5, 0)), 1 - 1j), ("patch", MODES[0], 0.0, ((0.7, 0, 0), (0, 0, -4)), 1.0)]
    for n in range(0, 4 if t else 3):
        for el in itertools.permutations(parts, n):
            for s in (True, False):
                for p in (POSES if t else POSES[:2]):
                    specs.append(custom(list(el), s, p))
    check.explore(run_static, chunks(specs, 64))

    ops_common = [("position", (1.0, 2.0, 3.0)), ("orientation", (0.1, 0.2, 0.3)), ("base", True), ("base", False), ("move", POSES[1]), ("move", POSES[3]), ("mode", AntennaMode.TX), ("mode", AntennaMode.RX)]
    ops_u = ops_common + [("spacing", 2.0), ("dimensions", 3), ("dimensions", (1, 2)), ("dimensions", (2, 1, 2))]
    ops_c = ops_common + [("add", parts[1]), ("add", parts[3])]
    hist = []
    depth = 3 if t else 2
    for spec, ops in [(uniform(simulated=s), ops_u) for s in (True, False)] + [(custom(parts[:2], s, POSES[1]), ops_c) for s in (True, False)]:
        for n in range(1, depth + 1):
            for h in itertools.product(ops, repeat=n):
                if sum(o == ("add", parts[1]) for o in h) > 1 or sum(o == ("add", parts[3]) for o in h) > 1 or (spec["type"] == "custom" and ("add", parts[1]) in h):
                    continue
                hist.append((spec, h))
    check.explore(run_histories, chunks(hist, 64))
    check.bounds.update(arrays=len(specs), histories=len(hist), depth=depth)
