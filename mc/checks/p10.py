"""P10: constellations map bits bijectively and detect the nearest symbol."""
import itertools
import math

import numpy as np

from hermespy.modem.tools.psk_qam_mapping import PskQamMapping
from ..core import chunks, expect
from .p35 import roundtrip

DEFAULT = [(2, True), (4, True), (8, True), (16, True), (64, True), (256, True), (2, False), (4, False), (8, False), (16, False)]
LATTICE = [1.0, -1.0, 1j, -1j, 0.5 + 0.5j, 2.0, 0.0]


# ------------------------------------------------------------------ reference


def pam(bits):
    """Amplitude of a reflected binary (Gray) label: 3GPP TS 36.211, section 7.1."""
    a = 1.0
    rest = list(bits)
    # the sign bit comes first, the remaining bits fold the amplitude around powers of two
    mag = 1.0
    for k, b in enumerate(reversed(rest[1:])):
        mag = 2 ** (k + 1) - mag if b == 0 else 2 ** (k + 1) + mag
    return (1 - 2 * rest[0]) * mag * a


def gpp(order, is_complex, bits):
    if order == 8 and is_complex:
        return np.exp(1j * math.pi * [0, 1 / 4, 3 / 4, 1 / 2, -1 / 4, -1 / 2, 1, -3 / 4][int("".join(map(str, bits)), 2)])
    if not is_complex or order == 2:
        levels = np.arange(-(order - 1), order, 2)
        return complex(pam(bits) / math.sqrt(np.mean(levels**2)))
    side = int(math.isqrt(order))
    levels = np.arange(-(side - 1), side, 2)
    return (pam(bits[0::2]) + 1j * pam(bits[1::2])) / math.sqrt(2 * np.mean(levels**2))


def labels(order):
    n = int(math.log2(order))
    return [[(i >> (n - 1 - k)) & 1 for k in range(n)] for i in range(order)]


class Ref:
    def __init__(self, spec):
        order, is_complex, mapping = spec
        self.order, self.bits = order, int(math.log2(order))
        self.labels = np.array(labels(order))
        if mapping is None:
            self.points = np.array([gpp(order, is_complex, list(b)) for b in self.labels])
        else:
            m = np.asarray(mapping, complex)
            self.points = m / np.sqrt(np.mean(np.abs(m) ** 2))
        self.axis_only = mapping is None and (not is_complex or order == 2)

    def distances(self, y):
        d = np.asarray(y)[:, None] - self.points[None, :]
        return (d.real if self.axis_only else np.abs(d)) ** 2

    def llr(self, y):
        """Max-log likelihood ratios, positive for ones."""
        d = self.distances(y)
        out = np.empty((len(y), self.bits))
        for b in range(self.bits):
            one = self.labels[:, b] == 1
            out[:, b] = d[:, ~one].min(axis=1) - d[:, one].min(axis=1)
        return out


def make(spec, soft=False):
    order, is_complex, mapping = spec
    return PskQamMapping(order, None if mapping is None else np.array(mapping), soft, is_complex)


# ------------------------------------------------------------------ cases


def run_mapping(acc, shard):
    for spec in shard:
        ref = Ref(spec)
        n = ref.bits

        def body():
            m = make(spec)
            expect(m.bits_per_symbol == n and m.modulation_order == ref.order, "constellation of order %s with %s bits", m.modulation_order, m.bits_per_symbol)
            got = m.get_mapping()
            expect(np.allclose(got, ref.points), "mapping is %s instead of %s", got, ref.points)
            expect(abs(np.mean(np.abs(got) ** 2) - 1) < 1e-12, "mean energy is %s", np.mean(np.abs(got) ** 2))
            if spec[2] is None:
                # symbols next to each other differ in a single bit
                d = np.abs(got[:, None] - got[None, :]) + 10 * np.eye(ref.order)
                for i, j in zip(*np.where(np.isclose(d, d.min()))):
                    expect(np.sum(ref.labels[i] != ref.labels[j]) == 1, "neighbours %s and %s differ in several bits", ref.labels[i], ref.labels[j])
            # all sequences of one and two (three for small orders) symbols, in several bit representations
            depth = 3 if ref.order <= 4 else 2 if ref.order <= 16 else 1
            seqs = [q for k in range(depth + 1) for q in itertools.product(range(ref.order), repeat=k)]
            if ref.order > 16:
                seqs += [(a, (a * 7 + 3) % ref.order) for a in range(ref.order)] + [tuple(range(ref.order)), tuple(range(ref.order))[::-1]]
            for k, q in enumerate(seqs):
                bits = ref.labels[list(q)].flatten() if q else np.empty(0)
                bits = bits.astype([np.uint8, np.int8, np.int64, bool, float][k % 5] if spec[2] is None and not (spec[0] == 8 and spec[1]) else [np.uint8, np.int8, np.int64][k % 3])
                before = bits.copy()
                s = m.get_symbols(bits)
                expect(np.array_equal(bits, before), "mapped bits are modified")
                expect(s.shape == (len(q),) and np.allclose(s, ref.points[list(q)] if q else s), "bits %s are mapped to %s instead of %s", bits, s, ref.points[list(q)] if q else [])
                back = np.asarray(m.detect_bits(s))
                expect(np.array_equal(back > 0, bits > 0), "symbols of %s are detected as %s", bits, back)
                acc.step()

        acc.run("mapping", body, {"order": spec[0], "complex": spec[1], "mapping": None if spec[2] is None else str(spec[2])})
        acc.state("mapping", spec)


def grid(ref, fine):
    """Received values at, around and between all decision boundaries."""
    if ref.axis_only:
        re = sorted(set(np.round(ref.points.real, 12)))
        step = (re[1] - re[0]) / 4
        axis = np.arange(re[0] - 8 * step, re[-1] + 8.5 * step, step)
        axis = np.unique(np.round(np.concatenate([axis, axis + 0.37 * step]), 12))
        return np.concatenate([axis + 0j, axis + 0.7j])
    side = sorted(set(np.round(np.concatenate([ref.points.real, ref.points.imag]), 12)))
    step = min([b - a for a, b in zip(side, side[1:]) if b - a > 1e-6]) / (4 if fine else 2)
    step = max(step, (side[-1] - side[0]) / 120)
    axis = np.arange(side[0] - 6 * step, side[-1] + 6.5 * step, step)
    axis = np.unique(np.round(np.concatenate([axis, axis + 0.37 * step] if len(axis) < 60 else [axis]), 12))
    return (axis[:, None] + 1j * axis[None, :]).flatten()


def run_detection(acc, shard):
    for spec, fine in shard:
        ref = Ref(spec)

        def hard():
            y = grid(ref, fine)
            d = ref.distances(y)
            near = d <= d.min(axis=1, keepdims=True) + 1e-9
            weights = 2 ** np.arange(ref.bits)[::-1]
            hardware = make(spec)
            got = (np.asarray(hardware.detect_bits(y)) > 0).reshape(-1, ref.bits) @ weights
            ok = near[np.arange(len(y)), got]
            i = int(np.argmin(ok))
            expect(ok.all(), "value %s is detected as symbol %s instead of %s", y[i], ref.points[got[i]], ref.points[np.argmin(d[i])])
            # every value is detected independently of the others
            for k in (0, len(y) // 3, len(y) - 1):
                single = (np.asarray(hardware.detect_bits(y[k : k + 1])) > 0) @ weights
                expect(single == got[k], "value %s is detected differently alone", y[k])
            acc.step(len(y))
            return len(y)

        def soft():
            y = grid(ref, fine)
            want = ref.llr(y)
            m = make(spec, True)
            llr = np.asarray(m.detect_bits(y)).reshape(-1, ref.bits)
            big = np.abs(want) > 1e-6
            factors = llr[big] / want[big]
            expect(factors.min() > 0, "soft decision of the wrong sign")
            expect(np.allclose(factors, np.median(factors), rtol=1e-6), "soft decisions aren't proportional to the likelihood ratios, factors from %s to %s", factors.min(), factors.max())
            expect(np.allclose(llr[~big], 0, atol=1e-5 * np.median(factors)), "soft decisions at decision boundaries are %s", llr[~big])
            # scale with the noise
            for var in (0.25, 2.0, 40.0):
                expect(np.allclose(np.asarray(m.detect_bits(y, var)).reshape(-1, ref.bits) * var, llr), "soft decisions don't scale with noise variance %s", var)
            some = y[:: max(1, len(y) // 97)]
            var = np.linspace(0.1, 7.0, len(some))
            a = np.asarray(m.detect_bits(some, var)).reshape(-1, ref.bits) * var[:, None]
            expect(np.allclose(a, np.asarray(m.detect_bits(some)).reshape(-1, ref.bits)), "soft decisions don't scale with the noise variance of each symbol")
            acc.step(len(y))
            return len(y)

        case = {"order": spec[0], "complex": spec[1], "mapping": None if spec[2] is None else str(spec[2])}
        acc.run("hard", hard, case)
        if spec[2] is None and not (spec[0] == 8 and spec[1]):
            acc.run("soft", soft, case)
        acc.state("detection", spec)


def run_documents(acc, shard):
    for spec, soft in shard:

        def body():
            m = make(spec, soft)
            back = roundtrip(m)
            expect(back.modulation_order == m.modulation_order and back.soft_output == soft and back.is_complex == spec[1], "restored constellation of order %s, soft %s, complex %s", back.modulation_order, back.soft_output, back.is_complex)
            expect(np.allclose(back.get_mapping(), m.get_mapping()), "restored mapping differs")
            y = Ref(spec).points * 0.8 + 0.05
            if not soft or (spec[2] is None and not (spec[0] == 8 and spec[1])):
                expect(np.allclose(back.detect_bits(y).astype(float), m.detect_bits(y).astype(float)), "restored constellation detects differently")

        acc.run("document", body, {"order": spec[0], "complex": spec[1], "soft": soft, "mapping": None if spec[2] is None else str(spec[2])})
        acc.state("document", spec, soft)


def work(acc, shard):
    for kind, items in shard:
        {"mapping": run_mapping, "detection": run_detection, "document": run_documents}[kind](acc, items)


def main(check):
    custom = []
    for n, pool in ((2, LATTICE), (4, LATTICE[: 7 if check.thorough else 6])):
        for pts in itertools.permutations(pool, n):
            for c in (True, False):
                if c or n == 2:
                    custom.append((n, c, pts))
    eight = [0.3 + 0.1j, 1, -1, 1j, -1j, 2 + 2j, -2 - 1j, 0.1 - 2j]
    for r in range(8):
        custom.append((8, True, tuple(eight[r:] + eight[:r])))
    cross = [complex(a, b) for a in (-5, -3, -1, 1, 3, 5) for b in (-5, -3, -1, 1, 3, 5) if not (abs(a) == 5 and abs(b) == 5)]
    custom.append((32, True, tuple(cross)))
    custom.append((16, True, tuple(5.0 * np.exp(2j * np.pi * np.arange(16) / 16))))
    default = [(o, c, None) for o, c in DEFAULT]
    shards = [[("mapping", c)] for c in chunks(default, 10)] + [[("detection", [(s, True)])] for s in default]
    shards += [[("mapping", c), ("detection", [(s, check.thorough) for s in c])] for c in chunks(custom, 24)]
    docs = [(s, soft) for s in default + custom[:: 40] for soft in (False, True)]
    shards += [[("document", c)] for c in chunks(docs, 6)]
    check.explore(work, shards, case_timeout=120)
    check.bounds.update(default_constellations=len(default), custom_constellations=len(custom), sequences="all of up to 1-3 symbols")
