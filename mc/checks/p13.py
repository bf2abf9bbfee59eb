"""P13: orthogonal waveforms place, transform, delimit and recover every grid element."""
import itertools
import math

import numpy as np

import hermespy.modem as mo
from hermespy.modem.symbols import StatedSymbols, Symbols
from hermespy.modem.waveform import CustomPilotSymbolSequence
from hermespy.modem.waveforms.orthogonal import (
    ElementType,
    GridElement,
    GridResource,
    GuardSection,
    OCDMWaveform,
    OFDMWaveform,
    OTFSWaveform,
    PilotSection,
    PrefixType,
    SchmidlCoxPilotSection,
    SymbolSection,
)
from ..core import chunks, expect
from .p11 import bits_of, close, values

ELEMENTS = {"R": ElementType.REFERENCE, "D": ElementType.DATA, "N": ElementType.NULL}
PREFIX = {"C": PrefixType.CYCLIC, "Z": PrefixType.ZEROPAD, "-": PrefixType.NONE}
CLASSES = {"ofdm": OFDMWaveform, "otfs": OTFSWaveform, "ocdm": OCDMWaveform}

# A resource is (repetitions, prefix type, prefix ratio, [(element, repetitions)]);
# a section is ("S", repetitions, pattern, sample offset), ("G", samples, repetitions)


class Ref:
    """Reference of a frame: one entry per word or guard."""

    def __init__(self, kind, n, dc, resources, structure, pilot):
        self.kind, self.n, self.dc, self.pilot = kind, n, dc, pilot
        self.words, self.layout = [], []
        for s in structure:
            if s[0] == "G":
                self.layout.append(("guard", s[1] * s[2]))
                continue
            for _ in range(s[1]):
                for r in s[2]:
                    reps, prefix, ratio, elements = resources[r]
                    word = "".join(e * k for e, k in elements) * reps
                    self.layout.append(("word", len(self.words), prefix, ratio, s[3]))
                    self.words.append(word + "." * (n - len(word)))

    def positions(self, kind):
        return [(w, k) for w, word in enumerate(self.words) for k, e in enumerate(word) if e == kind]

    def bins(self, ovs):
        """Frequency bin of each subcarrier relative to the carrier."""
        out = []
        for k in range(self.n):
            f = k - self.n // 2
            if self.dc and f >= 0:
                f += 1
                if ovs == 1 and k == self.n - 1:
                    f = 0  # no other bin left
            out.append(f)
        return np.array(out)

    def synthesis(self, ovs):
        """Waveform of each subcarrier, one per row."""
        n, m = self.n, self.n * ovs
        t = np.arange(m)
        if self.kind == "ocdm":
            c = 0.0 if n % 2 == 0 else 0.5
            return np.array([np.exp(1j * np.pi * ((k + c - t / ovs) ** 2 / n - 0.25)) for k in range(n)]) / math.sqrt(n)
        return np.array([np.exp(2j * np.pi * f * t / m) for f in self.bins(ovs)]) / math.sqrt(n)

    def grid_to_frequency(self, grid):
        if self.kind != "otfs":
            return grid
        w, n = grid.shape
        # symplectic Fourier transform from the delay-Doppler to the time-frequency domain
        i = np.exp(2j * np.pi * np.outer(np.arange(n), np.arange(n)) / n) / math.sqrt(n)
        f = np.exp(-2j * np.pi * np.outer(np.arange(w), np.arange(w)) / w) / math.sqrt(w)
        return f @ grid @ i

    def prefix(self, entry, ovs):
        return 0 if entry[2] == "-" else int(math.floor(self.n * ovs * entry[3] + 1e-9))

    def pilot_symbols(self, order):
        if self.pilot is None:
            return None
        kind, custom = self.pilot
        count = self.n if kind == "P" else -(-self.n // 2)
        if custom is None:
            m = mo.PskQamMapping(order)
            bits = np.random.default_rng(50).integers(0, 2, count * m.bits_per_symbol, np.uint8)
            seq = m.get_symbols(bits)
        else:
            seq = np.array([custom[k % len(custom)] for k in range(count)])
        if kind == "P":
            return seq
        out = np.zeros(self.n, complex)
        out[::2] = seq
        if self.dc:
            out[: self.n // 2] = np.roll(out[: self.n // 2], 1)
        return out

    def frame(self, grid, order, ovs):
        s = self.synthesis(ovs)
        out = []
        if self.pilot is not None:
            out.append(self.grid_to_frequency(self.pilot_symbols(order)[None, :])[0] @ s)
        f = self.grid_to_frequency(grid) if len(grid) else grid
        for e in self.layout:
            if e[0] == "guard":
                out.append(np.zeros(e[1] * ovs))
                continue
            block = f[e[1]] @ s
            p = self.prefix(e, ovs)
            if p:
                out.append(block[-p:] if e[2] == "C" else np.zeros(p))
            out.append(block)
        return np.concatenate(out) if out else np.empty(0)


def build(kind, n, dc, resources, structure, pilot, order, bandwidth, seq=None):
    res = [GridResource(r, PREFIX[p], ratio, [GridElement(ELEMENTS[e], k) for e, k in elements]) for r, p, ratio, elements in resources]
    sections = []
    for s in structure:
        if s[0] == "S":
            sections.append(SymbolSection(s[1], list(s[2]), s[3]))
        else:
            sections.append(GuardSection((s[1] + 0.001) / bandwidth, s[2]))
    p = None
    if pilot is not None:
        cls = PilotSection if pilot[0] == "P" else SchmidlCoxPilotSection
        p = cls(None if pilot[1] is None else Symbols(np.array(pilot[1])[None, None, :]))
    kw = {} if kind == "ocdm" else {"dc_suppression": dc}
    if seq is not None:
        kw["pilot_sequence"] = CustomPilotSymbolSequence(np.array(seq))
    return CLASSES[kind](grid_resources=res, grid_structure=sections, num_subcarriers=n, pilot_section=p, modulation_order=order, **kw)


def verify(w, ref, order, ovs, bandwidth, seq, acc):
    bps = int(math.log2(order))
    data, refs = ref.positions("D"), ref.positions("R")
    expect(w.num_data_symbols == len(data) and w.references_per_frame == len(refs) and w.symbols_per_frame == len(data) + len(refs), "%s data and %s reference symbols instead of %s and %s", w.num_data_symbols, w.references_per_frame, len(data), len(refs))
    expect(w.words_per_frame == len(ref.words) and w.bits_per_frame() == bps * len(data), "%s words and %s bits per frame", w.words_per_frame, w.bits_per_frame())
    mask = w.resource_mask
    expect(mask.shape == (3, len(ref.words), ref.n), "resource mask has shape %s", mask.shape)
    for t, key in ((ElementType.DATA, "D"), (ElementType.REFERENCE, "R"), (ElementType.NULL, "N")):
        got = [tuple(int(v) for v in p) for p in np.argwhere(mask[t.value])]
        expect(got == ref.positions(key), "mask of %s elements selects %s instead of %s", t.name, got, ref.positions(key))
    if seq is None:
        seq = mo.PskQamMapping(order).get_mapping()
    # place and pick
    x = values(len(data))
    placed = w.place(Symbols(x[None, :, None]))
    grid = np.zeros((len(ref.words), ref.n), complex)
    for k, p in enumerate(data):
        grid[p] = x[k]
    for k, p in enumerate(refs):
        grid[p] = seq[k % len(seq)]
    close(placed.raw, grid[None], "placed symbols")
    for rx, tx in ((1, 1), (2, 2)):
        shape = (rx, tx, len(ref.words), ref.n)
        states = values(int(np.prod(shape)), 2).reshape(shape)
        raw = values(rx * grid.size, 3).reshape(rx, *grid.shape)
        picked = w.pick(StatedSymbols(raw, states))
        close(picked.raw[:, :, 0], np.array([[raw[(r,) + p] for p in data] for r in range(rx)]).reshape(rx, len(data)), "picked symbols")
        close(picked.dense_states()[:, :, :, 0], np.array([[[states[(r, t) + p] for p in data] for t in range(tx)] for r in range(rx)]).reshape(rx, tx, len(data)), "picked states")
    # modulate
    samples = np.asarray(w.modulate(placed, bandwidth, ovs)).flatten()
    want = ref.frame(grid, order, ovs)
    expect(w.samples_per_frame(bandwidth, ovs) == len(want), "%s samples per frame instead of %s", w.samples_per_frame(bandwidth, ovs), len(want))
    close(samples, want, "modulated samples")
    expect(abs(w.frame_duration(bandwidth) * bandwidth - len(ref.frame(grid, order, 1))) < 1e-6, "frame duration is %s samples", w.frame_duration(bandwidth) * bandwidth)
    p = w.pilot_signal(bandwidth, ovs)
    expect(abs(p.sampling_rate - bandwidth * ovs) < 1e-6 * bandwidth, "sampling rate of the pilot is %s", p.sampling_rate)
    count = ref.n * ovs if ref.pilot is not None else 0
    close(np.asarray(p.view(np.ndarray)).flatten(), want[:count], "pilot signal")
    if ref.dc and ovs > 1 and ref.kind == "ofdm":
        # no power at the carrier frequency
        at = count
        for e in ref.layout:
            if e[0] == "guard":
                at += e[1] * ovs
                continue
            at += ref.prefix(e, ovs)
            expect(abs(np.mean(samples[at : at + ref.n * ovs])) < 1e-9, "word %s has a constant component", e[1])
            at += ref.n * ovs
    # demodulate, also with samples following the frame
    for tail in (0, 5):
        got = w.demodulate(np.concatenate([samples, 0.3 * values(tail)]), bandwidth, ovs)
        close(got.raw, grid[None], "demodulated symbols")
    bits = bits_of(len(data) * bps)
    back = w.demodulate(np.asarray(w.modulate(w.place(w.map(bits)), bandwidth, ovs)).flatten(), bandwidth, ovs)
    got = w.unmap(w.equalize_symbols(w.pick(w.estimate_channel(back, bandwidth, ovs))))
    close(np.asarray(got).astype(int), bits.astype(int), "received bits", 0)
    # propagation over a multipath channel within the prefix
    shortest = min([ref.prefix(e, ovs) + 0 * e[1] for e in ref.layout if e[0] == "word"] or [0])
    offset = max([e[4] for e in ref.layout if e[0] == "word"] or [0])
    if ref.kind == "ofdm" and shortest > offset and all(e[2] == "C" for e in ref.layout if e[0] == "word"):
        h = np.zeros(shortest - offset + 1, complex)
        h[0], h[-1] = 1.0, 0.5j
        received = np.convolve(want, h)[: len(want)]
        resp = np.array([np.sum(h * np.exp(-2j * np.pi * f * np.arange(len(h)) / (ref.n * ovs))) for f in ref.bins(ovs)])
        close(w.demodulate(received, bandwidth, ovs).raw, (grid * resp)[None], "symbols demodulated after multipath propagation")
    acc.step(len(ref.words))


def run_static(acc, shard):
    for kind, n, dc, resources, structure, pilot, order, ovs, bandwidth, seq in shard:

        def body():
            w = build(kind, n, dc, resources, structure, pilot, order, bandwidth, seq)
            verify(w, Ref(kind, n, dc, resources, structure, pilot), order, ovs, bandwidth, seq, acc)

        acc.run(kind, body, {"kind": kind, "subcarriers": n, "dc_suppression": dc, "resources": resources, "structure": structure, "pilot": pilot, "order": order, "oversampling": ovs, "bandwidth": bandwidth, "references": seq})
        acc.state("static", kind, n, dc, resources, structure, str(pilot), order, ovs, bandwidth, str(seq))


# ------------------------------------------------------------------ reconfiguration

OPS = [("order", 4), ("order", 16), ("dc", False), ("dc", True), ("elements", (1.0, 1j)), ("elements", None), ("section", ("S", None)), ("section", None), ("section", ("P", (1j,))), ("structure", 0), ("structure", 1), ("ratio", 0.5), ("ovs", 2), ("ovs", 3), ("move", None)]


def run_histories(acc, shard):
    for kind, history in shard:

        def body():
            resources = [(2, "C", 0.25, (("R", 1), ("D", 2), ("N", 1))), (1, "C", 0.25, (("D", 7),))]
            structures = [(("S", 1, (0, 1), 0), ("G", 3, 1)), (("S", 2, (1,), 1), ("S", 1, (0, 0), 0))]
            n, bw = 8, 1e3
            cur = {"order": 4, "dc": True, "structure": 0, "pilot": ("P", None), "ovs": 1}
            w = build(kind, n, True, resources, structures[0], ("P", None), 4, bw, (1.0, -1j, 2.0))
            for op, v in history:
                if op == "order":
                    w.modulation_order = v
                    cur["order"] = v
                elif op == "dc":
                    if kind != "ocdm":
                        w.dc_suppression = v
                        cur["dc"] = v
                elif op == "elements":
                    if cur["pilot"] is not None:
                        w.pilot_section.pilot_elements = None if v is None else Symbols(np.array(v)[None, None, :])
                        cur["pilot"] = (cur["pilot"][0], v)
                elif op == "section":
                    if v is None:
                        w.pilot_section = None
                    elif v[0] == "P" or kind == "ocdm":
                        v = ("P", v[1])
                        w.pilot_section = PilotSection(None if v[1] is None else Symbols(np.array(v[1])[None, None, :]))
                    else:
                        w.pilot_section = SchmidlCoxPilotSection(None if v[1] is None else Symbols(np.array(v[1])[None, None, :]))
                    cur["pilot"] = v
                elif op == "structure":
                    if kind != "ofdm" and v == 1:
                        continue
                    w.grid_structure = [SymbolSection(s[1], list(s[2]), s[3]) if s[0] == "S" else GuardSection((s[1] + 0.001) / bw, s[2]) for s in structures[v]]
                    cur["structure"] = v
                elif op == "ratio":
                    w.grid_resources[1].prefix_ratio = v
                    resources[1] = (1, "C", v, resources[1][3])
                elif op == "move":
                    # the pilot section is moved to a new waveform
                    section = w.pilot_section
                    w = build(kind, n, cur["dc"], resources, structures[cur["structure"]], None, cur["order"], bw, (1.0, -1j, 2.0))
                    w.pilot_section = section
                else:
                    cur["ovs"] = v
                verify(w, Ref(kind, n, cur["dc"], resources, structures[cur["structure"]], cur["pilot"]), cur["order"], cur["ovs"], bw, (1.0, -1j, 2.0), acc)

        acc.run("history:" + kind, body, {"kind": kind, "history": history})
        acc.state("history", kind, history)


# ------------------------------------------------------------------ channel estimation


def run_estimation(acc, shard):
    for n, words, seq in shard:

        def body():
            resources = [(1, "C", 0.25, tuple((e, 1) for e in word)) for word in words]
            structure = (("S", 1, tuple(range(len(words))), 0),)
            w = build("ofdm", n, False, resources, structure, None, 4, 1e3, seq)
            w.channel_estimation = mo.OrthogonalLeastSquaresChannelEstimation()
            ref = Ref("ofdm", n, False, resources, structure, None)
            sent = w.place(Symbols(values(len(ref.positions("D")))[None, :, None])).raw[0]
            refs = ref.positions("R")
            wi, ki = np.meshgrid(np.arange(len(words)), np.arange(n), indexing="ij")
            several = len({p[0] for p in refs}) > 1 and len({p[1] for p in refs}) > 1
            for kind in range(3):
                h = {0: (0.5 - 1j) * np.ones(sent.shape), 1: 1 + 0.1j * wi - 0.2 * ki + 0.3j * ki, 2: values(sent.size, 5).reshape(sent.shape)}[kind]
                received = np.where(sent == 0, 0.123, h * sent)
                out = w.estimate_channel(Symbols(received[None]), 1e3, 1)
                close(out.raw, received[None], "symbols of the estimation")
                est = out.dense_states()
                expect(est.shape == (1, 1, len(words), n), "estimation has shape %s", est.shape)
                est = est[0, 0]
                expect(np.all(np.isfinite(est)), "estimated states are %s", est)
                for p in refs:
                    expect(abs(est[p] - h[p]) < 1e-9, "state of the reference %s is %s instead of %s", p, est[p], h[p])
                if kind == 0:
                    close(est, h, "estimation of a constant channel", 1e-6)
                if kind == 1:
                    # between references of the same word or subcarrier
                    for a, b in itertools.combinations(refs, 2):
                        if a[0] == b[0] or a[1] == b[1]:
                            for q in itertools.product(range(a[0], b[0] + 1), range(min(a[1], b[1]), max(a[1], b[1]) + 1)):
                                expect(abs(est[q] - h[q]) < 1e-6, "state at %s between references %s and %s is %s instead of %s", q, a, b, est[q], h[q])
                if not several and kind == 2:
                    # a channel known for a single word holds for all words
                    if len({p[0] for p in refs}) == 1 and len(refs) == n:
                        close(est, np.repeat(h[refs[0][0]][None, :], len(words), axis=0), "estimation from a preamble", 1e-9)
                acc.step()

        acc.run("estimation", body, {"words": words, "references": str(seq)})
        acc.state("estimation", words, str(seq))


RUN = {"static": run_static, "history": run_histories, "estimation": run_estimation}


def work(acc, shard):
    for kind, items in shard:
        RUN[kind](acc, items)


def words_for(n):
    """Element patterns filling up to n subcarriers."""
    out = [(n, (("D", 1),)), (1, (("R", n),)), (1, (("D", n - 1),)), (1, (("N", 1), ("D", 1), ("R", 1), ("D", n - 3)))]
    if n % 2 == 0:
        out.append((n // 2, (("R", 1), ("D", 1))))
    return out


def main(check):
    deep = check.thorough
    static = []
    for n in (4, 5, 8, 9) if not deep else (4, 5, 6, 7, 8, 9, 12, 16):
        kinds = words_for(n)
        prefixes = [("C", 0.25), ("Z", 0.5), ("-", 0.5), ("C", 1.0), ("C", 0.0)]
        for i, (a, b) in enumerate(itertools.product(range(len(kinds)), repeat=2)):
            for j, (pa, pb) in enumerate(itertools.product(prefixes, repeat=2)):
                if not deep and (i + j) % 3:
                    continue
                resources = ((kinds[a][0], *pa, kinds[a][1]), (kinds[b][0], *pb, kinds[b][1]))
                structures = [
                    (("S", 1, (0, 1), 0),),
                    (("S", 2, (0,), 0), ("G", 3, 2), ("S", 1, (1, 0, 1), 0)),
                    (("G", 5, 1), ("S", 1, (1,), 0), ("G", 0, 1), ("S", 3, (0, 1), 0)),
                ]
                for k, kind in enumerate(("ofdm", "otfs", "ocdm")):
                    structure = structures[(i + j + k) % 3]
                    pilot = (None, ("P", None), ("P", (1.0, 1j, -2.0)), ("S", None), None)[(i + 2 * j + k) % 5]
                    if pilot is not None and pilot[0] == "S" and kind == "ocdm":
                        pilot = ("P", (2j,))
                    for ovs in (1, 2, 3) if not deep else (1, 2, 3, 4):
                        if deep or (ovs + i + j) % 2:
                            dc = (i + j + ovs) % 4 < 2
                            static.append((kind, n, dc, resources, structure, pilot, (4, 16, 2)[j % 3], ovs, (1e3, 1e8)[i % 2], None if i % 3 else (1.0, -1j, 0.5)))
        # sample offsets within the prefix of words
        for dc, ovs in itertools.product((False, True), (1, 2, 3)):
            for oa, ob in itertools.product((0, 1, 2), repeat=2):
                for p in range(len(kinds)):
                    resources = ((kinds[p][0], "C", 0.5, kinds[p][1]), (1, "C", 0.75, (("D", n),)))
                    structure = (("S", 1, (0,), oa), ("G", 2, 1), ("S", 2, (1, 0), ob), ("S", 1, (1,), 0))
                    static.append(("ofdm", n, dc, resources, structure, None, 4, ovs, 1e3, None))
    depth = 3 if deep else 2
    hist = [(k, h) for k in ("ofdm", "otfs", "ocdm") for h in itertools.product(OPS, repeat=depth)]
    est = []
    for pattern in itertools.product("RD", repeat=6):
        if "R" in pattern:
            for shape in ((1, 6), (2, 3), (3, 2), (6, 1)):
                words = tuple("".join(pattern[r * shape[1] : (r + 1) * shape[1]]) for r in range(shape[0]))
                for seq in ((1.0,),) if not deep else ((1.0,), (1.0, -2j)):
                    est.append((shape[1], words, seq))
    for words in (("RRRRRRRR", "DDDDDDDD", "DDDDDDDD"), ("RDDRDDRD", "DDDDDDDD", "DRDDRDDR"), ("RDDDDDDR", "DDDDDDDD", "RDDDDDDR"), ("DDDDDDDD", "RDRDRDRD", "DDDDDDDD"), ("RNDDDDDD", "RDDDNDDD"), ("RRRRRRRR", "DNNDDDDD", "RRRRRRRR")):
        est.append((8, words, (1.0, -2j, 0.5)))
    shards = [[("static", c)] for c in chunks(static, 32)] + [[("history", c)] for c in chunks(hist, 12)] + [[("estimation", c)] for c in chunks(est, 8)]
    check.explore(work, shards, case_timeout=60)
    check.bounds.update(configurations=len(static), histories=len(hist), history_depth=depth, reference_patterns=len(est))
