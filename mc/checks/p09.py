"""P09: Channel coding chains recover the data."""
import itertools
from math import ceil

import numpy as np

from hermespy.fec import (
    BlockInterleaver,
    CyclicRedundancyCheck,
    EncoderManager,
    RepetitionEncoder,
    Scrambler3GPP,
    Scrambler80211a,
)
from ..core import expect

CATALOGUE = {
    "R1x3": lambda: RepetitionEncoder(1, 3),
    "R2x3": lambda: RepetitionEncoder(2, 3),
    "R3x1": lambda: RepetitionEncoder(3, 1),
    "R3x5": lambda: RepetitionEncoder(3, 5),
    "I1": lambda: BlockInterleaver(1, 1),
    "I4/2": lambda: BlockInterleaver(4, 2),
    "I6/2": lambda: BlockInterleaver(6, 2),
    "I6/3": lambda: BlockInterleaver(6, 3),
    "C2+1": lambda: CyclicRedundancyCheck(2, 1),
    "C4+3": lambda: CyclicRedundancyCheck(4, 3),
    "C3+0": lambda: CyclicRedundancyCheck(3, 0),
    "SG": lambda: Scrambler3GPP(np.array([1, 0, 1, 1, 0, 1, 0, 0, 1])),
    "SG0": lambda: Scrambler3GPP(),
    "SW": lambda: Scrambler80211a(np.array([1, 0, 1, 1, 1, 0, 1])),
    "SW0": lambda: Scrambler80211a(),
}
# (data bits, code bits) per block, written down independently of the implementation
SIZES = {
    "R1x3": (1, 3), "R2x3": (2, 6), "R3x1": (3, 3), "R3x5": (3, 15), "I1": (1, 1), "I4/2": (4, 4), "I6/2": (6, 6),
    "I6/3": (6, 6), "C2+1": (2, 3), "C4+3": (4, 7), "C3+0": (3, 3), "SG": (1, 1), "SG0": (1, 1), "SW": (1, 1), "SW0": (1, 1),
}


def chain(names, mask=None, **kw):
    m = EncoderManager(seed=7, **kw)
    encs = []
    for i, n in enumerate(names):
        e = CATALOGUE[n]()
        if mask is not None and not mask[i]:
            e.enabled = False
        m.add_encoder(e)
        encs.append(e)
    return m, encs


def payloads(n, limit):
    """All payloads of n bits, or a covering family for long ones."""
    if 2**n <= limit:
        for v in itertools.product((0, 1), repeat=n):
            yield np.array(v, dtype=bool)
        return
    yield np.zeros(n, bool)
    yield np.ones(n, bool)
    yield np.arange(n) % 2 == 0
    yield np.arange(n) % 3 == 0
    for i in range(min(n, limit)):
        v = np.zeros(n, bool)
        v[i] = True
        yield v


def order(names, mask):
    """Execution order: ascending data block size, stable."""
    idx = [i for i in range(len(names)) if mask is None or mask[i]]
    full = sorted(range(len(names)), key=lambda i: SIZES[names[i]][0])
    return [names[i] for i in full if i in idx]


def code_length(chain_names, n):
    for c in chain_names:
        b, l = SIZES[c]
        n = ceil(n / b) * l
    return n


def capacity(chain_names, n):
    for c in reversed(chain_names):
        b, l = SIZES[c]
        n = n // l * b
    return n


def reference_code(step, data):
    """Plain reference for the deterministic, stateless coding steps."""
    b, l = SIZES[step]
    out = []
    for k in range(0, len(data), b):
        blk = list(data[k : k + b])
        if step.startswith("R"):
            out += blk * (l // b)
        elif step.startswith("I"):
            s = {"I1": 1, "I4/2": 2, "I6/2": 2, "I6/3": 3}[step]
            per = b // s
            out += [blk[j * per + i] for i in range(per) for j in range(s)]
        elif step == "SW-reset":
            pass
    return np.array(out, dtype=bool)


def lfsr(seed, n):
    """Additive scrambler of IEEE 802.11: x^7 + x^4 + 1."""
    s = list(seed)
    out = []
    for _ in range(n):
        b = s[3] ^ s[6]
        s = [b] + s[:6]
        out.append(b)
    return np.array(out, dtype=bool)


def check_chain(acc, names, mask, limit):
    eff = order(names, mask)
    m, _ = chain(names, mask)
    blk, cblk = m.bit_block_size, m.code_block_size
    expect(blk >= 1, "block carries no data")
    expect(capacity(eff, cblk) == blk, "reported data block size %s, but a code block of %s bits carries %s data bits", blk, cblk, capacity(eff, cblk))
    expect(code_length(eff, blk) <= cblk, "data block of %s bits does not fit into code block of %s bits", blk, cblk)
    rate = 1.0
    for c in eff:
        rate *= SIZES[c][0] / SIZES[c][1]
    expect(abs(m.rate - rate) < 1e-12, "rate %s instead of %s", m.rate, rate)
    for n in (0, 1, cblk - 1, cblk, cblk + 1, 2 * cblk, 3 * cblk + 1):
        expect(m.required_num_data_bits(n) == capacity(eff, n), "required_num_data_bits(%s) = %s instead of %s", n, m.required_num_data_bits(n), capacity(eff, n))

    # a frame history through a single stateful pipeline, every frame decoded later
    lens = [blk, 2 * blk, 1, blk + 1, 3 * blk, max(1, blk - 1)]
    sent = []
    pl = [p for n in lens for p in itertools.islice(payloads(n, limit), limit)]
    for p in pl:
        before = p.copy()
        c = m.encode(p)
        expect(np.array_equal(p, before), "encoding modified its input")
        expect(len(c) == code_length(eff, len(p)), "code of %s bits has length %s instead of %s", len(p), len(c), code_length(eff, len(p)))
        sent.append((p, c))
        acc.step()
    for p, c in sent:
        c0 = np.array(c).copy()
        d = m.decode(c, len(p))
        expect(np.array_equal(c, c0), "decoding modified its input")
        expect(len(d) == len(p) and np.array_equal(d, p), "frame %s decoded to %s", p.astype(int), np.asarray(d).astype(int))
        acc.step()
    # requested code length: padded to exactly that length, the payload unharmed
    for ncode in (cblk, 2 * cblk, 2 * cblk + 1, 5 * cblk + cblk - 1):
        n = m.required_num_data_bits(ncode)
        for p in payloads(n, 6):
            c = m.encode(p, ncode)
            expect(len(c) == ncode, "code padded to %s instead of %s", len(c), ncode)
            d = m.decode(c, n)
            expect(len(d) == n and np.array_equal(d, p), "padded frame of %s bits not recovered", n)
            acc.step(2)
        try:
            chain(names, mask)[0].encode(np.ones(n + blk, bool), code_length(eff, n + blk) - 1)
            expect(False, "information was truncated silently")
        except RuntimeError:
            pass
    acc.state("chain", names, mask, blk, cblk)
    return {"bits": blk, "code": cblk}


def stateful(acc, names, ops):
    """Encode (e) and decode (d) operations interleaved on a single pipeline: FIFO order."""
    m, _ = chain(names)
    b = m.bit_block_size
    fifo, k = [], 0
    for o in ops:
        if o == "e":
            k += 1
            p = (np.arange(b * k) * (k + 1) // 2) % 2 == 0
            fifo.append((p, m.encode(p)))
        elif fifo:
            p, c = fifo.pop(0)
            d = m.decode(c)
            expect(np.array_equal(np.asarray(d)[: len(p)], p), "history %s: frame %s not recovered", ops, p.astype(int))
        acc.step()
        acc.state("hist", names, ops)
    return ops


def repetition(acc, b, r):
    """Majority voting: every pattern of at most (r-1)/2 flipped copies per bit is corrected."""
    m = EncoderManager()
    m.add_encoder(RepetitionEncoder(b, r))
    t = (r - 1) // 2
    for p in payloads(b, 64):
        c = np.asarray(m.encode(p)).astype(bool)
        expect(len(c) == b * r, "code length")
        for e in itertools.product((0, 1), repeat=b * r):
            err = np.array(e, bool)
            if err.reshape(r, b).sum(axis=0).max() > t:
                continue
            d = m.decode(c ^ err)
            expect(np.array_equal(d, p), "error pattern %s not corrected", e)
            acc.step()
    acc.state("rep", b, r)


def single_flip(acc, names):
    eff = order(names, None)
    m, _ = chain(names)
    b = m.bit_block_size
    for p in itertools.islice(payloads(2 * b, 8), 8):
        n = len(m.encode(p))
        m, _ = chain(names)
        codes = [np.asarray(m.encode(p)).astype(bool) for _ in range(n)]
        for i in range(n):
            c = codes[i].copy()
            c[i] ^= True
            d = m.decode(c, len(p))
            expect(np.array_equal(d, p), "flipped code bit %s not corrected", i)
            acc.step()
    acc.state("flip", names)


def steps(acc):
    for n in CATALOGUE:
        e = CATALOGUE[n]()
        b, l = SIZES[n]
        expect((e.bit_block_size, e.code_block_size) == (b, l), "%s: block sizes %s", n, (e.bit_block_size, e.code_block_size))
        expect(abs(e.rate - b / l) < 1e-12, "%s: rate %s", n, e.rate)
        for p in payloads(b, 64):
            c = np.asarray(e.encode(p.astype(int)))
            expect(len(c) == l, "%s: code of %s bits", n, len(c))
            if n[0] in "RI":
                expect(np.array_equal(c.astype(bool), reference_code(n, p)), "%s: %s encoded to %s", n, p, c)
            if n[0] == "C":
                expect(np.array_equal(c[:b], p), "%s: data bits altered", n)
            d = np.asarray(e.decode(c))
            expect(np.array_equal(d.astype(bool), p), "%s: %s decoded to %s", n, p, d)
            acc.step()
    for seed in itertools.product((0, 1), repeat=7):
        s = Scrambler80211a(np.array(seed))
        x = np.array([(i * i // 3) % 2 for i in range(140)])
        c = np.concatenate([np.asarray(s.encode(x[i : i + 20])) for i in range(0, 140, 20)])
        expect(np.array_equal(c.astype(bool), x.astype(bool) ^ lfsr(seed, 140)), "scrambling sequence of seed %s", seed)
        s.seed = np.array(seed)
        d = np.asarray(s.decode(c))
        expect(np.array_equal(d, x), "descrambling with seed %s", seed)
        acc.step()
        acc.state("lfsr", seed)
    for seed in itertools.product((0, 1), repeat=6):
        s = Scrambler3GPP(np.array(seed))
        x = np.array([(i * i // 3) % 2 for i in range(60)])
        c = np.concatenate([np.asarray(s.encode(x[i : i + 10])) for i in range(0, 60, 10)])
        d = np.concatenate([np.asarray(s.decode(c[i : i + 15])) for i in range(0, 60, 15)])
        expect(np.array_equal(d, x), "3GPP descrambling with seed %s", seed)
        acc.step()


def padding_rules(acc, names):
    eff = order(names, None)
    m, _ = chain(names, allow_padding=False)
    for n in range(1, 3 * m.bit_block_size + 1):
        x = n
        whole = True
        for c in eff:
            b, l = SIZES[c]
            whole &= x % b == 0
            x = ceil(x / b) * l
        p = np.arange(n) % 2 == 0
        m2, _ = chain(names, allow_padding=False)
        try:
            c = m2.encode(p)
            expect(whole, "padding was applied to %s bits although disallowed", n)
            expect(np.array_equal(m2.decode(c, n), p), "%s bits not recovered", n)
        except RuntimeError:
            expect(not whole, "%s bits refused although no padding is required", n)
        m3, _ = chain(names, allow_truncating=False)
        c = m3.encode(p)
        full = capacity(eff, len(c))
        try:
            d = m3.decode(c, n)
            expect(full == n, "truncated to %s bits although disallowed", n)
            expect(np.array_equal(d, p), "not recovered")
        except RuntimeError:
            expect(full != n, "refused although no truncating is required")
        try:
            m3.decode(c, full + 1)
            expect(False, "more data bits returned than recovered")
        except RuntimeError:
            pass
        acc.step(2)
    acc.state("pad", names)


def shard(acc, s):
    kind, args, lim = s
    if kind == "chains":
        for names in args:
            acc.run("chain:" + "+".join(names), lambda: check_chain(acc, names, None, lim), names)
    elif kind == "masks":
        for names in args:
            for mask in itertools.product((True, False), repeat=len(names)):
                acc.run("mask:%s:%s" % ("+".join(names), mask), lambda: check_chain(acc, names, mask, 3), names)
    elif kind == "hist":
        for names in args:
            for ops in itertools.product("ed", repeat=lim):
                acc.run("history:%s:%s" % ("+".join(names), "".join(ops)), lambda: stateful(acc, names, "".join(ops)), names)
    elif kind == "rep":
        acc.run("repetition:%s" % (args,), lambda: repetition(acc, *args), args)
    elif kind == "flip":
        for names in args:
            acc.run("flip:" + "+".join(names), lambda: single_flip(acc, names), names)
    elif kind == "steps":
        acc.run("steps", lambda: steps(acc))
    elif kind == "pad":
        for names in args:
            acc.run("padding:" + "+".join(names), lambda: padding_rules(acc, names), names)


def main(check):
    cat = list(CATALOGUE)
    th = check.thorough
    base = ["R1x3", "R2x3", "I4/2", "I6/3", "C2+1", "C4+3", "SG", "SW"]
    chains = [()] + [(a,) for a in cat] + list(itertools.product(cat, repeat=2))
    three = list(itertools.product(base if not th else cat, repeat=3))
    shards = []
    for c in range(0, len(chains), 32):
        shards.append(("chains", chains[c : c + 32], 6))
    for c in range(0, len(three), 64):
        shards.append(("chains", three[c : c + 64], 2))
    masks = [t for t in itertools.combinations(base, 2)] + [t for t in itertools.permutations(["R2x3", "I4/2", "C2+1", "SW"], 3)]
    shards += [("masks", masks[c : c + 8], 0) for c in range(0, len(masks), 8)]
    hist = [("SG",), ("SW",), ("SG", "R2x3"), ("SW", "I4/2"), ("SG", "SW"), ("SW", "R1x3", "I4/2")]
    shards += [("hist", [h], 8 if th else 6) for h in hist]
    shards += [("rep", x, 0) for x in ([(1, 3), (1, 5), (2, 3), (2, 5), (3, 3), (1, 7), (4, 1)] + ([(3, 5), (1, 9)] if th else []))]
    rep = ["R1x3", "R2x3", "R3x5"]
    other = ["I4/2", "I6/3", "I6/2", "SG", "SW", "R3x1"]
    flips = [(r,) for r in rep] + [(r, o) for r in rep for o in other] + [(o, r, q) for r in rep[:2] for o in other for q in other]
    shards += [("flip", flips[c : c + 12], 0) for c in range(0, len(flips), 12)]
    shards += [("steps", None, 0)]
    pads = [(a,) for a in cat] + list(itertools.product(base, repeat=2))
    shards += [("pad", pads[c : c + 16], 0) for c in range(0, len(pads), 16)]
    check.bounds = {"chain length": 3, "steps": cat, "frame history": "6 frame lengths per chain", "interleavings of encode/decode": 8 if th else 6}
    check.explore(shard, shards)
