"""P07: Dense and sparse signal models agree with a plain sample matrix."""
import itertools
import pickle

import numpy as np

from hermespy.core import DenseSignal, Signal, SignalBlock, SparseSignal
from ..core import expect

RATE, CARRIER, NOISE, DELAY = 4.0, 8.0, 0.25, 4.0


def vals(ns, n, k=0):
    """Non-zero Gaussian integers, the columns of some of which cancel over the streams."""
    m = np.empty((ns, n), dtype=np.complex128)
    for s in range(ns):
        for t in range(n):
            m[s, t] = (1 + (t + k) % 3) * (1 if s % 2 == 0 else -1) + (1j * (t + 1) * (1 if s % 2 == 0 else -1) if (t + k) % 2 else 0)
    return m


def masked(ns, mask, k=0):
    m = vals(ns, len(mask), k)
    m[:, ~np.array(mask, bool)] = 0
    return m


def build(kind, m, mask=None):
    args = dict(sampling_rate=RATE, carrier_frequency=CARRIER, noise_power=NOISE, delay=DELAY)
    m = np.array(m)
    if kind == "dense":
        return DenseSignal.FromNDArray(m, **args)
    if kind == "create":
        return Signal.Create(m, **args)
    if kind == "sparse":
        return SparseSignal(m, **args)
    if kind in ("blocks", "split"):
        blocks = []
        cols = list(np.any(m != 0, axis=0))
        t = 0
        while t < len(cols):
            if not cols[t]:
                t += 1
                continue
            e = t
            while e < len(cols) and cols[e] and (kind == "blocks" or e < t + 2):
                e += 1
            blocks.append(SignalBlock(m.shape[0], e - t, t, m[:, t:e].tobytes()))
            t = e
        if not blocks:
            blocks = [SignalBlock(m.shape[0], 0, 0)]
        return (SparseSignal if len(blocks) > 1 and kind == "blocks" else Signal.Create)(blocks, **args)
    raise ValueError(kind)


def dense(sig):
    return np.array(sig.to_dense().view(np.ndarray))


def trim(m):
    nz = np.any(m != 0, axis=0).nonzero()[0]
    return m[:, : nz[-1] + 1] if len(nz) else m[:, :0]


def same(sig, ref, what, exact_len=False, meta=True, scale=None):
    got = dense(sig)
    expect(got.ndim == 2, "%s: %s dimensions", what, got.ndim)
    g, r = trim(got), trim(ref)
    if r.shape[1] > 0 or g.shape[1] > 0:
        expect(g.shape == r.shape, "%s: shape %s instead of %s", what, g.shape, r.shape)
        expect(np.allclose(g, r, atol=1e-9), "%s:\n%s\ninstead of\n%s", what, g, r)
    if exact_len:
        expect(got.shape == ref.shape, "%s: shape %s instead of %s", what, got.shape, ref.shape)
    expect(sig.num_streams == got.shape[0] and sig.num_samples == got.shape[1], "%s: reported shape", what)
    expect(np.array_equal(np.asarray(sig.view(np.ndarray)), got), "%s: view differs from dense form", what)
    offs, cover = -1, np.zeros(got.shape[1], int)
    for b, o in zip(sig.blocks, sig.block_offsets):
        expect(o == b.offset and o >= offs, "%s: unordered blocks", what)
        expect(np.array_equal(np.asarray(b.view(np.ndarray)), got[:, b.offset : b.end]), "%s: block at %s differs from dense form", what, o)
        cover[b.offset : b.end] += 1
        offs = b.end
    expect(np.all(cover <= 1), "%s: overlapping blocks", what)
    expect(np.all(got[:, cover == 0] == 0), "%s: samples outside of blocks", what)
    if meta:
        expect((sig.sampling_rate, sig.carrier_frequency, sig.noise_power, sig.delay) == (RATE, CARRIER, NOISE, DELAY), "%s: rate/carrier/noise/delay %s", what, (sig.sampling_rate, sig.carrier_frequency, sig.noise_power, sig.delay))


def basic(acc, kind, ns, mask, k):
    m = masked(ns, mask, k)
    sig = build(kind, m)
    is_dense = isinstance(sig, DenseSignal) and kind in ("dense", "create")
    same(sig, m, "construction", exact_len=is_dense)
    n = sig.num_samples
    e = np.sum(np.abs(m) ** 2, axis=1)
    if n > 0:
        expect(np.allclose(sig.energy, e), "energy %s instead of %s", sig.energy, e)
        expect(np.allclose(sig.power, e / n), "power %s instead of %s", sig.power, e / n)
        expect(np.allclose(sig.frequencies, np.fft.fftfreq(n, 1 / RATE)), "frequencies")
        s2 = sig * (2 - 1j)
        same(s2, m * (2 - 1j), "scalar multiplication")
        same(sig, m, "operand of multiplication")
    expect(np.allclose(sig.timestamps, np.arange(n) / RATE) and abs(sig.duration - n / RATE) < 1e-12, "time axis")
    c = sig.copy()
    same(c, m, "copy", exact_len=is_dense)
    if n > 1:
        c[:, 0:2] = 7.0
        c.delay = 3.0
        same(sig, m, "original after modification of its copy", exact_len=is_dense)
    p = pickle.loads(pickle.dumps(sig)) if is_dense else None
    if p is not None:
        same(p, m, "pickle", exact_len=True)
    r = sig.resample(RATE)
    same(r, m, "resampling to the same rate")
    for i, row in enumerate(sig):
        got = dense(row) if isinstance(row, Signal) else np.atleast_2d(row)
        expect(np.array_equal(trim(got), trim(m[i : i + 1, :])) or not m[i].any() and not got.any(), "iteration over stream %s", i)
    if n > 0 and m.any():
        x = build(kind, m / np.abs(m).max())
        for dt in (np.int16, np.int8, np.int32):
            it = x.to_interleaved(dt)
            expect(it.dtype == dt and it.shape == (ns, 2 * n), "interleaved shape %s", it.shape)
            y = Signal.FromInterleaved(it, sampling_rate=RATE)
            expect(np.allclose(dense(y)[:, :n], dense(x), atol=1.5 / np.iinfo(dt).max), "interleaving round trip of %s", dt)
    acc.step(8)
    acc.state("basic", kind, m)


def slices(acc, kind, ns, mask):
    m = masked(ns, mask)
    sig = build(kind, m)
    n = sig.num_samples
    full = trim(m) if n < m.shape[1] else m
    pts = [None] + list(range(0, n + 1)) + [-1, -2]
    streams = [slice(None), slice(0, 1), slice(ns - 1, ns), slice(None, None, 2), [ns - 1], [ns - 1, 0]]
    for a, b, st in itertools.product(pts, pts, (None, 2, 3)):
        for ss in streams if st is None else streams[:2]:
            key = (ss, slice(a, b, st))
            got = sig[key]
            ref = full[ss, :][:, slice(a, b, st)]
            same(got, ref, "slice %s" % (key,))
            expect(got.num_streams == ref.shape[0], "slice %s: %s streams", key, got.num_streams)
            acc.step()
        acc.state("slice", kind, mask, a, b, st)
    same(sig, m, "sliced signal")


def assigns(acc, kind, ns, mask):
    m = masked(ns, mask)
    n = build(kind, m).num_samples
    full = trim(m) if n < m.shape[1] else m
    for a, b in itertools.combinations(range(n + 1), 2):
        for ss, cnt in ((slice(None), ns), (slice(0, 1), 1), (slice(ns - 1, ns), 1), (slice(None, None, 2), (ns + 1) // 2)):
            for what in ("scalar", "zero", "array", "zeros", "gappy"):
                if what == "scalar":
                    v = 5 - 2j
                elif what == "zero":
                    v = 0
                else:
                    v = 10 + vals(cnt, b - a, 1)
                    if what == "zeros":
                        v = np.zeros_like(v)
                    if what == "gappy":
                        v[:, ::2] = 0
                sig = build(kind, m)
                sig[ss, a:b] = v
                ref = full.copy()
                ref[ss, a:b] = v
                same(sig, ref, "assignment %s[%s, %s:%s]" % (what, ss, a, b))
                expect(sig.num_samples == n, "assignment changed the number of samples to %s", sig.num_samples)
                acc.step()
                acc.state("assign", kind, ref)


def appends(acc, k1, k2, ns, m1, m2):
    a = masked(ns, m1)
    b = masked(ns, m2, 1)
    s, t = build(k1, a), build(k2, b)
    fa = dense(s)
    fb = dense(t)
    r = s.append_samples(t)
    same(r, np.append(fa, fb, axis=1), "append_samples")
    same(s.append_samples(np.array(fb)), np.append(fa, fb, axis=1), "append_samples of an array")
    for real in (np.real(fb), np.sign(np.real(fb)).astype(int), np.asfortranarray(fb), fb.astype(np.complex64)):
        same(s.append_samples(real), np.append(fa, real, axis=1), "append_samples of an array of type %s" % real.dtype)
    if t.num_samples <= s.num_samples and s.num_samples > 0:
        fb2 = np.zeros_like(fa)
        fb2[:, : fb.shape[1]] = fb
        u = t if t.num_samples == s.num_samples or isinstance(t, SparseSignal) else None
        if u is not None and u.num_streams == ns:
            same(s.append_streams(u), np.append(fa, fb2, axis=0), "append_streams")
        for arr in (fb2, fb2.real, fb2.real.astype(int)):
            same(s.append_streams(arr), np.append(fa, arr, axis=0), "append_streams of an array of type %s" % arr.dtype)
    same(s, a, "signal appended to")
    same(t, b, "appended signal")
    acc.step(4)
    acc.state("append", k1, k2, a, b)


def superpose(acc, k1, k2, ns, m1, m2, shift, idx):
    a = masked(ns, m1)
    nb = ns if idx is None else len(idx)
    b = masked(nb, m2, 1)
    s, t = build(k1, a), build(k2, b)
    fa, fb = dense(s), dense(t)
    t.delay = DELAY + shift / RATE
    if s.num_streams != ns or t.num_streams != nb:
        return
    n = max(fa.shape[1], fb.shape[1] + shift, 0)
    ref = np.zeros((ns, n), complex)
    ref[:, : fa.shape[1]] = fa
    rows = list(range(ns)) if idx is None else idx
    for j in range(fb.shape[1]):
        if 0 <= j + shift < n:
            for q, row in enumerate(rows):
                ref[row, j + shift] += fb[q, j]
    if idx is None and fa.size == 0:
        return
    r = s.superimpose(t, stream_indices=idx)
    same(r, ref, "superposition with a shift of %s samples onto streams %s" % (shift, idx))
    expect(np.array_equal(dense(t), fb) and t.delay == DELAY + shift / RATE and t.num_samples == fb.shape[1], "superposition modified the added signal")
    r2 = build(k1, a).superimpose(t, stream_indices=idx)
    same(r2, ref, "second superposition of the same signal")
    expect(np.array_equal(dense(t), fb), "superposition modified the added signal")
    acc.step(2)
    acc.state("superpose", k1, k2, a, b, shift, idx)


def empty_superpose(acc, kind, ns, mask, idx):
    nb = ns if idx is None else len(idx)
    b = masked(nb, mask)
    t = build(kind, b)
    fb = dense(t)
    ref = np.zeros((ns, fb.shape[1]), complex)
    ref[(list(range(ns)) if idx is None else idx), :] = fb
    e = DenseSignal(ns, 0, RATE, CARRIER, NOISE, DELAY)
    r = e.superimpose(t, stream_indices=idx)
    same(r, ref, "superposition onto an empty signal")
    if r.num_samples > 0:
        r.delay += 1
        r = r.superimpose(build("dense", vals(ns, r.num_samples, 2)))
    expect(t.delay == DELAY and np.array_equal(dense(t), fb), "superposition onto an empty signal exposes the added signal")
    acc.step(2)
    acc.state("empty", kind, mask, idx)


OPS = ["set0", "set1", "setz", "app", "slice1", "slice2", "sup+", "sup-", "sup0", "mul", "copy", "appst"]


def apply(op, sig, ref):
    ns, n = sig.num_streams, sig.num_samples
    d = lambda m: build("blocks" if m.shape[1] else "dense", m)
    if op == "set0" and n >= 2:
        sig[:, 1:3] = 4.0
        ref[:, 1:3] = 4.0
    elif op == "set1" and n >= 3:
        k = min(n, 5)
        sig[0:1, 2:k] = 3j
        ref[0:1, 2:k] = 3j
    elif op == "setz" and n >= 2:
        sig[:, 0:2] = np.zeros((ns, 2), complex)
        ref[:, 0:2] = 0
    elif op == "app":
        x = masked(ns, (0, 1, 1, 0, 1))
        sig = sig.append_samples(d(x))
        ref = np.append(ref, x, axis=1)
    elif op == "slice1" and n >= 3:
        sig = sig[:, 1:]
        ref = ref[:, 1:]
    elif op == "slice2" and n >= 3:
        sig = sig[:, : n - 1 : 2]
        ref = ref[:, : n - 1 : 2]
    elif op.startswith("sup") and n > 0:
        shift = {"+": 2, "-": -2, "0": 0}[op[3]]
        x = masked(ns, (1, 0, 0, 1, 1), 2)
        t = d(x)
        t.delay = sig.delay + shift / RATE
        sig = sig.superimpose(t)
        L = max(ref.shape[1], 5 + shift)
        r = np.zeros((ns, L), complex)
        r[:, : ref.shape[1]] = ref
        for j in range(5):
            if j + shift >= 0:
                r[:, j + shift] += x[:, j]
        ref = r
    elif op == "mul":
        sig = sig * -2j
        ref = ref * -2j
    elif op == "copy":
        old, sig = sig, sig.copy()
        if old.num_samples > 0:
            old[:, 0:1] = 99.0
    elif op == "appst" and n > 0 and ns < 4:
        x = np.zeros((1, n), complex)
        x[0, ::2] = 1j
        sig = sig.append_streams(x)
        ref = np.append(ref, x, axis=0)
    return sig, ref


def history(acc, kind, mask, ops):
    m = masked(2, mask)
    sig = build(kind, m)
    ref = dense(sig)
    for o in ops:
        sig, ref = apply(o, sig, ref)
        same(sig, ref, "history %s at %s" % (ops, o))
        ref = ref[:, : sig.num_samples]
        if ref.shape[1] < sig.num_samples:
            ref = np.append(ref, np.zeros((ref.shape[0], sig.num_samples - ref.shape[1])), axis=1)
        acc.step()
        acc.state("hist", kind, ref, sig.num_blocks)


def shard(acc, s):
    kind = s[0]
    if kind == "basic":
        for k, ns, mask, off in s[1]:
            acc.run("basic:%s:%d:%s:%d" % (k, ns, "".join(map(str, mask)), off), lambda: basic(acc, k, ns, mask, off), (k, mask))
    elif kind == "slice":
        for k, ns, mask in s[1]:
            acc.run("slice:%s:%d:%s" % (k, ns, "".join(map(str, mask))), lambda: slices(acc, k, ns, mask), (k, mask))
    elif kind == "assign":
        for k, ns, mask in s[1]:
            acc.run("assign:%s:%d:%s" % (k, ns, "".join(map(str, mask))), lambda: assigns(acc, k, ns, mask), (k, mask))
    elif kind == "append":
        for c in s[1]:
            acc.run("append:%s" % (c,), lambda: appends(acc, *c), c)
    elif kind == "superpose":
        for c in s[1]:
            acc.run("superpose:%s" % (c,), lambda: superpose(acc, *c), c)
    elif kind == "empty":
        for c in s[1]:
            acc.run("empty:%s" % (c,), lambda: empty_superpose(acc, *c), c)
    elif kind == "hist":
        for c in s[1]:
            acc.run("history:%s" % (c,), lambda: history(acc, *c), c)


def main(check):
    th = check.thorough
    kinds = ["dense", "create", "sparse", "blocks", "split"]
    T = 7 if th else 6
    masks = list(itertools.product((0, 1), repeat=T))
    two = ["dense", "sparse", "split"]
    shards = []

    def add(tag, cases, n):
        shards.extend((tag, cases[i : i + n]) for i in range(0, len(cases), n))

    add("basic", [(k, ns, m, o) for k in kinds for ns in (1, 2, 3) for m in masks for o in (0, 1)], 160)
    small = [m for m in itertools.product((0, 1), repeat=5)]
    add("slice", [(k, ns, m) for k in ("dense", "blocks", "split", "sparse") for ns in ((2, 3) if th else (2,)) for m in small if any(m)], 6)
    add("assign", [(k, ns, m) for k in ("dense", "blocks", "split", "sparse") for ns in ((1, 2, 3) if th else (2,)) for m in small if any(m)], 6)
    four = list(itertools.product((0, 1), repeat=4))
    add("append", [(k1, k2, 2, a, b) for k1 in two for k2 in two for a in four for b in four if any(a) and any(b)], 250)
    subset = four if th else [m for m in four if m[0] or m[3]]
    add("superpose", [(k1, k2, 2, a, b, sh, ix) for k1 in two for k2 in two for a in subset for b in subset if any(a) and any(b) for sh in (-5, -2, -1, 0, 1, 3, 6) for ix in (None, [1], [1, 0])], 1200)
    add("superpose", [(k1, k2, 3, a, b, sh, ix) for k1 in two for k2 in two for a in subset[::3] for b in subset[::3] if any(a) and any(b) for sh in (-1, 0, 2) for ix in (None, [1], [2, 0], [0, 1], [1, 2, 0])], 1200)
    add("empty", [(k, ns, m, ix) for k in two for m in four if any(m) for ns, ix in ((1, None), (2, None), (2, [1]), (3, [2, 0]), (3, [1]), (2, [1, 0]))], 400)
    depth = 4 if th else 3
    hm = [(1, 1, 0, 1, 0, 1), (0, 1, 1, 0, 0, 1), (1, 1, 1, 1, 1, 1)]
    add("hist", [(k, m, ops) for k in two for m in hm for ops in itertools.product(OPS, repeat=depth)], 1500)
    check.bounds = {"samples": T, "streams": 3, "occupancy patterns": "all", "history depth": depth, "delay shift": [-5, 6]}
    check.explore(shard, shards)
