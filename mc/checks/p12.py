"""P12: symbol precodings restore the symbols they encode over every channel."""
import itertools
from fractions import Fraction

import numpy as np
import sparse

from hermespy.modem.precoding import DFT, Alamouti, Ganesan, MaximumRatioCombining
from hermespy.modem.precoding import SingleCarrier
from hermespy.modem.precoding.dft import DFTNorm
from hermespy.modem.precoding.symbol_precoding import ReceiveSymbolCoding, TransmitSymbolCoding
from hermespy.modem.symbols import StatedSymbols, Symbols
from ..core import chunks, expect

LATTICE = [0.0, 1.0, -1.0, 1j, 0.5 - 0.5j, 2.0 + 1j]
XS = [1.0, -1j, 0.5 + 0.5j, 0.0, -2.0 + 1j]
NORMS = {"B": DFTNorm.BACKWARD, "O": DFTNorm.ORTHO, "F": DFTNorm.FORWARD}
MAKE = {"B": lambda: DFT(DFTNorm.BACKWARD), "O": lambda: DFT(DFTNorm.ORTHO), "F": lambda: DFT(DFTNorm.FORWARD), "A": Alamouti, "G": Ganesan, "M": MaximumRatioCombining, "S": SingleCarrier}


def close(a, b, what, tol=1e-8):
    a, b = np.asarray(a), np.asarray(b)
    expect(a.shape == b.shape, "%s: shape %s instead of %s", what, a.shape, b.shape)
    if a.size:
        d = np.abs(a - b)
        expect(np.all(np.isfinite(a)) and float(d.max()) <= tol * (1 + float(np.abs(b).max())), "%s: %s instead of %s", what, a.ravel()[np.argmax(d)], b.ravel()[np.argmax(d)])


def stated(raw, states, fmt="dense"):
    return StatedSymbols(raw, states if fmt == "dense" else (sparse.COO if fmt == "coo" else sparse.GCXS).from_numpy(states))


# ------------------------------------------------------------------ reference codes


def ref_encode(kind, x):
    """Reference of an encoded stream matrix, x has dimension streams x blocks x symbols."""
    if kind in "BOF":
        n = x.shape[1]
        k = np.arange(n)
        F = np.exp(-2j * np.pi * np.outer(k, k) / n) * {"B": 1, "O": n**-0.5, "F": 1 / n}[kind]
        return np.einsum("kb,sbn->skn", F, x)
    out = []
    if kind == "A":
        for a, b in zip(x[0, 0::2], x[0, 1::2]):
            out.append(np.stack([a, -b.conj()]))
            out.append(np.stack([b, a.conj()]))
    else:
        z = np.zeros(x.shape[2])
        for a, b, c in zip(x[0, 0::3], x[0, 1::3], x[0, 2::3]):
            out.append(np.stack([a, z, -b.conj(), c.conj()]))
            out.append(np.stack([z, a, -c, -b]))
            out.append(np.stack([b, c.conj(), a.conj(), z]))
            out.append(np.stack([-c, b.conj(), z, a.conj()]))
    return np.stack(out, axis=1)


SIZE = {"A": (2, 2, 2), "G": (3, 4, 4)}  # blocks in, blocks out, streams out


def run_codes(acc, shard):
    for kind, x, groups, symbols in shard:
        bi, bo, tx = SIZE[kind]

        def body():
            raw = np.array([x[(g * bi + b + s) % len(x)] for g in range(groups) for b in range(bi) for s in range(symbols)], complex).reshape(1, groups * bi, symbols)
            code = MAKE[kind]()
            src = StatedSymbols(raw.copy(), np.ones((1, 1) + raw.shape[1:], complex))
            enc = code.encode_symbols(src, tx)
            close(src.raw, raw, "symbols after encoding them")
            ref = ref_encode(kind, raw)
            close(enc.raw, ref, "encoded symbols")
            # orthogonality of the code over each group
            for g in range(groups):
                for s in range(symbols):
                    m = enc.raw[:, g * bo : (g + 1) * bo, s]
                    p = np.sum(np.abs(raw[0, g * bi : (g + 1) * bi, s]) ** 2)
                    close(m @ m.conj().T, p * np.eye(tx), "correlation of the transmitted streams")
            acc.step()
            # all channels of the lattice for a single antenna, stacked as receive streams
            hs = np.array([h for h in itertools.product(LATTICE[: 6 if tx == 2 else 4], repeat=tx) if any(h)], complex)
            st = np.broadcast_to(hs[:, :, None, None], hs.shape + ref.shape[1:]).copy()
            # let the channel vary over the symbols of a block
            st = np.stack([np.roll(st[..., s], s, axis=0) for s in range(symbols)], axis=-1)
            if kind == "A":  # constant over the pairs of blocks
                st = np.concatenate([np.roll(st[:, :, 2 * g : 2 * g + 2], g, axis=0) for g in range(groups)], axis=2)
            y = np.einsum("rtbs,tbs->rbs", st, ref)
            for fmt in ("dense", "coo", "gcxs"):
                rx = stated(y, st, fmt)
                dec = code.decode_symbols(rx, len(hs))
                close(dec.raw, np.broadcast_to(raw, (len(hs),) + raw.shape[1:]), "decoded symbols")
                close(dec.dense_states(), np.ones((len(hs), 1) + raw.shape[1:]), "channel states after decoding")
                close(rx.raw, y, "received symbols after decoding")
                close(rx.dense_states(), st, "channel states after being used to decode")
                acc.step()

        acc.run("code", body, {"code": kind, "symbols": [str(v) for v in x], "groups": groups, "symbols_per_block": symbols})
        acc.state(kind, x, groups, symbols)


def run_varying(acc, shard):
    """Channels changing from block to block are tolerated by the four antenna code."""
    x = np.array([1.0, -1j, 0.5 + 0.5j]).reshape(1, 3, 1)
    ref = ref_encode("G", x)
    for hs in shard:

        def body():
            st = np.stack([np.array(h, complex) for h in hs], axis=-1)[None, :, :, None]  # 1 x 4 x 4 x 1
            cols = []
            for k in range(6):
                e = np.zeros((1, 3, 1), complex)
                e[0, k % 3, 0] = 1 if k < 3 else 1j
                v = np.einsum("rtbs,tbs->rbs", st, ref_encode("G", e)).ravel()
                cols.append(np.concatenate([v.real, v.imag]))
            if np.linalg.cond(np.array(cols).T) > 1e4:
                return
            y = np.einsum("rtbs,tbs->rbs", st, ref)
            close(Ganesan().decode_symbols(StatedSymbols(y, st), 1).raw, x, "symbols decoded over a varying channel")

        acc.run("varying", body, {"channel": [[str(v) for v in h] for h in hs]})
        acc.step()


def run_combining(acc, shard):
    for rx, tx, picks, fmt in shard:
        # picks: per block and symbol the channel vectors
        def body():
            st = np.array(picks, complex).reshape(rx, tx, 2, -1)
            S = st.shape[3]
            x = np.array([XS[(b + 2 * s) % 3] for b in range(2) for s in range(S)], complex).reshape(1, 2, S)
            noise = np.array([0.25 * 1j**k for k in range(rx * 2 * S)]).reshape(rx, 2, S)
            for n in (0.0, 1.0):
                if tx == 1:
                    y = st[:, 0] * x + n * noise
                else:
                    y = st.sum(axis=1) * x + n * noise
                # selection
                sel = SingleCarrier().decode_symbols(stated(y, st, fmt), 1)
                expect(sel.raw.shape == (1, 2, S) and sel.dense_states().shape == (1, tx, 2, S), "selection results in %s symbols with %s states", sel.raw.shape, sel.dense_states().shape)
                for b in range(2):
                    for s in range(S):
                        gain = np.abs(st[:, :, b, s].sum(axis=1))
                        cand = [r for r in range(rx) if gain[r] >= gain.max() - 1e-12]
                        expect(any(abs(sel.raw[0, b, s] - y[r, b, s]) < 1e-12 and np.allclose(sel.dense_states()[0, :, b, s], st[r, :, b, s]) for r in cand), "selected symbol %s with state %s is not of a strongest antenna %s", sel.raw[0, b, s], sel.dense_states()[0, :, b, s], cand)
                acc.step()
                if tx == 1 and np.all(np.abs(st).sum(axis=0) > 0):
                    rxs = stated(y, st, fmt)
                    mrc = MaximumRatioCombining().decode_symbols(rxs, 1)
                    w = np.sum(st[:, 0].conj() * y, axis=0) / np.sum(np.abs(st[:, 0]) ** 2, axis=0)
                    close(mrc.raw, w[None], "combined symbols")
                    if n == 0.0:
                        close(mrc.raw, x, "symbols combined without noise")
                        close(mrc.raw, mrc.dense_states()[:, 0] * x, "combined symbols relative to the combined channel state")
                    close(rxs.raw, y, "received symbols after combining")
                    acc.step()

        acc.run("combining", body, {"receive": rx, "transmit": tx, "states": [str(v) for v in picks], "format": fmt})
        acc.state("combining", rx, tx, [str(v) for v in picks], fmt)


def run_chains(acc, shard):
    for names, combiner, streams, groups, symbols in shard:

        def body():
            coding, decoding = TransmitSymbolCoding(), ReceiveSymbolCoding()
            for n in names:
                coding[len(coding)] = MAKE[n]()
            for n in reversed(names):
                decoding[len(decoding)] = MAKE[n]()
            if combiner:
                decoding[len(decoding)] = MAKE[combiner]()
            # reference of the stream and block counts
            need, ok = streams, True
            for n in reversed(names):
                if n in SIZE:
                    ok = ok and need == SIZE[n][2]
                    need = 1
            if not ok:
                for call in (lambda: coding.num_transmit_input_streams(streams), lambda: coding.encode_symbols(StatedSymbols(np.ones((1, 12, 1), complex), np.ones((1, 1, 12, 1), complex)), streams)):
                    try:
                        call()
                    except ValueError:
                        continue
                    expect(False, "a chain which doesn't fit %d streams is accepted", streams)
                return
            expect(coding.num_transmit_input_streams(streams) == need, "%s input streams instead of %s", coding.num_transmit_input_streams(streams), need)
            rate, bin_ = Fraction(1), groups
            for n in names:
                if n in SIZE:
                    rate *= Fraction(SIZE[n][0], SIZE[n][1])
                    bin_ *= SIZE[n][0]
            expect(coding.encode_rate == rate, "encoding rate %s instead of %s", coding.encode_rate, rate)
            expect(decoding.decode_rate == 1 / rate or decoding.decode_rate == rate, "decoding rate %s does not correspond to %s", decoding.decode_rate, rate)
            bout = int(bin_ / rate)
            x = np.array([XS[(3 * t + b + 2 * s + b * s) % len(XS)] for t in range(need) for b in range(bin_) for s in range(symbols)], complex).reshape(need, bin_, symbols)
            enc = coding.encode_symbols(StatedSymbols(x.copy(), np.ones((need, 1, bin_, symbols), complex)), streams)
            ref = x
            for n in names:
                ref = ref_encode(n, ref)
            close(enc.raw, ref, "symbols encoded by a chain")
            expect(coding.num_encoded_blocks(bin_) == bout == enc.num_blocks, "%s encoded blocks reported, %s generated", coding.num_encoded_blocks(bin_), enc.num_blocks)
            expect(decoding.num_decoded_blocks(bout) == bin_, "%s decoded blocks reported for %s received blocks instead of %s", decoding.num_decoded_blocks(bout), bout, bin_)
            acc.step()
            stbc = any(n in SIZE for n in names)
            for rx in (1, 2, 3):
                if not stbc and need > 1 and (rx > 1 or combiner):
                    continue
                expect(decoding.num_receive_output_streams(need if not stbc and need > 1 else rx) == (1 if combiner else need if not stbc and need > 1 else rx), "number of decoded streams")
                # channels constant over time
                if stbc or need == 1:
                    h = np.array([LATTICE[1 + (2 * r + 3 * t + s + r * t) % 5] for r in range(rx) for t in range(streams) for s in range(symbols)], complex).reshape(rx, streams, symbols)
                    st = np.broadcast_to(h[:, :, None, :], (rx, streams, bout, symbols)).copy()
                    y = np.einsum("rtbs,tbs->rbs", st, ref)
                    dec = decoding.decode_symbols(StatedSymbols(y, st))
                    states = dec.dense_states()
                    expect(dec.num_streams == (1 if combiner else rx), "%d decoded streams of %d antennas", dec.num_streams, rx)
                    expect(states.shape[1] == 1, "decoded states refer to %d transmitted streams", states.shape[1])
                    close(dec.raw, states[:, 0] * x, "decoded symbols relative to their channel state")
                else:
                    dec = decoding.decode_symbols(StatedSymbols(ref, np.ones((need, 1, bout, symbols), complex)))
                    close(dec.raw, x, "decoded symbols")
                acc.step()

        acc.run("chain", body, {"chain": names, "combiner": combiner, "streams": streams, "groups": groups, "symbols_per_block": symbols})
        acc.state("chain", names, combiner, streams, groups, symbols)


def run_registry(acc, shard):
    """Histories of modifying a chain of precoders."""
    for receive, history in shard:

        def body():
            coding = (ReceiveSymbolCoding if receive else TransmitSymbolCoding)()
            ref = []
            for k, (op, arg) in enumerate(history):
                if op == "set":
                    p = MAKE["BOFA"[k % 4]]()
                    if arg == "end":
                        coding[len(coding)] = p
                        ref.append(p)
                    elif arg < 0:
                        coding[arg] = p
                        ref.insert(0, p)
                    elif arg < len(ref):
                        coding[arg] = p
                        ref[arg] = p
                    else:
                        continue
                    expect(p.precoding is coding, "a registered precoder does not know its configuration")
                elif len(ref) > arg:
                    got = coding.pop_precoder(arg)
                    expect(got is ref.pop(arg), "another precoder was removed")
                expect(len(coding) == len(ref) and all(a is b for a, b in zip(coding, ref)) and all(coding[i] is ref[i] for i in range(len(ref))), "chain differs after %s", history[: k + 1])
                acc.step()
            rate = Fraction(1)
            for p in ref:
                rate *= p.decode_rate if receive else p.encode_rate
            expect((coding.decode_rate if receive else coding.encode_rate) == rate, "rate of the chain")

        acc.run("registry", body, {"receive": receive, "history": history})
        acc.state("registry", receive, history)


def run_containers(acc, shard):
    """Histories of symbol containers in lockstep with an array."""
    for history in shard:

        def body():
            sym, ref = Symbols(), None
            n = 0
            for op, shape in history:
                if op == "copy":
                    old = sym
                    sym = sym.copy()
                    if ref is not None:
                        old[:, :, :] = 0.0
                    continue
                if op == "write":
                    if ref is not None:
                        v = np.full((ref.shape[0], 1, ref.shape[2]), 7j)
                        sym[:, :1, :] = Symbols(v) if shape else v
                        ref = ref.copy()
                        ref[:, :1, :] = v
                    continue
                add = (np.arange(np.prod(shape)) + n + 1.0).astype(complex).reshape(shape)
                n += 100
                keep = add.copy()
                arg = Symbols(add) if n % 200 else add
                full = add.reshape(add.shape + (1,)) if add.ndim == 2 else add.reshape((1, -1, 1)) if add.ndim == 1 else add
                fits = ref is None or (op == "stream" and ref.shape[1:] == full.shape[1:]) or (op == "symbols" and ref.shape[0] == full.shape[0] and ref.shape[2] == full.shape[2])
                try:
                    (sym.append_stream if op == "stream" else sym.append_symbols)(arg)
                except ValueError:
                    expect(not fits, "appending %s %s to %s is refused", op, full.shape, None if ref is None else ref.shape)
                else:
                    expect(fits, "appending %s %s to %s is accepted", op, full.shape, None if ref is None else ref.shape)
                    ref = full if ref is None else np.concatenate((ref, full), axis=0 if op == "stream" else 1)
                    ref = ref.copy()
                shp = (0, 0, 0) if ref is None else ref.shape
                expect((sym.num_streams, sym.num_blocks, sym.num_symbols) == shp, "container of dimension %s instead of %s", (sym.num_streams, sym.num_blocks, sym.num_symbols), shp)
                expect(np.array_equal(add, keep), "appended array was modified")
                if ref is not None:
                    close(sym.raw, ref, "symbols of the container")
                    for sl in (slice(0, 1), slice(None), (slice(None), slice(0, 1)), (slice(None), slice(1, None), slice(None)), (slice(-1, None), slice(None), slice(0, 1))):
                        close(sym[sl].raw, ref[sl], "slice of the container")
                acc.step()
            if ref is not None:
                close(sym.raw, ref, "symbols of the container")

        acc.run("container", body, {"history": history})
        acc.state("container", history)


def work(acc, shard):
    for kind, items in shard:
        {"code": run_codes, "varying": run_varying, "combining": run_combining, "chain": run_chains, "registry": run_registry, "container": run_containers}[kind](acc, items)


def main(check):
    t = check.thorough
    codes = [("A", x, g, s) for x in itertools.product(XS, repeat=2) for g in (1, 2, 3) for s in (1, 2, 3)]
    codes += [("G", x, g, s) for x in itertools.product(XS if t else XS[:4], repeat=3) for g in (1, 2) for s in (1, 2)]
    vec = [v for v in itertools.product((1.0, -1j, 0.0), repeat=4) if sum(map(bool, v)) >= 2]
    step = 3 if t else 9
    vary = [tuple(vec[i] for i in idx) for idx in itertools.product(range(0, len(vec), step), repeat=4 if t else 3)] if not t else [tuple(vec[i] for i in idx) for idx in itertools.product(range(0, len(vec), 7), repeat=4)]
    vary = [v if len(v) == 4 else v + (v[0],) for v in vary]
    comb = []
    for rx in (1, 2, 3):
        pool = LATTICE[:5] if rx < 3 else LATTICE[:4]
        for v in itertools.product(pool, repeat=rx):
            for w in ((1.0, 1j, -1.0), (0.5 - 0.5j, 0.0, 2.0)):
                for fmt in ("dense", "coo", "gcxs"):
                    # two blocks with one symbol each
                    st = np.array([v, w[:rx]]).T
                    comb.append((rx, 1, tuple(st.ravel()), fmt))
    for rx, tx in ((1, 2), (2, 2), (2, 3), (3, 2)):
        for v in itertools.product(LATTICE[1:4], repeat=rx * tx):
            if rx * tx > 4 and not t and hash(v) % 4:
                if v[0] != 1.0 or v[-1] != 1j:
                    continue
            a = np.array(v).reshape(rx, tx)
            st = np.stack([a, np.roll(a, 1, axis=0), a.conj(), np.roll(a, 1, axis=1)], axis=-1)
            comb.append((rx, tx, tuple(st.ravel()), "dense"))
    names = ["".join(p) for n in range(4 if not t else 5) for p in itertools.product("BOFAG", repeat=n)]
    chains = [(n, c, s, g, k) for n in names for c in ("", "M", "S") for s in (1, 2, 3, 4) for g in ((1, 2) if any(q in SIZE for q in n) else (1, 3, 4)) for k in (1, 2)]
    ops = [("set", "end"), ("set", -1), ("set", 0), ("set", 1), ("pop", 0), ("pop", 1)]
    reg = [(r, h) for r in (False, True) for n in range(1, 6 if t else 5) for h in itertools.product(ops, repeat=n)]
    cops = [("stream", (2,)), ("stream", (1, 2)), ("stream", (2, 2)), ("stream", (1, 2, 2)), ("symbols", (2,)), ("symbols", (1, 1)), ("symbols", (2, 1)), ("symbols", (1, 1, 2)), ("symbols", (2, 1, 2)), ("copy", None), ("write", 0), ("write", 1)]
    cont = [h for n in range(1, 5 if t else 4) for h in itertools.product(cops, repeat=n)]
    shards = []
    for kind, items, n in (("code", codes, 16), ("varying", vary, 8), ("combining", comb, 8), ("chain", chains, 12), ("registry", reg, 4), ("container", cont, 8)):
        shards += [[(kind, c)] for c in chunks(items, n)]
    check.explore(work, shards, case_timeout=60)
    check.bounds.update(codes=len(codes), varying_channels=len(vary), combinations=len(comb), chains=len(chains), registry_histories=len(reg), container_histories=len(cont))
