"""P32: channel state information is one consistent linear channel in all of its representations."""
import itertools

import numpy as np
from sparse import COO, GCXS

from hermespy.core import ChannelStateInformation, Signal
from hermespy.core.channel import ChannelStateDimension, ChannelStateFormat
from hermespy.core.signal_model import SignalBlock
from .p35 import roundtrip
from ..core import chunks, expect, histories

IR, FS = ChannelStateFormat.IMPULSE_RESPONSE, ChannelStateFormat.FREQUENCY_SELECTIVITY
DIMS = list(ChannelStateDimension)


def values(shape, seed=0):
    """Distinct generic complex numbers."""
    n = int(np.prod(shape))
    k = np.arange(1, n + 1) + 97 * seed
    return (np.sin(1.3 * k) + 1j * np.cos(2.1 * k * k + 0.5)).reshape(shape) * (1 + 0.01 * k.reshape(shape))


def dft(h, bins):
    w = np.exp(-2j * np.pi * np.outer(np.arange(h.shape[3]), np.arange(bins)) / bins)
    return np.einsum("abcd,de->abce", h, w)


def close(a, b, what):
    a, b = np.asarray(a), np.asarray(b)
    expect(a.shape == b.shape, "%s: dimensions %s instead of %s", what, a.shape, b.shape)
    expect(np.allclose(a, b, rtol=1e-9, atol=1e-9), "%s differs by %.3g", what, np.abs(a - b).max() if a.size else 0)


class Model:
    """Impulse responses (R, T, S, L) and the number of frequency bins of the represented format."""

    def __init__(self, h, bins=None):
        self.h, self.bins = h, bins  # bins is None: impulse response

    def raw(self):
        return self.h if self.bins is None else dft(self.h, self.bins)

    def filter(self, x):
        r, t, s, l = self.h.shape
        out = np.zeros((r, s + l - 1), complex)
        for n in range(s):
            out[:, n : n + l] += np.einsum("rtl,t->rl", self.h[:, :, n, :], x[:, n])
        return out


def dense(csi):
    return csi.dense_state()


def compare(csi, m, sizes=True):
    expect(csi.state_format == (IR if m.bins is None else FS), "format %s", csi.state_format)
    raw = m.raw()
    close(dense(csi), raw, "state")
    expect((csi.num_receive_streams, csi.num_transmit_streams, csi.num_samples) == raw.shape[:3], "dimensions %s %s %s instead of %s", csi.num_receive_streams, csi.num_transmit_streams, csi.num_samples, raw.shape)
    expect(csi.num_symbols == raw.shape[2] * (1 if m.bins is None else raw.shape[3]), "number of symbols %d", csi.num_symbols)
    if sizes:
        expect(csi.num_delay_taps == m.h.shape[3], "%d delay taps instead of %d", csi.num_delay_taps, m.h.shape[3])


def linear(csi, m):
    """The linear transformation: convolutions in time, multiplications in frequency."""
    t = csi.linear
    t = t.todense() if hasattr(t, "todense") else np.asarray(t)
    r, n, s, l = m.h.shape
    if m.bins is None:
        want = np.zeros((r, n, s + l - 1, s), complex)
        for i in range(s):
            want[:, :, i : i + l, i] = m.h[:, :, i, :]
    else:
        raw = m.raw().reshape(r, n, -1)
        want = np.einsum("abi,ij->abij", raw, np.eye(raw.shape[2]))
    close(t, want, "linear transformation")


def propagate(csi, m, kind):
    r, t, s, l = m.h.shape
    x = values((t, s), 5)
    sig = Signal.Create(x.copy(), 1e3, 2e9, noise_power=0.25, delay=0.125)
    if kind == "sparse" and s > 1:
        sig = Signal.Create([SignalBlock(t, 1, 0, x[:, :1].tobytes()), SignalBlock(t, s - 1, 1, x[:, 1:].tobytes())], 1e3, 2e9, 0.25, 0.125)
    y = csi.propagate(sig)
    close(np.asarray(sig.to_dense()), x, "propagated signal after its propagation")
    close(np.asarray(y.to_dense()), m.filter(x), "propagated samples")
    expect((y.sampling_rate, y.carrier_frequency, y.noise_power, y.delay) == (1e3, 2e9, 0.25, 0.125), "metadata of the propagated signal")
    m.bins = None  # The propagation converts the state to impulse responses


def ops(start):
    """The operations of the histories."""
    r = ["freq", ("freq", 4), ("freq", 7), "time", "recip", ("get", 0, 0, None, None), ("get", -1,), ("get", slice(None), 0), ("get", slice(0, 1), slice(None), slice(1, None)), ("get", 0, slice(None), 0, slice(None)), ("set", 0, 0), ("cat", 0), ("cat", 1), ("cat", 2), "linear", ("prop", "dense"), ("prop", "sparse"), "serial", "streams", "samples"]
    return r


def apply(csi, m, op):
    k = op if isinstance(op, str) else op[0]
    if k == "freq":
        bins = None if isinstance(op, str) else op[1]
        out = csi.to_frequency_selectivity() if bins is None else csi.to_frequency_selectivity(bins)
        expect(out is csi, "the conversion returns another object")
        if m.bins is None:
            m.bins = csi.state.shape[3] if bins is None else bins
            if bins is None:
                expect(m.bins >= m.h.shape[3], "default of %d bins for %d taps", m.bins, m.h.shape[3])
    elif k == "time":
        expect(csi.to_impulse_response() is csi, "the conversion returns another object")
        m.bins = None
    elif k == "recip":
        csi, m = csi.reciprocal(), Model(m.h.transpose(1, 0, 2, 3), m.bins)
    elif k == "get":
        key = tuple(slice(None) if s is None else s for s in op[1:])
        full = []
        for d, s in enumerate(key):
            n = m.raw().shape[d]
            full.append(s if isinstance(s, slice) else slice(s % n, s % n + 1))
        h = m.h[tuple(full[:3])]
        if h.shape[2] == 0:
            return csi, m
        csi = csi[key if len(key) > 1 else key[0]]
        m = Model(h, m.bins)
    elif k == "set":
        if isinstance(csi.state, (COO, GCXS)):
            return csi, m
        new = ChannelStateInformation(csi.state_format, -2 * dense(csi)[:1, :1])
        csi[0, 0] = new
        m.h = m.h.copy()
        m.h[0, 0] *= -2
    elif k == "cat":
        d = op[1]
        if isinstance(csi.state, (COO, GCXS)):
            return csi, m
        other = ChannelStateInformation(csi.state_format, 3 * dense(csi), csi.num_delay_taps)
        if m.h.shape[d] > 3:
            return csi, m
        csi, m = ChannelStateInformation.concatenate([csi, other], DIMS[d]), Model(np.concatenate((m.h, 3 * m.h), axis=d), m.bins)
    elif k == "linear":
        linear(csi, m)
    elif k == "prop":
        propagate(csi, m, op[1])
    elif k == "serial":
        csi = roundtrip(csi)
    elif k == "streams":
        got = list(csi.received_streams())
        expect(len(got) == m.h.shape[0], "%d received streams", len(got))
        for i, c in enumerate(got):
            compare(c, Model(m.h[i : i + 1], m.bins), sizes=m.bins is None)
    elif k == "samples":
        got = list(csi.samples())
        expect(len(got) == m.h.shape[2], "%d samples", len(got))
        for i, c in enumerate(got):
            compare(c, Model(m.h[:, :, i : i + 1], m.bins))
    return csi, m


def start(shape, fmt, kind):
    h = values(shape)
    if kind != "dense" and h.size > 2:
        h = h.copy()
        h.flat[1::3] = 0
    m = Model(h, shape[3] if fmt == FS else None)
    raw = m.raw()
    state = {"dense": lambda a: a.copy(), "coo": COO.from_numpy, "gcxs": lambda a: GCXS.from_numpy(a, compressed_axes=(0, 1, 2))}[kind](raw)
    return ChannelStateInformation(fmt, state), m


def run_histories(acc, shard):
    for shape, fmt, kind, hist in shard:
        def one():
            csi, m = start(shape, fmt, kind)
            compare(csi, m)
            for n, op in enumerate(hist):
                acc.step()
                try:
                    csi, m = apply(csi, m, op)
                    compare(csi, m)
                except AssertionError:
                    raise
                except Exception as e:
                    raise AssertionError("operation %s: %r" % (op, e))
            acc.state(m.h.shape, m.bins, kind, hist)
            linear(csi, m)
            propagate(csi, m, "dense")

        acc.run("csi/%s" % kind, one, {"dimensions": shape, "format": fmt.name, "history": [str(h) for h in hist]})


def run_single(acc, shard):
    for shape in shard:
        for fmt in (IR, FS):
            for kind in ("dense", "coo", "gcxs"):
                def one():
                    csi, m = start(shape, fmt, kind)
                    compare(csi, m)
                    linear(csi, m)
                    acc.step(2)
                    for op in ("recip", "time", ("prop", "dense"), ("prop", "sparse"), "serial", "streams", "samples"):
                        c, n = start(shape, fmt, kind)
                        c, n = apply(c, n, op)
                        compare(c, n)
                        acc.step()
                    for bins in range(shape[3], shape[3] + 4):
                        c, n = start(shape, IR, kind)
                        c, n = apply(c, n, ("freq", bins))
                        compare(c, n)
                        linear(c, n)
                        c, n = apply(c, n, "time")
                        compare(c, n)
                        acc.step(2)
                    # Every basis impulse
                    for a in range(shape[1]):
                        for i in range(shape[2]):
                            x = np.zeros((shape[1], shape[2]), complex)
                            x[a, i] = 1 - 2j
                            c, n = start(shape, fmt, kind)
                            close(np.asarray(c.propagate(Signal.Create(x, 1.0)).to_dense()), n.filter(x), "response to the impulse %d, %d" % (a, i))
                            acc.step()
                    acc.state(shape, fmt.name, kind)

                acc.run("csi/dimensions", one, {"dimensions": shape, "format": fmt.name, "kind": kind})

        def ideal():
            r, t, s = shape[:3]
            c = ChannelStateInformation.Ideal(s, r, t)
            compare(c, Model(np.ones((r, t, s, 1), complex)))

        acc.run("csi/ideal", ideal, {"dimensions": shape})

        def invalid():
            for bad in (np.ones((1, 1, 1)), np.ones((1,) * 5)):
                try:
                    ChannelStateInformation(IR, bad)
                except ValueError:
                    continue
                raise AssertionError("accepted a state of %d dimensions" % bad.ndim)

        acc.run("csi/invalid", invalid, {})


def main(check):
    t = check.thorough
    n = 3
    shapes = list(itertools.product(range(1, n + 1), range(1, n + 1), range(1, n + 1 + t), range(1, n + 1 + t)))
    check.explore(run_single, chunks(shapes, 24))
    depth = 3 if not t else 4
    hs = []
    for shape, fmt, kind, d in [((2, 3, 3, 3), IR, "dense", depth), ((1, 2, 2, 2), FS, "dense", depth - 1), ((3, 1, 2, 3), IR, "gcxs", depth - 1), ((2, 2, 1, 1), IR, "coo", depth - 1), ((2, 2, 3, 2), FS, "gcxs", depth - 1)]:
        hs += [(shape, fmt, kind, h) for h in histories(ops(None), d, 1)]
    check.explore(run_histories, chunks(hs, 64))
    check.bounds = {"streams": n, "samples": n + t, "taps": n + t, "history depth": depth, "histories": len(hs)}
    check.assumptions = ["frequency conversions use at least as many bins as there are taps"]
