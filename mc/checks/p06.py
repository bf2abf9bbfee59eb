"""P06: documents written by the serialization process are read back identically."""
import itertools
import os
import tempfile

import h5py
import numpy as np

from hermespy.core import Factory
from hermespy.core.factory import HDFDeserializationProcess, HDFSerializationProcess, Serializable
from ..core import chunks, expect, histories

ARRAYS = [np.array([1.0, -2.5]), np.array([[1j, 2 + 1j]]), np.array([3, -4, 5]), np.zeros((0, 2)), np.array(7.5), np.array([True, False])]


class Node(Serializable):
    """Object with two child attributes, a sequence of children and two arrays."""

    READ = (0, 1, 2, 3)

    def __init__(self, label=0, children=(None, None), seq=(), array=None, temp=None):
        self.label, self.children, self.seq, self.array, self.temp = label, list(children), list(seq), array, temp

    def serialize(self, process):
        process.serialize_integer(self.label, "label")
        for i, c in enumerate(self.children):
            if c is not None:
                process.serialize_object(c, "child%d" % i)
        process.serialize_object_sequence(self.seq, "seq")
        if self.array is not None:
            process.serialize_array(self.array, "array")
        if self.temp is not None:  # an object and an array which only exist while being written
            process.serialize_array(np.full(3, self.temp, dtype=float), "temp_array")
            process.serialize_object(Leaf(self.temp), "temp_leaf")

    @classmethod
    def Deserialize(cls, process):
        n = cls()
        n.label = process.deserialize_integer("label")
        for part in cls.READ:
            if part < 2:
                n.children[part] = process.deserialize_object("child%d" % part, Node, None)
            elif part == 2:
                n.seq = list(process.deserialize_object_sequence("seq", Node))
            else:
                n.array = process.deserialize_array("array", np.complex128, None)
                t = process.deserialize_array("temp_array", np.float64, None)
                leaf = process.deserialize_object("temp_leaf", Leaf, None)
                if t is not None or leaf is not None:
                    expect(t is not None and leaf is not None and np.array_equal(t, np.full(3, leaf.value)), "temporary values disagree: %s vs %s", t, leaf and leaf.value)
                    n.temp = leaf.value
        return n


class Leaf(Serializable):
    def __init__(self, value):
        self.value = value

    def serialize(self, process):
        process.serialize_floating(self.value, "value")

    @classmethod
    def Deserialize(cls, process):
        return cls(process.deserialize_floating("value"))


class Other(Leaf):
    pass


class Unregistered(Leaf):
    pass


TAGS = {c.serialization_tag(): c for c in (Node, Leaf, Other)}
_N = [0]


class Doc:
    """An in-memory document, closed at the end of a case."""

    def __enter__(self):
        _N[0] += 1
        self.f = h5py.File("mc06-%d.h5" % _N[0], "w", driver="core", backing_store=False)
        return self

    def __exit__(self, *_):
        self.f.close()

    def w(self, campaign=None):
        return HDFSerializationProcess.New(TAGS, self.f, campaign)

    def r(self, campaign=None):
        return HDFDeserializationProcess.New(TAGS, self.f, campaign)


def shape_of(n, ids, arrs):
    """Canonical form of an object graph including the sharing of objects and arrays."""
    if n is None:
        return None
    if id(n) in ids:
        return ("same", ids[id(n)])
    ids[id(n)] = len(ids)
    me = ids[id(n)]
    kids = tuple(shape_of(c, ids, arrs) for c in n.children)
    seq = tuple(shape_of(c, ids, arrs) for c in n.seq)
    if n.array is None:
        a = None
    else:
        v = np.asarray(n.array).astype(complex)
        a = (arrs.setdefault(id(n.array), len(arrs)), v.shape, tuple(v.ravel().tolist()))
    return (me, n.label, kids, seq, a, n.temp)


# -- graphs of objects ---------------------------------------------------------------------
def graphs(size, thorough):
    """All DAGs over `size` nodes: two child slots and a sequence of up to two children per node."""
    def options(i):
        prev = [None] + list(range(i))
        seqs = [()] + [(a,) for a in range(i)] + [(a, b) for a in range(i) for b in range(i)]
        return [(a, b, s) for a in prev for b in prev for s in seqs]
    return itertools.product(*[options(i) for i in range(size)])


def build(g, arrs, temps):
    nodes = []
    for i, (a, b, s) in enumerate(g):
        nodes.append(Node(i, [None if a is None else nodes[a], None if b is None else nodes[b]], [nodes[j] for j in s], None if arrs[i] is None else POOL[arrs[i]], float(i + 1) if temps[i] else None))
    return nodes


POOL = [np.array([1.0, 2.0, -1.5]), np.array([1.0, 2.0, -1.5]) * 2]


def graph_case(acc, g, arrs, temps, order):
    nodes = build(g, arrs, temps)
    Node.READ = order
    with Doc() as d:
        w = d.w()
        w.serialize_object_sequence(nodes[::-1], "roots")
        r = d.r()
        back = r.deserialize_object_sequence("roots", Node)
        expect(len(back) == len(nodes), "%d of %d objects restored", len(back), len(nodes))
        ia, ib, aa, ab = {}, {}, {}, {}
        ref = [shape_of(n, ia, aa) for n in nodes[::-1]]
        got = [shape_of(n, ib, ab) for n in back]
        expect(ref == got, "restored graph %s differs from %s", got, ref)
        # a second, independent reader obtains an equal but distinct graph
        again = d.r().deserialize_object_sequence("roots", Node)
        i2, a2 = {}, {}
        expect([shape_of(n, i2, a2) for n in again] == ref, "second reader differs")
        expect(not any(x is y for x in again for y in back), "two readers share objects")
        acc.step(len(nodes) * 3)
        acc.state(ref, order)


def graph_shard(acc, items):
    for g, arrs, temps, order in items:
        sig = "graph:%s:%s:%s:%s" % (g, arrs, temps, order)
        acc.run(sig, lambda: graph_case(acc, g, arrs, temps, order), sig)


# -- sequences -----------------------------------------------------------------------------
def seq_case(acc, ops, root):
    """Append batches (batch size, share) to one sequence; the reference is a list."""
    with Doc() as d:
        w = d.w()
        shared = Node(99, array=POOL[0])
        ref = []
        mutable = Node(0)
        for k, (n, kind) in enumerate(ops):
            if kind == "new":
                batch = [Node(10 * k + j, temp=float(j)) for j in range(n)]
                ref += [(x.label, x.temp) for x in batch]
            elif kind == "shared":
                batch = [shared] * n
                ref += [(99, None)] * n
            else:
                mutable.label = 1000 + k
                batch = [mutable] * n
                ref += [(1000 + k, None)] * n
            w.serialize_object_sequence(batch, "s", True, root)
            r = d.r()
            expect(r.sequence_length("s") == len(ref), "length %d instead of %d after %d batches", r.sequence_length("s"), len(ref), k + 1)
            acc.step()
        r = d.r()
        got = r.deserialize_object_sequence("s", Node)
        expect([(x.label, x.temp) for x in got] == ref, "sequence %s instead of %s", [(x.label, x.temp) for x in got], ref)
        if not root:
            sh = [x for x in got if x.label == 99]
            expect(all(x is sh[0] for x in sh), "one object became several")
        m = len(ref)
        for a in range(0, m + 1):
            for b in range(a, m + 2):
                part = d.r().deserialize_object_sequence("s", Node, a, b) if m else []
                expect([(x.label, x.temp) for x in part] == ref[a:b], "slice %d:%d is %s", a, b, [x.label for x in part])
                acc.step()
        acc.state(ref, root)


def seq_shard(acc, items):
    for ops, root in items:
        sig = "sequence:%s:%s" % (ops, root)
        acc.run(sig, lambda: seq_case(acc, ops, root), sig)


# -- scalars, arrays, defaults -------------------------------------------------------------
FLOATS = [0.0, -0.0, 1.5, -1e-300, 1e300, float("inf"), float("-inf"), 3, np.float32(0.5)]
INTS = [0, 1, -1, 2**31, -(2**31) - 1, 2**62, -(2**62), True, np.int8(-5)]
CPLX = [0j, 1 - 2j, complex(1e-200, -1e200), 2.5, 1j]
STRS = ["", "a", "UNDEFINE", "None", "äöü €", "with space", "x" * 3000, "a/b", "0"]
RANGES = [None, 1, -2.5, (1.0, 2.0), (0, 0), (-1, 5), np.float64(3.0), np.int64(4), 0]
NAMES = ["x", "value", "a_b", "type0", "0001"]


def scalar_case(acc, kind, v, name, other):
    with Doc() as d:
        w = d.w()
        getattr(w, "serialize_" + kind)(v, name)
        if other is not None:
            getattr(w, "serialize_" + kind)(other, name + "2")
        r = d.r()
        get = getattr(r, "deserialize_" + kind)
        if kind == "range" and v is None:
            expect(get(name, "dflt") == "dflt", "missing range")
            try:
                get(name)
            except RuntimeError:
                pass
            else:
                expect(False, "missing range without default does not raise")
        else:
            for args in ((name,), (name, None), (name, v)):
                x = get(*args)
                ok = x == v and (kind != "range" or isinstance(x, tuple) == isinstance(v, tuple))
                if kind in ("integer", "floating", "complex", "string"):
                    ok = ok and type(x) is {"integer": int, "floating": float, "complex": complex, "string": str}[kind]
                expect(ok, "%s %r was restored as %r", kind, v, x)
        if other is not None:
            expect(get(name + "2") == other, "second value %r restored as %r", other, get(name + "2"))
        for dflt in (None, v, "dflt"):
            x = get("missing", dflt)
            expect(x is dflt or x == dflt, "missing %s: %r instead of default %r", kind, x, dflt)
        try:
            get("missing")
        except RuntimeError:
            pass
        else:
            expect(False, "missing %s without default does not raise", kind)
        acc.step(8)
        acc.state(kind, repr(v), name, repr(other))


def array_case(acc, i, dtype, cache, twice):
    a = ARRAYS[i]
    with Doc() as d:
        w = d.w()
        buf = a.copy()
        w.serialize_array(buf, "a", cache)
        if twice == "same":
            w.serialize_array(buf, "b", cache)
        elif twice == "other":
            w.serialize_array(a.copy() * 2, "b", cache)
        elif twice == "reused" and not cache:  # the buffer is overwritten between two uncached writes
            buf[...] = buf * 2
            w.serialize_array(buf, "b", cache)
        elif twice == "view":
            w.serialize_array(buf.reshape(-1), "b", cache)
            w.serialize_array((buf * 2).reshape(-1), "c", cache)
        r = d.r()
        for order in ((("a", dtype), ("b", np.complex128)), (("b", np.complex128), ("a", dtype))):
            r = d.r()
            for name, t in order:
                x = r.deserialize_array(name, t, None)
                if name == "b" and twice is None or name == "b" and twice == "reused" and cache:
                    expect(x is None, "unwritten array has value %s", x)
                    continue
                want = a if name == "a" or twice in ("same", "view") else a * 2
                if name == "b" and twice == "view":
                    want = want.reshape(-1)
                want = np.asarray(want).astype(t)
                expect(isinstance(x, np.ndarray) and x.dtype == want.dtype and x.shape == want.shape and np.array_equal(x, want), "array %s read as %s: %r instead of %r", name, np.dtype(t), x, want)
        if twice == "view":
            expect(np.array_equal(d.r().deserialize_array("c", np.complex128), (a * 2).reshape(-1)), "temporary array")
        try:
            d.r().deserialize_array("missing", np.float64)
        except RuntimeError:
            pass
        else:
            expect(False, "missing array without default does not raise")
        acc.step(6)
        acc.state(i, str(dtype), cache, twice)


def castable(a, t):
    return np.can_cast(a.dtype, t, "same_kind") or (a.dtype.kind in "bi" and np.dtype(t).kind == "f")


# -- types ---------------------------------------------------------------------------------
def type_case(acc, stored, wanted, default):
    classes = dict(Node=Node, Leaf=Leaf, Other=Other, Any=Serializable)
    obj = {"Node": lambda: Node(4), "Leaf": lambda: Leaf(2.0), "Other": lambda: Other(3.0)}[stored]()
    with Doc() as d:
        d.w().serialize_object(obj, "o")
        args = ("o", classes[wanted]) if default is None else ("o", classes[wanted], default)
        fits = isinstance(obj, classes[wanted])
        try:
            x = d.r().deserialize_object(*args)
            expect(fits, "%s was returned in place of %s", type(x).__name__, wanted)
            expect(type(x) is type(obj), "%s restored as %s", stored, type(x).__name__)
        except RuntimeError:
            expect(not fits, "%s refused in place of %s", stored, wanted)
        for dflt in (None, 7, obj):
            y = d.r().deserialize_object("missing", classes[wanted], dflt)
            expect(y is dflt, "default %r became %r", dflt, y)
        for call in (lambda: d.r().deserialize_object("missing", classes[wanted]), lambda: d.r().deserialize_object("missing"), lambda: d.w().serialize_object(Unregistered(1.0), "u"), lambda: d.w().serialize_object(3, "u")):
            try:
                call()
            except RuntimeError:
                continue
            expect(False, "invalid call did not raise")
        acc.step(5)
        acc.state(stored, wanted, repr(default))


# -- campaigns in files --------------------------------------------------------------------
def campaign_case(acc, ops):
    """Open, write to and close one file over and over; reference: dictionary of campaigns."""
    factory = FACTORY
    ref = {}
    with tempfile.TemporaryDirectory(prefix="mc06-") as tmp:
        path = os.path.join(tmp, "file.h5")
        for k, (campaign, what) in enumerate(ops):
            w = factory.serialize(path, campaign)
            cur = ref.setdefault(campaign, dict(seq=[], attr=None))
            if what == "append":
                w.serialize_object_sequence([Node(k), Node(k + 100, temp=2.0)], "seq", True)
                cur["seq"] += [k, k + 100]
            else:
                w.serialize_integer(k, "attr")
                cur["attr"] = k
            w.finalize()
            for c, content in ref.items():
                r = factory.deserialize(path, c)
                expect([n.label for n in r.deserialize_object_sequence("seq", Node)] == content["seq"], "campaign %s sequence after %s", c, ops[: k + 1])
                expect(r.deserialize_integer("attr", None) == content["attr"], "campaign %s attribute after %s", c, ops[: k + 1])
                r.finalize()
            try:
                factory.deserialize(path, "missing")
            except RuntimeError:
                pass
            else:
                expect(False, "missing campaign does not raise")
            acc.step()
        acc.state(repr(ref))


FACTORY = None


def campaign_shard(acc, items):
    for ops in items:
        acc.run("campaign:%s" % (ops,), lambda: campaign_case(acc, ops), ops)


def object_file_case(acc, g):
    """to_HDF / from_HDF of a graph through a real file."""
    nodes = build(g, [0, 1, 0], [True, False, True])
    Node.READ = (0, 1, 2, 3)
    with tempfile.TemporaryDirectory(prefix="mc06-") as tmp:
        path = os.path.join(tmp, "file.h5")
        FACTORY.to_HDF(path, nodes[-1])
        FACTORY.to_HDF(path, nodes[-1])  # overwrites the file
        back = FACTORY.from_HDF(path, Node)
        expect(shape_of(back, {}, {}) == shape_of(nodes[-1], {}, {}), "file round trip of %s", g)
        acc.step(3)
        acc.state("file", g)


def file_shard(acc, items):
    for g in items:
        acc.run("file:%s" % (g,), lambda: object_file_case(acc, g), g)


# -- mappings and custom sections ------------------------------------------------------------
def mapping_case(acc, keys, shared):
    with Doc() as d:
        w = d.w()
        one = Node(5)
        m = {k: (one if shared else Node(i)) for i, k in enumerate(keys)}
        w.serialize_object_mapping(m, "m")

        def write(p):
            p.serialize_integer(7, "inner")
            p.serialize_object(one, "one")
            p.serialize_array(POOL[0], "arr")

        w.serialize_custom("c", write)
        w.serialize_integer(8, "inner")
        w.serialize_object(one, "one")
        r = d.r()
        expect(r.deserialize_integer("m_count") == len(keys), "mapping size")
        got = {r.deserialize_string("m_%02d_key" % i): r.deserialize_object("m_%02d" % i, Node) for i in range(len(keys))}
        expect({k: v.label for k, v in got.items()} == {k: v.label for k, v in m.items()}, "mapping %s", got)
        inner, obj, arr = r.deserialize_custom("c", lambda p: (p.deserialize_integer("inner"), p.deserialize_object("one", Node), p.deserialize_array("arr", np.float64)))
        expect(inner == 7 and r.deserialize_integer("inner") == 8, "custom section shares attributes with its parent")
        expect(obj is r.deserialize_object("one", Node), "identity across a custom section")
        expect(np.array_equal(arr, POOL[0]), "array of a custom section")
        if shared and keys:
            expect(all(v is obj for v in got.values()), "identity across a mapping")
        acc.step(4)
        acc.state(keys, shared)


def misc_shard(acc, items):
    for kind, args in items:
        f = {"scalar": scalar_case, "array": array_case, "type": type_case, "mapping": mapping_case}[kind]
        sig = "%s:%s" % (kind, ",".join(str(a)[:60] for a in args))
        acc.run(sig, lambda: f(acc, *args), sig)


def job(acc, s):
    kind, items = s
    {"graph": graph_shard, "seq": seq_shard, "misc": misc_shard, "campaign": campaign_shard, "file": file_shard}[kind](acc, items)


def main(check):
    global FACTORY
    FACTORY = Factory(dict(TAGS))
    shards = []
    orders = list(itertools.permutations(range(4)))
    items = []
    for size in (1, 2, 3):
        for n, g in enumerate(graphs(size, check.thorough)):
            # arrays and temporaries vary jointly with the shape, orders exhaustively for small graphs
            av = list(itertools.product((None, 0, 1), repeat=size)) if size < 3 else [(0, 0, 1), (None, 0, 0), (1, 1, 1)]
            tv = list(itertools.product((0, 1), repeat=size)) if size < 3 else [(1, 1, 1), (0, 1, 1)]
            ov = orders if check.thorough or size < 3 else [orders[0], orders[-1], orders[n % 24]]
            if size < 2:
                for a, t in itertools.product(av, tv):
                    items.append((g, a, t, orders[0]))
            elif size == 2:
                for a, t in itertools.product(av, tv):
                    items.append((g, a, t, orders[(n + len(items)) % 24]))
                for o in ov:
                    items.append((g, (0, 0), (1, 1), o))
            else:
                for k, o in enumerate(ov):
                    items.append((g, av[(n + k) % len(av)], tv[(n + k) % len(tv)], o))
    check.bounds["object graphs"] = len(items)
    shards += [("graph", c) for c in chunks(items, 32)]
    batches = [(0, "new"), (1, "new"), (3, "new"), (2, "shared"), (11, "new")]
    seqs = [(h, root) for h in histories(batches, 3 if not check.thorough else 4, 0) for root in (False, True) if sum(b[0] for b in h) <= 16 or check.thorough]
    seqs += [(h, True) for h in histories(batches[1:4] + [(1, "mutated"), (2, "mutated")], 3) if any(b[1] == "mutated" for b in h)]
    check.bounds["append histories"] = len(seqs)
    shards += [("seq", c) for c in chunks(seqs, 16)]
    misc = []
    for kind, vals in (("floating", FLOATS), ("integer", INTS), ("complex", CPLX), ("string", STRS), ("range", RANGES)):
        for v in vals:
            for name in NAMES:
                for other in [None] + vals:
                    if other is None or not (kind == "range" and other is None):
                        misc.append(("scalar", (kind, v, name, other)))
    for i, a in enumerate(ARRAYS):
        for t in (np.float64, np.complex128, np.int64, np.bool_, np.float32):
            if castable(a, t):
                for cache in (True, False):
                    for twice in (None, "same", "other", "reused", "view"):
                        if a.dtype == bool and twice not in (None, "same"):
                            continue
                        misc.append(("array", (i, t, cache, twice)))
    for s, wnt, d in itertools.product(("Node", "Leaf", "Other"), ("Node", "Leaf", "Other", "Any"), (None, 5)):
        misc.append(("type", (s, wnt, d)))
    for n in range(0, 13):
        for sh in (False, True):
            misc.append(("mapping", (tuple("k%d" % i for i in range(n)), sh)))
    check.bounds["values"] = len(misc)
    shards += [("misc", c) for c in chunks(misc, 16)]
    camp = list(histories([(c, w) for c in ("A", "B", None) for w in ("append", "attr")], 3 if not check.thorough else 5, 1))
    camp = [o for o in camp if len(o) == max(len(x) for x in camp)]
    check.bounds["file histories"] = len(camp)
    shards += [("campaign", c) for c in chunks(camp, 16)]
    files = list(graphs(3, False))[:: 1 if check.thorough else 3]
    shards += [("file", c) for c in chunks(files, 8)]
    check.explore(job, shards)
