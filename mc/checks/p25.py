"""P25: logarithmic numbers always represent their linear value."""
import copy
import itertools
import math
import operator
import pickle

import numpy as np

from hermespy.core import Logarithmic, LogarithmicSequence, ValueType, dB
from hermespy.tools import DbConversionType, db2lin, lin2db
from ..core import chunks, expect, histories

FACTOR = {DbConversionType.POWER: 10.0, DbConversionType.AMPLITUDE: 20.0}


def lin(value, conversion):
    return 10.0 ** (value / FACTOR[conversion])


def log(value, conversion):
    return FACTOR[conversion] * math.log10(value)


def close(a, b):
    return math.isclose(a, b, rel_tol=1e-12, abs_tol=1e-12)


def number(x, value, conversion, what):
    """x is a logarithmic number of a linear value."""
    expect(isinstance(x, Logarithmic), "%s: %r is no logarithmic number", what, x)
    expect(close(float(x), value), "%s: linear value %r instead of %r", what, float(x), value)
    expect(close(x.value_db, log(value, conversion)), "%s: %r dB instead of %r", what, x.value_db, log(value, conversion))
    expect(x.conversion is conversion, "%s: conversion %s", what, x.conversion)


def sequence(s, values, conversion, what):
    expect(isinstance(s, LogarithmicSequence), "%s: %s is no logarithmic sequence", what, type(s).__name__)
    values = np.asarray(values)
    expect(s.shape == values.shape, "%s: shape %s instead of %s", what, s.shape, values.shape)
    expect(np.allclose(s.view(np.ndarray), values, rtol=1e-12, atol=0.0), "%s: linear values %s instead of %s", what, s.view(np.ndarray), values)
    expect(s.conversion is conversion, "%s: conversion %s", what, s.conversion)
    forms = [("list", s.tolist()), ("iteration", list(s)), ("reversed", list(reversed(s))[::-1]), ("indices", [s[i] for i in range(len(s))]), ("negative indices", [s[i - len(s)] for i in range(len(s))]), ("numpy indices", [s[np.int64(i)] for i in range(len(s))])]
    for name, items in forms:
        expect(len(items) == len(values), "%s: %d items by %s", what, len(items), name)
        for i, (x, v) in enumerate(zip(items, values)):
            number(x, float(v), conversion, "%s: item %d by %s" % (what, i, name))
    for i in (len(s), -len(s) - 1):
        try:
            s[i]
        except IndexError:
            continue
        expect(False, "%s: index %d accepted", what, i)


# --- scalars -----------------------------------------------------------------------------------------

BINARY = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv}
OTHER = {"**": operator.pow, "//": operator.floordiv, "%": operator.mod, "<": operator.lt, "<=": operator.le, "==": operator.eq, "!=": operator.ne, ">": operator.gt, ">=": operator.ge}


def scalar(acc, value, value_type, conversion):
    if value_type is ValueType.LIN:
        if value <= 0:
            try:
                Logarithmic(value, value_type, conversion)
            except ValueError:
                return acc.step()
            expect(False, "linear value %r accepted", value)
        linear = float(value)
    else:
        linear = lin(value, conversion)
    for x in (Logarithmic(value, value_type, conversion), Logarithmic(value=value, value_type=value_type, conversion=conversion), Logarithmic(np.float64(value), value_type, conversion)) + ((dB(value, conversion=conversion),) if value_type is ValueType.DB else ()):
        number(x, linear, conversion, "%r" % value)
        acc.step()
        for name, y in [("pickle", pickle.loads(pickle.dumps(x))), ("copy", copy.copy(x)), ("deep copy", copy.deepcopy(x)), ("tuple", Logarithmic.From_Tuple(float(x), x.value_db, conversion))]:
            number(y, linear, conversion, name)
            expect(float(y) == float(x) and y.value_db == x.value_db and y == x and hash(y) == hash(x), "%s: %r", name, y)
    expect(math.isclose(db2lin(float(log(linear, conversion)), conversion), linear, rel_tol=1e-12) and close(lin2db(linear, conversion), log(linear, conversion)), "conversion functions")
    array = np.array([linear, 2 * linear])
    expect(np.allclose(lin2db(array, conversion), [log(v, conversion) for v in array]) and np.allclose(db2lin(lin2db(array, conversion), conversion), array), "conversion of arrays")
    text = str(Logarithmic(value, value_type, conversion))
    expect(text.endswith("dB") and abs(float(text[:-2]) - log(linear, conversion)) <= 0.06 * abs(log(linear, conversion)), "text %s", text)


def arithmetic(acc, a, b, ca, cb):
    """All operators of two numbers and of numbers with linear ones."""
    x, y = Logarithmic(a, ValueType.DB, ca), Logarithmic(b, ValueType.DB, cb)
    la, lb = float(x), float(y)
    for name, f in BINARY.items():
        want = f(la, lb)
        acc.step()
        if want <= 0:
            try:
                f(x, y)
                expect(False, "%s of non-positive result accepted", name)
            except ValueError:
                pass
        else:
            number(f(x, y), want, ca, name)
        for r, kind in [(f(x, lb), "number"), (f(la, y), "reflected number"), (f(x, np.float64(lb)), "numpy number"), (f(x, 3), "integer")]:
            w = f(la, 3) if kind == "integer" else want
            expect(close(float(r), w), "%s with %s: %r instead of %r", name, kind, r, w)
            expect(not isinstance(r, Logarithmic) or (r > 0 and close(r.value_db, log(float(r), r.conversion))), "%s with %s: inconsistent %r", name, kind, r)
    for name, f in OTHER.items():
        r = f(x, y)
        expect(close(float(r), float(f(la, lb))), "%s: %r", name, r)
    number(x, la, ca, "left operand")
    number(y, lb, cb, "right operand")
    for name, r, w in [("negation", -x, -la), ("absolute", abs(x), la), ("square root", math.sqrt(x), math.sqrt(la)), ("sum", sum([x, y]), la + lb), ("maximum", max(x, y), max(la, lb)), ("array", float(np.asarray(x)), la), ("integer", int(x), int(la))]:
        expect(close(float(r), w), "%s: %r instead of %r", name, r, w)


# --- sequences ---------------------------------------------------------------------------------------

def op_inplace(f):
    def run(s, a):
        f(s), f(a)
        return s, a
    return run


def op_derive(f, g=None):
    return lambda s, a: (f(s), (g or f)(a))


def assign(index, value):
    def run(s, a):
        if a.size == 0:
            return s, a
        v = float(value) if isinstance(value, Logarithmic) else value
        i = index(a)
        if isinstance(v, list) and np.size(a[i]) not in (0, len(v)):
            return s, a
        if isinstance(v, list) and np.size(a[i]) == 0:
            return s, a
        s[i] = value
        a[i] = v
        return s, a
    return run


def imul(x):
    x *= 2.0


def iadd(x):
    x += 3.0


def idiv(x):
    x /= 4


OPS = {
    "copy": op_derive(lambda x: x.copy()),
    "deep copy": op_derive(copy.deepcopy),
    "pickle": op_derive(lambda x: pickle.loads(pickle.dumps(x)), lambda x: x.copy()),
    "head": op_derive(lambda x: x[:-1]),
    "tail": op_derive(lambda x: x[1:]),
    "reverse": op_derive(lambda x: x[::-1]),
    "mask": op_derive(lambda x: x[np.asarray(x) > 2.0]),
    "fancy": op_derive(lambda x: x[[-1, 0]] if len(x) else x),
    "sort": op_inplace(lambda x: x.sort()),
    "sorted": op_derive(np.sort),
    "times": op_derive(lambda x: x * 2.5),
    "reflected": op_derive(lambda x: 2 + x),
    "power": op_derive(lambda x: x**2),
    "square root": op_derive(np.sqrt),
    "elementwise": op_derive(lambda x: x / (1.0 + np.arange(len(x)))),
    "decibels": op_derive(lambda x: dB(3.0) * x, lambda x: x * 10**0.3),
    "itself": op_derive(lambda x: x + x),
    "*=": op_inplace(imul),
    "+=": op_inplace(iadd),
    "/=": op_inplace(idiv),
    "out": op_inplace(lambda x: np.multiply(x, 1.5, out=x)),
    "fill": op_inplace(lambda x: x.fill(7.0)),
    "set first": assign(lambda a: 0, 12.5),
    "set last": assign(lambda a: -1, 4),
    "set logarithmic": assign(lambda a: len(a) // 2, Logarithmic(7.0)),
    "set amplitude": assign(lambda a: 0, Logarithmic(7.0, conversion=DbConversionType.AMPLITUDE)),
    "set numpy": assign(lambda a: np.int64(0), np.float64(0.25)),
    "set slice": assign(lambda a: slice(0, 2), [9.0, 8.0]),
    "set all": assign(lambda a: slice(None), 0.5),
    "set mask": assign(lambda a: np.asarray(a) > 2.0, 1.25),
    "repeat": op_derive(lambda x: np.repeat(x, 2)),
    "roll": op_derive(lambda x: np.roll(x, 1)),
}


def history(acc, values, conversion, forms, names):
    """Derived and modified sequences and all of their ancestors agree with plain arrays."""
    s = {
        "dB": lambda: LogarithmicSequence(values, ValueType.DB, conversion),
        "linear": lambda: LogarithmicSequence([lin(v, conversion) for v in values], ValueType.LIN, conversion),
        "shorthand": lambda: dB(values, conversion=conversion),
        "tuple": lambda: dB(tuple(values), conversion=conversion),
        "arguments": lambda: dB(*values, conversion=conversion),
        "array": lambda: LogarithmicSequence(np.array(values), conversion=conversion),
    }[forms]()
    if forms == "arguments" and len(values) == 1:
        return number(s, lin(values[0], conversion), conversion, "single argument")
    a = np.array([lin(v, conversion) for v in values], dtype=float)
    live = [(s, a)]
    sequence(s, a, conversion, "initial")
    for n, name in enumerate(names):
        s, a = OPS[name](*live[-1])
        live.append((s, a))
        for i, (x, y) in enumerate(live):
            sequence(x, y, conversion, "sequence %d after %s" % (i, "-".join(names[: n + 1])))
        acc.step()
        acc.state(np.asarray(a).tolist(), conversion.name)


def comparisons(acc, values, conversion):
    s, a = dB(values, conversion=conversion), np.array([lin(v, conversion) for v in values])
    for x in (0.5, 1.0, 10.0, dB(10.0), s[0]):
        for f in (operator.lt, operator.gt, operator.eq, operator.ne, operator.le, operator.ge):
            got, want = f(s, x), f(np.asarray(s), float(x))
            expect(np.array_equal(np.asarray(got), want) and list(map(bool, got)) == want.tolist() and got.tolist() == want.tolist(), "comparison: %s instead of %s", got, want)
            acc.step()
    for f in (np.sum, np.mean, np.max, np.min, np.argmax, np.prod, np.linalg.norm):
        expect(close(float(f(s)), float(f(a))), "%s", f.__name__)
    expect(np.allclose(np.concatenate([s, a]), np.concatenate([a, a])) and np.allclose(np.outer(s, s), np.outer(a, a)) and close(float(s @ s), float(a @ a)), "matrix operations")
    expect(np.array_equal(s.astype(int), a.astype(int)) and s.astype(int).tolist() == a.astype(int).tolist(), "integers")
    sequence(s, a, conversion, "after comparisons")


def rejections(acc):
    for f in [lambda: dB(3, [1.0]), lambda: dB([1.0], [2.0]), lambda: dB([1.0], 2.0), lambda: Logarithmic(1, "LIN"), lambda: LogarithmicSequence([1], "LIN"), lambda: Logarithmic(-1.0, ValueType.LIN), lambda: Logarithmic(0.0, ValueType.LIN), lambda: Logarithmic(float("-inf"))]:
        try:
            f()
        except ValueError:
            acc.step()
            continue
        expect(False, "invalid value accepted")
    expect(len(LogarithmicSequence()) == 0 and LogarithmicSequence().tolist() == [], "empty sequence")


CASES = {"scalar": scalar, "arithmetic": arithmetic, "history": history, "comparisons": comparisons, "rejections": rejections}


def run_cases(acc, cases):
    for case in cases:
        acc.run(case[0], lambda case=case: CASES[case[0]](acc, *case[1:]), [str(c) for c in case])


def main(check):
    t = check.thorough
    conversions = list(DbConversionType)
    values = [-300.0, -100, -30.0, -12.5, -3, -0.1, 0, 1e-3, 1, 2.5, 10, 33.3, 99, 120, 300.0]
    cases = [("rejections",)]
    cases += [("scalar", v, ValueType.DB, c) for v in values for c in conversions]
    cases += [("scalar", v, ValueType.LIN, c) for v in (-5.0, -0.0, 0, 1e-300, 1e-9, 0.5, 1, 2, 10, 1e3, 12345.678, 1e12) for c in conversions]
    cases += [("arithmetic", a, b, ca, cb) for a in (-30.0, -3, 0, 2.5, 10, 20.5) for b in (-10.0, -3, 0, 2.5, 10, 17.3) for ca in conversions for cb in conversions]
    lists = [[], [3.0], [0.0, 10], [20.0, -10.0, 5], [1.5, 6, -3.0, 12.0]]
    cases += [("comparisons", v, c) for v in lists[1:] for c in conversions]
    for v in lists:
        for c in conversions:
            for form in ("dB", "linear", "array") + ("shorthand", "tuple") + (("arguments",) if v else ()):
                cases += [("history", v, c, form, h) for h in histories(list(OPS), 2 if form == "dB" or t else 1, 0)]
            if v and t:
                cases += [("history", v, c, "dB", h) for h in histories(list(OPS), 3, 3)]
    check.explore(run_cases, chunks(cases, 256), case_timeout=60)
    check.bounds = {"operations": len(OPS), "cases": len(cases), "history depth": 3 if t else 2}
    check.assumptions = ["sequences are one-dimensional; the text shows two significant digits"]
