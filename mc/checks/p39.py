"""P39: fading channels implement their configured delay profiles, Rice factors and Doppler."""
import itertools

import numpy as np

import hermespy.channel as ch
from hermespy.channel.fading.correlation import CorrelationType, StandardAntennaCorrelation
from hermespy.channel.fading.cost259 import Cost259, Cost259Type
from hermespy.channel.fading.exponential import Exponential
from hermespy.channel.fading.fading import CustomAntennaCorrelation, MultipathFadingChannel
from hermespy.channel.fading.tdl import TDL, TDLType
from hermespy.core import AntennaMode
from ..core import chunks, expect, histories
from .p23 import A, B, F, device, link, matrix
from .p35 import roundtrip

BW = 1e7
INF = float("inf")

# ETSI TR 138 901 Tables 7.7.2-1 to 7.7.2-5: normalized delays and powers in dB, the line of sight of the first path separately
PROFILES = {
    "A": ("0 .3819 .4025 .5868 .4610 .5375 .6708 .5750 .7618 1.5375 1.8978 2.2242 2.1717 2.4942 2.5119 3.0582 4.0810 4.4579 4.5695 4.7966 5.0066 5.3043 9.6586",
          "-13.4 0 -2.2 -4 -6 -8.2 -9.9 -10.5 -7.5 -15.9 -6.6 -16.7 -12.4 -15.2 -10.8 -11.3 -12.7 -16.2 -18.3 -18.9 -16.6 -19.9 -29.7", None),
    "B": ("0 .1072 .2155 .2095 .2870 .2986 .3752 .5055 .3681 .3697 .5700 .5283 1.1021 1.2756 1.5474 1.7842 2.0169 2.8294 3.0219 3.6187 4.1067 4.2790 4.7834",
          "0 -2.2 -4 -3.2 -9.8 -1.2 -3.4 -5.2 -7.6 -3 -8.9 -9 -4.8 -5.7 -7.5 -1.9 -7.6 -12.2 -9.8 -11.4 -14.9 -9.2 -11.3", None),
    "C": ("0 .2099 .2219 .2329 .2176 .6366 .6448 .6560 .6584 .7935 .8213 .9336 1.2285 1.3083 2.1704 2.7105 4.2589 4.6003 5.4902 5.6077 6.3065 6.6374 7.0427 8.6523",
          "-4.4 -1.2 -3.5 -5.2 -2.5 0 -2.2 -3.9 -7.4 -7.1 -10.7 -11.1 -5.1 -6.8 -8.7 -13.2 -13.9 -13.9 -15.8 -17.1 -16 -15.7 -21.6 -22.8", None),
    "D": ("0 .035 .612 1.363 1.405 1.804 2.596 1.775 4.042 7.937 9.424 9.708 12.525",
          "-13.5 -18.8 -21 -22.8 -17.9 -20.1 -21.9 -22.9 -27.8 -23.6 -24.8 -30 -27.7", (-0.2, 13.3)),
    "E": ("0 .5133 .5440 .5630 .5440 .7112 1.9092 1.9293 1.9589 2.6426 3.7136 5.4524 12.0034 20.6519",
          "-22.03 -15.8 -18.1 -19.8 -22.9 -22.4 -18.6 -20.8 -22.6 -22.3 -25.6 -20.2 -29.8 -29.2", (-0.03, 22.0)),
}
# ETSI TR 125 943: delays in nanoseconds and powers in dB
COST = {
    "URBAN": ("0 217 512 514 517 674 882 1230 1287 1311 1349 1533 1535 1622 1818 1836 1884 1943 2048 2140",
              "-5.7 -7.6 -10.1 -10.2 -10.2 -11.5 -13.4 -16.3 -16.9 -17.1 -17.4 -19 -19 -19.8 -21.5 -21.6 -22.1 -22.6 -23.5 -24.3"),
    "RURAL": ("0 42 101 129 149 245 312 410 469 528", "-5.2 -6.4 -8.4 -9.3 -10 -13.1 -15.3 -18.5 -20.4 -22.4"),
    "HILLY": ("0 356 441 528 546 609 625 842 916 941 15000 16172 16492 16876 16882 16978 17615 17827 17849 18016",
              "-3.6 -8.9 -10.2 -11.5 -11.8 -12.7 -13 -16.2 -17.3 -17.7 -17.6 -22.7 -24.1 -25.8 -25.8 -26.2 -29 -29.9 -30 -30.7"),
}
CUSTOM = {
    "rayleigh": ([0.0], [1.0], [0.0]),
    "los": ([2e-7], [0.5], [INF]),
    "rice": ([0.0, 1.5e-7, 3.2e-7], [1.0, 0.5, 0.25], [2.0, 0.0, INF]),
    "unsorted": ([3.2e-7, 0.0, 1.5e-7, 1.5e-7], [0.25, 1.0, 0.5, 0.0], [0.5, 4.0, 0.0, 1.0]),
}


def floats(text):
    return np.array([float(x) for x in text.split()])


def linear(db):
    return 10 ** (np.asarray(db) / 10)


class Model:
    """A fading model: its constructor and the profile it is specified to have."""

    def __init__(self, ctor, delays, powers, rice, los_angle=None, ignores_angle=False):
        order = np.lexsort((rice, powers, delays))
        self.ctor, self.delays, self.powers, self.rice = ctor, np.asarray(delays, float)[order], np.asarray(powers, float)[order], np.asarray(rice, float)[order]
        self.los_angle, self.ignores_angle = los_angle, ignores_angle


def tdl(name, rms):
    d, p, los = PROFILES[name]
    d, p = floats(d) * rms, linear(floats(p))
    k = np.zeros(len(d))
    if los:
        p[0] += linear(los[0])
        k[0] = linear(los[1])
    return Model(lambda **kw: TDL(getattr(TDLType, name), rms, **kw), d, p / p.sum(), k, np.arccos(0.7) if los else None)


def cost(name):
    d, p = map(floats, COST[name])
    p = linear(p)
    k = np.zeros(len(d))
    if name == "HILLY":
        k[0] = INF
    return Model(lambda **kw: Cost259(getattr(Cost259Type, name), **kw), d * 1e-9, p / p.sum(), k, np.arccos(0.7) if name == "HILLY" else None, name == "HILLY")


def custom(name):
    d, p, k = CUSTOM[name]
    return Model(lambda **kw: MultipathFadingChannel(list(d), list(p), list(k), **kw), d, p, k)


def model(name):
    kind, arg, *more = name.split()
    if kind == "tdl":
        return tdl(arg, float(more[0]))
    return cost(arg) if kind == "cost259" else custom(arg)


NAMES = ["custom " + n for n in CUSTOM] + ["cost259 " + n for n in COST] + ["tdl %s %s" % (n, r) for n in PROFILES for r in ("0", "1e-7")]


def correlation(name):
    if name is None:
        return None
    if name == "custom":
        return CustomAntennaCorrelation(matrix(4))
    return StandardAntennaCorrelation(getattr(CorrelationType, name))


def covariance(name, n, transmit):
    """Covariance matrices as specified by 3GPP TS 36.101 B.2.3 and by the user."""
    if name is None:
        return np.eye(n)
    if name == "custom":
        return matrix(4)[:n, :n]
    f = getattr(CorrelationType, name).value[0 if transmit else 1]
    e = {1: [0], 2: [0, 1], 4: [0, 1 / 9, 4 / 9, 1]}[n]
    return np.array([[f ** e[abs(i - j)] if i != j else 1.0 for j in range(n)] for i in range(n)])


def apply(params, channel):
    for k, v in params.items():
        setattr(channel, k, correlation(v) if k == "antenna_correlation" else v)
    return channel


def keywords(params):
    return {k: correlation(v) if k == "antenna_correlation" else v for k, v in params.items()}


def los_frequency(p):
    f = p.get("los_doppler_frequency")
    return p.get("doppler_frequency", 0.0) if f is None else f


def reference(m, c, s, p, g, num, taps, time, bw, nt, nr):
    """Channel state by the documented sum of sinusoids over the phases and angles of a sample."""
    n = p.get("num_sinusoids", 20)
    t = time + np.arange(num) / bw
    siso = np.zeros((num, taps), complex)
    k = np.arange(1, n + 1)
    for l in range(len(m.delays)):
        rice, power, delay = c.rice_factors[l], c.power_profile[l], c.delays[l]
        los = 1.0 if rice == INF else rice / (1 + rice)
        h = np.sqrt(los) * np.exp(1j * (t * los_frequency(p) * np.cos(s.los_angles[l]) + s.los_phases[l]))
        for i in range(n):
            h = h + np.sqrt((1 - los) / n) * np.exp(1j * (t * p.get("doppler_frequency", 0.0) * np.cos((2 * np.pi * k[i] + s.nlos_angles[l, i]) / n) + s.nlos_phases[l, i]))
        d = int(np.rint(delay * bw))
        if d < taps:
            siso[:, d] += np.sqrt(p.get("gain", 1.0) * power) * h
    cor = p.get("antenna_correlation")
    space = covariance(cor, nr, False) @ g @ covariance(cor, nt, True)
    return np.einsum("rt,sl->rtsl", space, siso)


def check_profile(acc, name):
    m = model(name)
    for kw in ({}, {"num_sinusoids": 3, "gain": 0.5}):
        c = m.ctor(seed=1, **kw)
        acc.step()
        order = np.lexsort((c.rice_factors, np.round(c.power_profile, 12), np.round(c.delays, 15)))
        mine = np.lexsort((m.rice, np.round(m.powers, 12), np.round(m.delays, 15)))
        for what, got, want in (("delays", c.delays, m.delays), ("powers", c.power_profile, m.powers), ("Rice factors", c.rice_factors, m.rice)):
            expect(got.shape == want.shape, "%d %s instead of %d", len(got), what, len(want))
            fin = np.isfinite(want[mine])
            expect(np.array_equal(np.isfinite(got[order]), fin) and np.allclose(got[order][fin], want[mine][fin], rtol=1e-9, atol=1e-16), "%s %s instead of %s", what, got[order], want[mine])
        expect(np.all(np.diff(c.delays) >= 0), "delays not in order")
        expect(c.num_resolvable_paths == len(m.delays) and c.max_delay == c.delays.max(), "number of paths and maximum delay")
        if not name.startswith("custom"):
            expect(abs(c.power_profile.sum() - 1) < 1e-9, "power profile sums to %g", c.power_profile.sum())
        if name.startswith("tdl"):
            p, d = c.power_profile, c.delays
            rms = np.sqrt(max((p * d * d).sum() - (p * d).sum() ** 2, 0))
            expect(abs(rms - c.rms_delay) <= 0.01 * c.rms_delay, "delay spread %g instead of %g", rms, c.rms_delay)
        s = c.realize().sample(device("D", A), device("D", B, seed=2), 0.0, F, BW)
        e = kw.get("gain", 1.0) * c.power_profile.sum()
        expect(abs(s.expected_energy_scale - e) <= 1e-12 * e, "expected energy scale %g instead of %g", s.expected_energy_scale, e)


def check_exponential(acc, tap, rms):
    acc.step()
    c = Exponential(tap, rms, seed=1)
    expect((c.tap_interval, c.rms_delay) == (tap, rms), "parameters")
    p, d = c.power_profile, c.delays
    expect(np.allclose(d, tap * np.arange(len(d)), rtol=1e-12, atol=0) and p[0] == 1, "delays %s", d)
    expect(np.all(c.rice_factors == 0), "Rice factors")
    if len(p) > 1:
        expect(np.allclose(p[1:] / p[:-1], p[1] / p[0], rtol=1e-9), "decay isn't exponential")
        expect(p[-1] >= 0.99e-5 and p[-1] * p[1] <= 1.01e-5, "truncated at %g", p[-1])
    q = p / p.sum()
    spread = np.sqrt(max((q * d * d).sum() - (q * d).sum() ** 2, 0))
    if rms >= 0.25 * tap:
        expect(abs(spread - rms) <= 0.01 * rms, "delay spread %g instead of %g", spread, rms)


def sample(c, spec, time, bw=BW):
    a, b, nt, nr = link(spec)
    return c.realize().sample(device(a, A), device(b, B, seed=2), time, F, bw)


def check_state(acc, name, params, how, spec, time, bw):
    p = dict(params)
    m = model(name)
    if name.split()[:2] in (["tdl", "D"], ["tdl", "E"]) and p.get("los_doppler_frequency") is not None:
        if how == "ctor":
            acc.step()
            try:
                m.ctor(seed=1, **keywords(p))
            except ValueError:
                return
            expect(False, "line of sight Doppler frequency accepted")
        how = "set"
    c = apply(p, m.ctor(seed=1)) if how == "set" else m.ctor(seed=1, **keywords(p))
    if how == "restored":
        c = roundtrip(c)
        c.seed = 1
    for k, v in p.items():
        if k == "antenna_correlation" or (k == "los_angle" and m.ignores_angle and how != "set"):
            continue
        want = los_frequency(p) if k == "los_doppler_frequency" else v
        if k == "los_angle" and v is None and m.los_angle is not None and how != "set":
            want = m.los_angle
        expect(getattr(c, k) == want, "%s is %s instead of %s", k, getattr(c, k), want)
    _, _, nt, nr = link(spec)
    s = sample(c, spec, time, bw)
    acc.step()
    q = {k: v for k, v in p.items() if k != "antenna_correlation"}
    g = sample(m.ctor(seed=1, **keywords({k: v for k, v in q.items() if k != "los_doppler_frequency"})), spec, 0.0).spatial_response[:nr, :nt]
    expect(np.allclose(np.abs(g), 1), "uncorrelated antennas aren't of unit gain")
    n = p.get("num_sinusoids", 20)
    angle = p.get("los_angle")
    if how != "set" and m.los_angle is not None and (angle is None or m.ignores_angle):
        angle = m.los_angle
    if how == "set" and "los_angle" not in p:
        angle = m.los_angle
    l = len(m.delays)
    for what, v, shape in (("los_angles", s.los_angles, (l,)), ("los_phases", s.los_phases, (l,)), ("nlos_angles", s.nlos_angles, (l, n)), ("nlos_phases", s.nlos_phases, (l, n))):
        expect(v.shape == shape, "%s of dimensions %s instead of %s", what, v.shape, shape)
        expect(np.all((v >= -np.pi) & (v <= 2 * np.pi)), "%s beyond a circle", what)
        if what != "los_angles" and v.size > 1:
            expect(len(np.unique(v)) == v.size, "%s repeat", what)
    if angle is not None:
        expect(np.allclose(s.los_angles, angle), "line of sight angles %s instead of %s", s.los_angles, angle)
    num = 4
    taps = 1 + int(round(m.delays.max() * bw))
    h = s.state(num, 100000).dense_state()
    want = reference(m, c, s, p, g, num, taps, time, bw, nt, nr)
    expect(h.shape == want.shape, "state of dimensions %s instead of %s", h.shape, want.shape)
    scale = np.abs(want).max()
    expect(np.abs(h - want).max() <= 1e-7 * scale, "state off by %g of %g", np.abs(h - want).max(), scale)
    acc.state(name, how, spec, sorted(p))


SETTINGS = {
    "num_sinusoids": (1, 2, 8),
    "los_angle": (None, 0.0, 2.0),
    "doppler_frequency": (0.0, 3e5, -1e6),
    "los_doppler_frequency": (None, 0.0, 2e6),
    "gain": (0.25, 4.0),
    "antenna_correlation": (None, "custom", "HIGH", "MEDIUM_A"),
    "correlation_distance": (INF, 10.0),
}


def same(a, b, what):
    for x in ("los_angles", "nlos_angles", "los_phases", "nlos_phases"):
        v, w = getattr(a, x), getattr(b, x)
        expect(v.shape == w.shape and np.array_equal(v, w), "%s: %s differ", what, x)
    h, g = (s.state(3, 1000).dense_state() for s in (a, b))
    expect(h.shape == g.shape and np.allclose(h, g, rtol=1e-9, atol=1e-12), "%s: states differ", what)


def check_history(acc, name, ops):
    """Any sequence of changes and draws equals a channel constructed with the final configuration."""
    m = model(name)
    c = m.ctor(seed=1, doppler_frequency=1e5, num_sinusoids=3)
    p = {"doppler_frequency": 1e5, "num_sinusoids": 3}
    drawn = []
    tx, rx = device("DD", A), device("DD", B, seed=2)

    def draw(r, time=1e-6):
        return r.sample(tx, rx, time, F, BW)

    for o in ops:
        acc.step()
        if o == "realize":
            r = c.realize()
            drawn.append((r, draw(r)))
        elif o == "seed":
            c.seed = 1
            drawn.append(None)
        else:
            setattr(c, o[0], correlation(o[1]) if o[0] == "antenna_correlation" else o[1])
            p[o[0]] = o[1]
        acc.state(name, sorted((k, str(v)) for k, v in p.items()), len(drawn))
    for i, d in enumerate(drawn):
        if d is not None:
            same(draw(d[0]), d[1], "draw %d after %s" % (i, ops))
    c.seed = 1
    twin = m.ctor(seed=1, **keywords(p))
    for i in range(2):
        same(draw(c.realize()), draw(twin.realize()), "draw %d" % i)


def check_time(acc, name, params, k, bw):
    """The channel at a later time is the continuation of the channel before."""
    c = model(name).ctor(seed=1, **keywords(dict(params)))
    r = c.realize()
    tx, rx = device("DD", A), device("D", B, seed=2)
    acc.step(2)
    a = r.sample(tx, rx, 0.0, F, bw).state(k + 5, 1000).dense_state()[:, :, k:]
    b = r.sample(tx, rx, k / bw, F, bw).state(5, 1000).dense_state()
    expect(a.shape == b.shape and np.allclose(a, b, rtol=1e-7, atol=1e-9), "state at %g s isn't the continuation of the one at 0 s", k / bw)
    x = r.sample(tx, rx, k / bw, F, bw)
    acc.step()
    expect(np.array_equal(x.state(5, 1000).dense_state(), b), "states differ")


def check_covariance(acc, name, n, mode):
    acc.step()
    c = correlation(name)
    state = device("D" * n, A).state(0.0).antennas
    try:
        r = c.sample_covariance(state, mode)
    except (RuntimeError, ValueError):
        expect(n > 4 if name == "custom" else n not in (1, 2, 4), "%d antennas rejected", n)
        return
    expect(n <= 4 if name == "custom" else n in (1, 2, 4), "%d antennas accepted", n)
    w = covariance(name, n, mode == AntennaMode.TX)
    expect(r.shape == (n, n) and np.allclose(r, w), "covariance %s instead of %s", r, w)
    expect(np.allclose(r, r.conj().T) and np.linalg.eigvalsh(r).min() > -1e-12, "covariance isn't positive semidefinite")
    if name != "custom":
        s = roundtrip(c)
        expect(s.correlation is c.correlation, "restored correlation %s", s.correlation)
    else:
        expect(np.array_equal(roundtrip(c).covariance, c.covariance), "restored covariance")


REJECTED = [
    lambda: MultipathFadingChannel([], [], []), lambda: MultipathFadingChannel([0.0], [1.0, 1.0], [0.0]), lambda: MultipathFadingChannel([0.0, 1.0], [1.0, 1.0], [0.0]),
    lambda: MultipathFadingChannel([-1e-9], [1.0], [0.0]), lambda: MultipathFadingChannel([0.0], [-1.0], [0.0]), lambda: MultipathFadingChannel([0.0], [1.0], [-1.0]),
    lambda: MultipathFadingChannel(np.zeros((1, 1)), np.ones((1, 1)), np.zeros((1, 1))), lambda: MultipathFadingChannel([0.0], [1.0], [0.0], correlation_distance=-1.0),
    lambda: TDL(TDLType.A, -1e-9), lambda: TDL(17), lambda: Cost259(17), lambda: Exponential(0.0, 1e-8), lambda: Exponential(-1e-8, 1e-8), lambda: Exponential(1e-8, 0.0), lambda: Exponential(1e-8, -1.0),
    lambda: setattr(model("custom rice").ctor(), "num_sinusoids", -1), lambda: CustomAntennaCorrelation(np.array([[1, 0.5], [0.4, 1]])), lambda: CustomAntennaCorrelation(np.array([[1.0, 2.0], [2.0, 1.0]])),
    lambda: CustomAntennaCorrelation(np.ones(3)),
]


def check_rejected(acc, i):
    acc.step()
    try:
        REJECTED[i]()
    except ValueError:
        return
    expect(False, "invalid parameters %d accepted", i)


KINDS = {"profile": check_profile, "exponential": check_exponential, "state": check_state, "history": check_history, "time": check_time, "covariance": check_covariance, "rejected": check_rejected}


def run_cases(acc, shard):
    for c in shard:
        acc.run(c[0], lambda: KINDS[c[0]](acc, *c[1:]), case=c)


def main(check):
    t = check.thorough
    cases = [("profile", n) for n in NAMES + (["tdl %s %s" % (n, r) for n in PROFILES for r in ("3e-6", "1e-9")] if t else [])]
    taps = (1e-9, 1e-8, 5e-8, 1e-6)
    cases += [("exponential", a, b) for a in taps for b in (1e-9, 2.5e-9, 1e-8, 3e-8, 5e-8, 1e-7, 1e-6) if b <= 300 * a]
    # Every pair of settings, every way of configuring them
    singles = [(k, v) for k in SETTINGS for v in SETTINGS[k]]
    sets = [()] + [(s,) for s in singles] + [(a, b) for a, b in itertools.combinations(singles, 2) if a[0] != b[0]]
    if t:
        sets += [x for x in itertools.combinations(singles, 3) if len({k for k, _ in x}) == 3]
    hows = ("ctor", "set", "restored")
    few = ("custom rice", "custom unsorted", "tdl D 1e-7", "cost259 HILLY")
    for n in few if not t else few + ("custom los", "tdl E 1e-7", "tdl B 1e-7"):
        for x in sets:
            for how in hows:
                cases.append(("state", n, x, how, "DD:DD", 0.0, BW))
    full = (("doppler_frequency", 3e5), ("los_doppler_frequency", 2e6), ("gain", 0.25), ("num_sinusoids", 2))
    for n in NAMES:
        for how in hows:
            for spec in ("D:D", "DD:D", "D:DD", "TDR:RD", "DDDD:DD"):
                for time in (0.0, 1.23e-5):
                    for bw in (BW, 3.3e6):
                        cases.append(("state", n, full + ((("antenna_correlation", "HIGH"),) if spec != "TDR:RD" else ()), how, spec, time, bw))
    for n in NAMES:
        for x in ((("doppler_frequency", 3e5),), (("doppler_frequency", -1e6), ("num_sinusoids", 1)), (("doppler_frequency", 0.0),), (("doppler_frequency", 1e5), ("los_angle", 0.4), ("antenna_correlation", "custom"))):
            for k in (0, 1, 7, 64):
                for bw in (BW, 1e6):
                    cases.append(("time", n, x, k, bw))
    ops = ["realize", "seed"] + [(k, SETTINGS[k][-1]) for k in SETTINGS] + [("num_sinusoids", 1), ("los_doppler_frequency", None), ("los_angle", 0.0), ("antenna_correlation", None)]
    for h in histories(ops, 3 if t else 2):
        cases.append(("history", "custom rice", h))
    small = ["realize", ("num_sinusoids", 1), ("num_sinusoids", 5), ("doppler_frequency", 3e5), ("gain", 4.0)]
    cases += [("history", "custom rice", h) for h in histories(small, 5 if t else 4, 3)]
    cases += [("covariance", n, k, m) for n in ["custom"] + [x.name for x in CorrelationType] for k in (1, 2, 3, 4, 5) for m in (AntennaMode.TX, AntennaMode.RX)]
    cases += [("rejected", i) for i in range(len(REJECTED))]
    check.explore(run_cases, chunks(cases, 256), case_timeout=120)
    check.bounds = {"models": len(NAMES), "settings": len(sets), "depth of histories": 3 if t else 2, "depth of histories of the core": 5 if t else 4, "cases": len(cases)}
    check.assumptions = ["phases and angles are the ones each sample reports, their distribution isn't decided", "Doppler shifts are those of the documented equation"]
