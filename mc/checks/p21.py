"""P21: radar cubes, detectors and point clouds locate the echoes that were received."""
import itertools

import numpy as np

from hermespy.beamforming import CaponBeamformer, ConventionalBeamformer
from hermespy.channel import FixedCrossSection, MultiTargetRadarChannel, VirtualRadarTarget
from hermespy.core import AntennaMode, DenseSignal, Signal, Transformation
from hermespy.jcas import MatchedFilterJcas, OFDMRadar
from hermespy.modem import ElementType, GridElement, GridResource, OFDMWaveform, RootRaisedCosineWaveform, SymbolSection
from hermespy.radar import FMCW, CFARDetector, MaxDetector, PointDetection, Radar, RadarCube, RadarPointCloud, ThresholdDetector
from hermespy.simulation import SimulatedCustomArray, SimulatedDevice, SimulatedIdealAntenna, StaticTrajectory
from ..core import chunks, expect, histories

C = 299792458.0
ARRAYS = {
    "single": [(0, 0, 0)],
    "line": [(0, y, 0) for y in range(4)],
    "square": [(x, y, 0) for x in range(3) for y in range(3)],
    "sparse": [(0, 0, 0), (0.7, 0.2, 0), (0.1, 1.3, 0.4), (1.9, 0.8, -0.6), (1.1, 2.3, 0.9)],
}
ANGLES = np.array([(0.0, 0.0), (0.3, 0.5), (1.1, 0.8), (2.5, 0.4), (-2.0, 1.0)])


def unit(azimuth, zenith):
    return np.array([np.cos(azimuth) * np.sin(zenith), np.sin(azimuth) * np.sin(zenith), np.cos(zenith)])


def device(array="single", carrier=1e9, bandwidth=1e6, oversampling=1, duplex=True):
    """Device whose first antenna transmits and whose antennas all receive."""
    modes = [AntennaMode.DUPLEX if duplex or not i else AntennaMode.RX for i in range(len(ARRAYS[array]))]
    antennas = [SimulatedIdealAntenna(m, Transformation.From_Translation(np.array(p, dtype=float) * C / carrier / 2)) for m, p in zip(modes, ARRAYS[array])]
    return SimulatedDevice(carrier_frequency=carrier, bandwidth=bandwidth, oversampling_factor=oversampling, antennas=SimulatedCustomArray(antennas))


def response(array, angles):
    return np.exp(1j * np.pi * (np.array(ARRAYS[array], dtype=float) @ unit(*angles)))


def close(a, b, msg, *args, tol=1e-9):
    a, b = np.asarray(a), np.asarray(b)
    expect(a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * max(1.0, np.abs(b).max(initial=0.0)))), msg + ": %r instead of %r", *args, a, b)


# Detectors


def grid(shape, order=0):
    """Distinct angle, Doppler and range bins of a cube."""
    a, d, r = shape
    angles = np.array([(0.2 + 0.9 * i, 1.3 - 0.7 * i) for i in range(a)])
    return angles, (np.arange(d) - d // 2) * 25.0, 3.0 + 2.0 * np.arange(r)


def check_cloud(cloud, cube, wanted, note):
    """The cloud consists of exactly the wanted bins of a cube, at their positions and velocities."""
    expect(isinstance(cloud, RadarPointCloud) and cloud.num_points == len(cloud.points) == len(wanted), "%s: %d points detected instead of %d", note, cloud.num_points, len(wanted))
    expect(cloud.max_range == cube.range_bins.max(), "%s: cloud of range %s instead of %s", note, cloud.max_range, cube.range_bins.max())
    left = list(cloud.points)
    for a, d, r in wanted:
        direction = unit(*cube.angle_bins[a])
        velocity = cube.doppler_bins[d] * C / cube.carrier_frequency
        for p in left:
            if np.allclose(p.position, cube.range_bins[r] * direction, atol=1e-9) and np.allclose(p.velocity, velocity * direction, atol=1e-9) and p.power == cube.data[a, d, r]:
                left.remove(p)
                break
        else:
            expect(False, "%s: no point at angles %s, range %s and velocity %s", note, cube.angle_bins[a], cube.range_bins[r], velocity)


def max_detector(acc, case):
    _, shape, values, carrier = case
    data = np.array(values, dtype=float).reshape(shape)
    cube = RadarCube(data.copy(), *grid(shape), carrier)
    acc.state(case)
    cloud = MaxDetector().detect(cube)
    top = data.max()
    if top <= 0:
        return check_cloud(cloud, cube, [], "powerless cube")
    expect(cloud.num_points == 1, "%d maxima detected", cloud.num_points)
    hits = [tuple(i) for i in np.argwhere(data == top)]
    for h in hits:
        try:
            return check_cloud(cloud, cube, [h], "maximum")
        except Exception as e:
            error = e
    raise error


def threshold(acc, case):
    _, shape, values, level, normalize, peaks = case
    data = np.array(values, dtype=float).reshape(shape)
    cube = RadarCube(data.copy(), *grid(shape), 1e9)
    detector = ThresholdDetector(level, normalize, peaks)
    acc.state(case)
    expect((detector.min_power, detector.normalize, detector.peak_detection) == (level, normalize, peaks), "configuration of the threshold detector changed")
    cloud = detector.detect(cube)
    top = data.max()
    scaled = data / top if normalize and top > 0 else data
    wanted = []
    for cell in np.ndindex(*shape):
        if scaled[cell] < level:
            continue
        if peaks:
            steps = [tuple(np.add(cell, s)) for s in ((1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0), (0, 0, 1), (0, 0, -1))]
            if any(all(0 <= x < n for x, n in zip(s, shape)) and data[s] > data[cell] for s in steps):
                continue
        wanted.append(cell)
    check_cloud(cloud, cube, wanted, "threshold %s" % level)
    expect(np.array_equal(cube.data, data), "detection modified the cube")
    # Reconfigured detectors behave like new ones
    other = ThresholdDetector(0.9, normalize, not peaks)
    other.min_power, other.peak_detection = level, peaks
    check_cloud(other.detect(cube), cube, wanted, "reconfigured threshold %s" % level)


def cfar(acc, case):
    _, shape, training, guard, pfa, floor, targets = case
    data = np.full(shape, floor)
    for cell, power in targets:
        data[cell] += power
    cube = RadarCube(data.copy(), *grid(shape), 1e9)
    detector = CFARDetector(training, guard, pfa)
    acc.state(case)
    reach = (training[0] + guard[0], training[1] + guard[1])
    if any(2 * w + 1 > n for w, n in zip(reach, shape[1:])):
        try:
            detector.detect(cube)
        except ValueError:
            return
        expect(False, "window larger than the cube was accepted")
    wanted, borderline = [], []
    for a, d, r in np.ndindex(*shape):
        cells = [data[a, i, j] for i in range(max(0, d - reach[0]), min(shape[1], d + reach[0] + 1)) for j in range(max(0, r - reach[1]), min(shape[2], r + reach[1] + 1)) if abs(i - d) > guard[0] or abs(j - r) > guard[1]]
        limit = (pfa ** (-1 / len(cells)) - 1) * sum(cells)
        if limit > 0 and abs(data[a, d, r] - limit) < 1e-9:
            borderline.append((a, d, r))
        elif data[a, d, r] > limit:
            wanted.append((a, d, r))
    if borderline:
        acc.count("borderline")
        return
    check_cloud(detector.detect(cube), cube, wanted, "cfar")
    other = CFARDetector((1, 1), (0, 0), 0.5)
    other.num_training_cells, other.num_guard_cells, other.pfa = training, guard, pfa
    check_cloud(other.detect(cube), cube, wanted, "reconfigured cfar")


def cubes(acc, case):
    _, shape, angles, doppler, ranges, carrier = case
    data = np.arange(np.prod(shape), dtype=float).reshape(shape) + 1
    bins = [None if n is None else g[:n] if n <= len(g) else np.concatenate((g, g))[:n] for n, g in zip((angles, doppler, ranges), grid((3, 3, 3)))]
    acc.state(case)
    valid = carrier >= 0 and (shape[0] == 1 if angles is None else angles == shape[0]) and (shape[1] == 1 if doppler is None else doppler == shape[1]) and (ranges is None or ranges == shape[2])
    try:
        cube = RadarCube(data.copy(), *bins, carrier)
    except ValueError:
        expect(not valid, "valid cube was rejected")
        return
    expect(valid, "cube with mismatching bins was accepted")
    expect(len(cube.angle_bins) == shape[0] and len(cube.doppler_bins) == shape[1] and len(cube.range_bins) == shape[2], "bins don't match the cube")
    close(cube.angle_bins, np.zeros((1, 2)) if angles is None else bins[0], "angles")
    close(cube.doppler_bins, np.zeros(1) if doppler is None else bins[1], "Doppler")
    close(cube.range_bins, np.arange(shape[2]) if ranges is None else bins[2], "ranges")
    expect(np.array_equal(cube.data, data) and cube.carrier_frequency == carrier, "cube data changed")
    try:
        close(cube.velocity_bins, cube.doppler_bins * C / carrier if carrier else None, "velocities")
        expect(carrier > 0, "velocities at an unknown carrier")
    except RuntimeError:
        expect(carrier == 0, "no velocities at a known carrier")
    cube.normalize_power()
    close(cube.data, data / data.max(), "normalized power")


def points(acc, case):
    _, azimuth, zenith, distance, velocity = case
    acc.state(case)
    p = PointDetection.FromSpherical(zenith=zenith, azimuth=azimuth, range=distance, velocity=velocity, power=2.5)
    close(p.position, distance * unit(azimuth, zenith), "position")
    close(p.velocity, velocity * unit(azimuth, zenith), "velocity")
    expect(p.power == 2.5, "power changed")
    cloud = RadarPointCloud(4.0)
    others = [PointDetection.FromSpherical(zenith, azimuth, distance + i, velocity, 1.0 + i) for i in range(3)]
    for i, o in enumerate([p] + others):
        cloud.add_point(o)
        expect(cloud.num_points == i + 1 and cloud.points[-1] is o and cloud.points[0] is p, "points of the cloud changed")


# Waveforms


def peak(power):
    return tuple(int(i) for i in np.unravel_index(np.argmax(power), power.shape))


def mirrored(found, k, num, note):
    """Peaks of Doppler bins k and -k are located symmetrically to the center."""
    wanted = {(num // 2 + k) % num, (num // 2 - k) % num}
    expect(set(found) == wanted, "%s: Doppler of %d bins found at %s of %d", note, k, found, num)


def fmcw(acc, case):
    _, num, ratio, oversampling, adc, history = case
    bandwidth, samples = 2.0e6, 60
    duration = samples / bandwidth
    waveform = FMCW(num, duration, ratio * duration, None if adc is None else adc * bandwidth)
    if history:
        # Reconfigure another waveform instead of creating it
        other = FMCW(4, 0.5 * duration, 3 * duration, 0.25 * bandwidth)
        state = device(bandwidth=bandwidth, oversampling=oversampling).state()
        other.estimate(other.ping(state), state)
        for field in history:
            setattr(other, field, getattr(waveform, field))
        waveform = other
    state = device(bandwidth=bandwidth, oversampling=oversampling).state()
    rate = bandwidth * oversampling
    acc.state(case)
    pulse = int(round(ratio * duration * rate))
    ping = waveform.ping(state)
    frame = ping.view(np.ndarray)[0]
    expect(ping.num_streams == 1 and ping.sampling_rate == rate, "ping of %d streams and rate %s", ping.num_streams, ping.sampling_rate)
    expect(ping.num_samples == waveform.samples_per_frame(bandwidth, oversampling), "ping of %d samples instead of %d", ping.num_samples, waveform.samples_per_frame(bandwidth, oversampling))
    close(waveform.frame_duration(bandwidth), num * ratio * duration, "frame duration")
    expect(abs(ping.num_samples - num * pulse) <= num, "ping of %d samples instead of %d", ping.num_samples, num * pulse)
    close(np.sum(np.abs(frame) ** 2), waveform.energy(bandwidth, oversampling), "energy")
    close(max(np.abs(frame)), np.sqrt(waveform.power), "power")
    pulse = ping.num_samples // num
    frames = frame.reshape((num, pulse))
    expect(bool(np.all(frames == frames[0])), "chirps of a frame differ")

    # Bins
    extent = (bandwidth if adc is None else adc * bandwidth) * C * duration / (2 * bandwidth)
    close(waveform.max_range(bandwidth), extent, "maximum range")
    close(waveform.range_resolution(bandwidth), C / (2 * bandwidth), "range resolution")
    ranges = waveform.range_bins(bandwidth)
    expect(abs(len(ranges) - extent / (C / (2 * bandwidth))) <= 1, "%d range bins", len(ranges))
    # Float truncation may stretch the bins by a single one
    close(ranges, np.arange(len(ranges)) * extent / len(ranges), "range bins")
    close(waveform.relative_doppler_resolution, 0.5 / (num * ratio * duration), "Doppler resolution")
    close(waveform.max_relative_doppler, 0.25 / (ratio * duration), "maximum Doppler")
    close(waveform.relative_doppler_bins, (np.arange(num) - num // 2) * 0.5 / (num * ratio * duration), "Doppler bins")

    # Every resolvable echo within the anti-aliasing filter's passband
    reached = int(0.35 * len(ranges))
    for r in range(reached):
        delay = r * oversampling
        for k in range((num + 1) // 2):
            found = []
            for sign in (1, -1):
                phases = np.exp(2j * np.pi * sign * k / num * np.arange(num))
                echo = 0.1j * np.concatenate((np.zeros(delay), (phases[:, None] * frames).reshape(-1)))
                if r % 3 == 1:
                    echo = echo[: num * pulse]
                estimate = waveform.estimate(DenseSignal.FromNDArray(echo[None, :], rate, 1e9), state)
                acc.step()
                expect(estimate.shape == (num, len(ranges)) and bool(np.all(estimate >= 0)), "estimate of shape %s", estimate.shape)
                d, i = peak(estimate)
                expect(abs(ranges[i] - r * C / (2 * bandwidth)) <= 1.01 * C / (2 * bandwidth) * (1 if adc or ratio == 1.0 else 0.51), "echo from %s m found at %s m", r * C / (2 * bandwidth), ranges[i])
                found.append(d)
            mirrored(found, k, num, "range bin %d" % r)
    # Silence
    silent = waveform.estimate(DenseSignal.FromNDArray(np.zeros((1, 7), dtype=complex), rate, 1e9), state)
    expect(silent.shape == (num, len(ranges)) and not silent.any(), "echoes within silence")


def echo_of(array, samples, a, delay, tail):
    """Streams received from a transmitted signal reflected at a direction."""
    line = np.concatenate((np.zeros(delay), samples, np.zeros(tail)))
    return response(array, ANGLES[a])[:, None] * line[None, :]


BEAMFORMERS = {"conventional": ConventionalBeamformer, "capon": lambda: CaponBeamformer(loading=1e-3)}


def radar(acc, case):
    _, array, kind, oversampling, min_range, detector, order = case
    bandwidth, num = 2.0e6, 4
    d = device(array, 1e9, bandwidth, oversampling, duplex=False)
    state = d.state()
    waveform = FMCW(num, 60 / bandwidth, 75 / bandwidth)
    points = ANGLES[list(order)]
    r = Radar(waveform=waveform, min_range=min_range)
    if kind is not None:
        r.receive_beamformer = BEAMFORMERS[kind]()
        r.receive_beamformer.probe_focus_points = points[:, None, :]
    r.detector = {None: None, "max": MaxDetector(), "threshold": ThresholdDetector(0.999), "cfar": CFARDetector((1, 2), (0, 1), 1e-4)}[detector]
    r.carrier_frequency = 1e9
    acc.state(case)
    ranges = waveform.range_bins(bandwidth)
    kept = ranges[ranges >= min_range]
    expect(r.max_range(bandwidth) == waveform.max_range(bandwidth) and r.power == waveform.power and r.samples_per_frame(bandwidth, oversampling) == waveform.samples_per_frame(bandwidth, oversampling), "radar's parameters don't match its waveform")
    full = Radar(waveform=waveform, receive_beamformer=r.receive_beamformer)
    frame = r.transmit(state).signal
    close(frame.view(np.ndarray), waveform.ping(state).view(np.ndarray), "transmission")
    for a, bin in itertools.product(range(len(points)) if kind else (0,), (0, 3, 8, 20)):
        streams = echo_of(array, frame.view(np.ndarray)[0], order[a], bin * oversampling, 3)
        signal = Signal.Create(streams, frame.sampling_rate, 1e9)
        reception = r.receive(signal, state)
        acc.step()
        cube = reception.cube
        expect(cube.data.shape == (len(points) if kind else 1, num, len(kept)), "cube of shape %s", cube.data.shape)
        close(cube.angle_bins, points if kind else np.zeros((1, 2)), "angle bins")
        close(cube.range_bins, kept, "range bins")
        close(cube.doppler_bins, waveform.relative_doppler_bins, "Doppler bins")
        expect(cube.carrier_frequency == 1e9, "carrier %s", cube.carrier_frequency)
        complete = full.receive(signal, state).cube
        close(cube.data, complete.data[:, :, ranges >= min_range], "cube beyond the minimal range")
        where = peak(complete.data)
        if len(ARRAYS[array]) > 1:
            expect(where == (a, num // 2, bin), "echo of direction %d and range %d found at %s", a, bin, where)
        else:
            expect(where[1:] == (num // 2, bin), "echo of range %d found at %s", bin, where)
            close(complete.data, np.repeat(complete.data[:1], len(complete.data), axis=0), "single antenna's directions")
            line = waveform.estimate(DenseSignal.FromNDArray(streams, frame.sampling_rate, 1e9), state)
            close(complete.data[0], line, "single antenna's estimate")
        if detector is None:
            expect(reception.cloud is None, "point cloud without a detector")
        else:
            direct = r.detector.detect(cube)
            expect(reception.cloud.num_points == direct.num_points and all(p == q for p, q in zip(reception.cloud.points, direct.points)), "cloud doesn't match its detector")
            if detector == "max" and min_range == 0:
                p = reception.cloud.points[0]
                close(p.position, ranges[bin] * (unit(*points[a]) if len(ARRAYS[array]) > 1 else unit(*cube.angle_bins[where[0]])), "detected position")
                close(p.velocity, np.zeros(3), "detected velocity")


def misuse(acc, case):
    kind = case[1]
    acc.state(case)
    w = FMCW(2, 30e-6, 30e-6)
    many, one = device("line", bandwidth=2e6).state(), device(bandwidth=2e6).state()
    wide = device("line", bandwidth=2e6, duplex=True).state()
    signal = lambda n: Signal.Create(np.ones((n, 120), dtype=complex), 2e6, 1e9)

    def raises(error, call):
        try:
            call()
        except error:
            return
        expect(False, "%s: no error", kind)

    if kind == "waveform":
        r = Radar()
        expect(r.max_range(1e6) == 0 and r.power == 0 and r.samples_per_frame(1e6, 1) == 0, "radar without waveform has properties")
        raises(RuntimeError, lambda: r.transmit(one))
        raises(RuntimeError, lambda: r.receive(signal(1), one))
        r.waveform = w
        expect(r.max_range(2e6) == w.max_range(2e6), "waveform set afterwards")
        r.waveform = None
        raises(RuntimeError, lambda: r.transmit(one))
    elif kind == "beamformer":
        r = Radar(waveform=w)
        raises(RuntimeError, lambda: r.receive(signal(4), many))
        r.receive_beamformer = ConventionalBeamformer()
        r.receive(signal(4), many)
    elif kind == "streams":
        raises(RuntimeError, lambda: Radar(waveform=w).transmit(wide))
    elif kind == "interval":
        bad = FMCW(2, 30e-6, 20e-6)
        raises(RuntimeError, lambda: bad.ping(one))
    elif kind == "range":
        r = Radar(waveform=w)
        raises(ValueError, lambda: setattr(r, "min_range", -1.0))
        expect(r.min_range == 0.0, "rejected minimal range was kept")
    elif kind == "history":
        raises(RuntimeError, lambda: MatchedFilterJcas(100.0, waveform=RootRaisedCosineWaveform(num_preamble_symbols=0, num_data_symbols=8, modulation_order=4)).receive(signal(1), one))
        raises(RuntimeError, lambda: OFDMRadar(ofdm(8, 2)).receive(signal(1), one))
    elif kind == "fmcw":
        for field, values in {"num_chirps": (0, -1), "chirp_duration": (0.0, -1.0), "pulse_rep_interval": (0.0, -1e-6), "adc_sampling_rate": (-1.0,)}.items():
            for v in values:
                before = getattr(w, field)
                raises(ValueError, lambda: setattr(w, field, v))
                expect(getattr(w, field) == before, "rejected %s was kept", field)
    elif kind == "matched":
        m = MatchedFilterJcas(100.0)
        for field, values in {"max_range": (0.0, -1.0), "max_velocity": (-1.0,), "velocity_resolution": (0.0, -1.0)}.items():
            for v in values:
                before = getattr(m, field)
                raises(ValueError, lambda: setattr(m, field, v))
                expect(getattr(m, field) == before, "rejected %s was kept", field)
    elif kind == "cfar":
        c = CFARDetector((1, 2), (0, 1), 0.1)
        for field, values in {"num_training_cells": ((0, 1), (1, -1), (1,), 3, (1.5, 1)), "num_guard_cells": ((-1, 1), (1,), 3, (1.5, 1)), "pfa": (-0.1, 1.1)}.items():
            for v in values:
                before = getattr(c, field)
                raises(ValueError, lambda: setattr(c, field, v))
                expect(getattr(c, field) == before, "rejected %s was kept", field)


MISUSES = ("waveform", "beamformer", "streams", "interval", "range", "history", "fmcw", "matched", "cfar")


def ofdm(subcarriers, words, suppression=False):
    return OFDMWaveform(grid_resources=[GridResource(subcarriers, prefix_ratio=0.5, elements=[GridElement(ElementType.DATA, 1)])], grid_structure=[SymbolSection(words, [0])], num_subcarriers=subcarriers, modulation_order=4, dc_suppression=suppression)


def ofdm_radar(acc, case):
    _, subcarriers, words, oversampling, array, min_range, history, suppression = case
    bandwidth = 1e6
    res = C / (2 * bandwidth)
    d = device(array, 1e9, bandwidth, oversampling, duplex=False)
    state = d.state()
    o = OFDMRadar(ofdm(subcarriers, words, suppression), min_range=min_range * res, seed=3)
    order = range(len(ANGLES))
    if array != "single":
        o.receive_beamformer = ConventionalBeamformer()
        o.receive_beamformer.probe_focus_points = ANGLES[:, None, :]
    acc.state(case)
    close(o.max_range(bandwidth), subcarriers * res, "maximum range")
    close(o.range_resolution(bandwidth), res, "range resolution")
    duration = o.frame_duration(bandwidth)
    close(duration, o.waveform.frame_duration(bandwidth), "frame duration")
    close(o.relative_doppler_resolution(bandwidth), 0.5 / duration, "Doppler resolution")
    close(o.max_relative_doppler(bandwidth), 0.25 * words / duration, "maximum Doppler")
    transmissions = [o.transmit(state) for _ in range(1 + history)]
    frame = transmissions[-1].signal.view(np.ndarray)[0]
    word = len(frame) // words
    expect(word * words == len(frame), "frame of %d samples", len(frame))
    for n in range(subcarriers // 2):
        for k in range((words + 1) // 2):
            a = (n + k) % len(ANGLES)
            found = []
            for sign in (1, -1):
                phases = np.exp(2j * np.pi * sign * k / words * np.arange(words))
                # Stop and go: every symbol is delayed, then rotated
                delayed = np.concatenate((np.zeros(n * oversampling), frame))[: len(frame)]
                samples = (delayed.reshape((words, word)) * phases[:, None]).reshape(-1)
                cube = o.receive(Signal.Create(echo_of(array, samples, a, 0, 0), bandwidth * oversampling, 1e9), state).cube
                acc.step()
                close(cube.doppler_bins, (np.arange(words) - words // 2) * 0.5 / duration, "Doppler bins")
                close(cube.range_bins, np.arange(min_range, subcarriers) * res, "range bins")
                expect(cube.data.shape == (1 if array == "single" else len(ANGLES), words, subcarriers - min_range), "cube of shape %s", cube.data.shape)
                where = peak(cube.data)
                if n >= min_range + suppression:
                    # A suppressed carrier splits the peak
                    expect((array == "single" or where[0] == a) and abs(where[2] - n + min_range) <= suppression, "echo of direction %d and range %d found at %s", a, n, where)
                    found.append(where[1])
            if n >= min_range + suppression:
                mirrored(found, k, words, "range bin %d" % n)


def matched(acc, case):
    _, name, oversampling, array, min_range, velocities, history, beams = case
    bandwidth, carrier = 1e6, 1e9
    rate = bandwidth * oversampling
    res = C / (2 * rate)
    waveform = RootRaisedCosineWaveform(num_preamble_symbols=0, num_data_symbols=40, modulation_order=4) if name == "rrc" else ofdm(16, 3)
    d = device(array, carrier, bandwidth, oversampling, duplex=beams)
    state = d.state()
    extent = 9
    m = MatchedFilterJcas((extent + 0.5) * res, waveform=waveform, min_range=min_range * res, seed=4)
    step = C / carrier / 2 * bandwidth / 20
    m.max_velocity, m.velocity_resolution = velocities * step, step * 0.9999
    angles = ANGLES if array != "single" else ANGLES[:1]
    if array != "single":
        m.receive_beamformer = ConventionalBeamformer()
        m.receive_beamformer.probe_focus_points = angles[:, None, :]
    acc.state(case)
    close(m.range_resolution(rate), res, "range resolution")
    expect(m.power == waveform.power and m.samples_per_frame(bandwidth, oversampling) == waveform.samples_per_frame(bandwidth, oversampling), "parameters don't match the waveform")
    transmissions = [m.transmit(state) for _ in range(1 + history)]
    streams = transmissions[-1].signal.view(np.ndarray)
    close(streams.shape[0], len(ARRAYS[array]) if beams else 1, "transmitted streams")
    num = 2 * velocities + 1
    for n in range(extent):
        for k in range(velocities + 1):
            a = (n + k) % len(angles)
            found = []
            for sign in (1, -1):
                sent = response(array, angles[a]) @ streams if beams else streams[0]
                doppler = sign * k * 2 * step * carrier / C
                sent = sent * np.exp(2j * np.pi * doppler * np.arange(len(sent)) / rate)
                received = echo_of(array, 0.3 * sent, a, n, extent if n % 2 else 0)
                cube = m.receive(Signal.Create(received, rate, carrier), state).cube
                acc.step()
                expect(cube.data.shape == (len(angles), num, extent - min_range), "cube of shape %s", cube.data.shape)
                close(cube.angle_bins, angles if array != "single" else np.zeros((1, 2)), "angle bins")
                close(cube.range_bins, np.arange(min_range, extent) * res, "range bins")
                close(cube.velocity_bins, (np.arange(num) - velocities) * step, "velocity bins")
                where = peak(cube.data)
                if n >= min_range:
                    expect(where[0] == a and where[2] == n - min_range, "echo of direction %d and range %d found at %s", a, n, where)
                    found.append(where[1])
                    if array == "single":
                        power = (0.3 * np.sum(np.abs(streams) ** 2)) ** 2 / streams.shape[1]
                        close(cube.data[where], power, "peak power", tol=1e-6)
            if n >= min_range:
                mirrored(found, k, num, "range %d" % n)


def scene(acc, case):
    """Target within a simulated radar channel."""
    _, oversampling, distances, a, array, num = case
    bandwidth = 10e6
    d = device(array, 1e9, bandwidth, oversampling, duplex=False)
    waveform = FMCW(num, 60 / bandwidth, 60 / bandwidth)
    r = Radar(waveform=waveform, detector=MaxDetector())
    if array != "single":
        r.receive_beamformer = ConventionalBeamformer()
        r.receive_beamformer.probe_focus_points = ANGLES[:, None, :]
    d.transmitters.add(r)
    d.receivers.add(r)
    acc.state(case)
    res = C / (2 * bandwidth)
    for distance in distances:
        channel = MultiTargetRadarChannel(attenuate=False)
        channel.add_target(VirtualRadarTarget(FixedCrossSection(1.0), trajectory=StaticTrajectory(Transformation.From_Translation(distance * res * unit(*ANGLES[a])))))
        state = d.state(0.0)
        reception = d.receive(channel.propagate(d.transmit(state), d, d), state).operator_receptions[0]
        acc.step()
        p = reception.cloud.points[0]
        direction = unit(*ANGLES[a]) if array != "single" else unit(0, 0)
        where = peak(reception.cube.data)
        expect(array == "single" or where[0] == a, "target of direction %d found at %d", a, where[0])
        error = np.linalg.norm(p.position - distance * res * direction)
        expect(error <= 1.05 * res, "target at %s m found at distance %s m", distance * res, error)
        close(p.velocity, np.zeros(3), "velocity of a static target")


CASES = {"max": max_detector, "threshold": threshold, "cfar": cfar, "cubes": cubes, "points": points, "fmcw": fmcw, "radar": radar, "misuse": misuse, "ofdm": ofdm_radar, "matched": matched, "scene": scene}


def run_cases(acc, cases):
    for case in cases:
        acc.run(case[0], lambda c=case: CASES[c[0]](acc, c), case)


def main(check):
    t = check.thorough
    cases = []
    for shape in ((1, 2, 3), (2, 1, 3), (2, 3, 1), (3, 2, 1)) + (((2, 2, 2),) if t else ()):
        n = int(np.prod(shape))
        fields = list(itertools.product((0, 1, 2), repeat=n))
        cases += [("max", shape, f, 1e9) for f in fields]
        cases += [("max", shape, tuple(x - 2 for x in f), 1e9) for f in fields[:: 1 if t else 7]]
        for level, normalize, peaks in itertools.product((0.3, 0.5, 1.0, 2.0), (False, True), (False, True)):
            if normalize and level > 1:
                continue
            cases += [("threshold", shape, f, level, normalize, peaks) for f in fields[:: 1 if t else 2] if 0 in f]
    for shape in ((1, 5, 5), (2, 5, 7), (1, 7, 5)):
        spots = list(np.ndindex(*shape))
        for training, guard in itertools.product(((1, 1), (1, 2), (2, 1)), ((0, 0), (1, 0), (0, 1), (1, 1))):
            for pfa, floor, power in itertools.product((0.01, 0.1, 0.5), (0.0, 1.0), (0.5, 3.0, 20.0)):
                for i, s in enumerate(spots):
                    if t or (i + len(cases)) % 5 == 0:
                        cases.append(("cfar", shape, training, guard, pfa, floor, ((s, power),)))
                        cases.append(("cfar", shape, training, guard, pfa, floor, ((s, power), (spots[(7 * i + 3) % len(spots)], 2.0))))
    for shape in itertools.product((1, 2, 3), repeat=3):
        for b in itertools.product((None, 1, 2), (None, 1, 2, 3), (None, 1, 3)):
            for carrier in (-1.0, 0.0, 1e9):
                cases.append(("cubes", shape) + b + (carrier,))
    cases += [("points", a, z, d, v) for a in np.linspace(-3, 3, 7) for z in np.linspace(0, 3.1, 6) for d in (0.0, 1.0, 75.0) for v in (-30.0, 0.0, 4.0)]
    fields = ("num_chirps", "chirp_duration", "pulse_rep_interval", "adc_sampling_rate")
    orders = [None] + (list(itertools.permutations(fields)) if t else [fields, fields[::-1]])
    cases += [("fmcw", num, ratio, o, adc, h) for num in ((1, 2, 3, 4, 5, 6, 7, 8) if t else (1, 2, 3, 4, 5, 6)) for ratio in (1.0, 1.1, 1.25, 2.01) for o in (1, 2, 4) for adc in (None, 0.5, 0.75, 1.0) for h in orders if h is None or t or (num in (2, 5) and ratio == 1.1) if adc is None or adc < o]
    for array, kind, o, low, det in itertools.product(ARRAYS, (None, "conventional", "capon"), (1, 2), (0.0, 100.0, 200.0), (None, "max", "threshold", "cfar")):
        if (kind is None and array != "single") or (kind == "capon" and det == "cfar"):
            continue
        for order in [(0, 1, 2, 3, 4)] + ([(2, 4, 0), (3,), (4, 3, 2, 1, 0)] if t or low == 0 else [(2, 4, 0)]):
            if t or (len(order) + o + low // 100 + len(ARRAYS[array]) + len(det or "")) % 2:
                cases.append(("radar", array, kind, o, low, det, order))
    cases += [("misuse", m) for m in MISUSES]
    cases += [("ofdm", s, w, o, array, low, h, dc) for s in (8, 12, 16) for w in ((1, 2, 3, 4, 5, 6) if t else (1, 2, 3, 4)) for o in (1, 2, 4) for array in ("single", "square", "sparse") for low in (0, 2) for h in (0, 1) for dc in (False, True) if (h == 0 or not dc) and (t or array == "single" or (s + w + o + low // 2 + h) % 3 == 0)]
    cases += [("matched", w, o, array, low, v, h, beams) for w in ("rrc", "ofdm") for o in (1, 2) for array in ("single", "square", "sparse") for low in (0, 3) for v in (0, 1, 2) for h in (0, 1) for beams in (False, True) if (array != "single" or not beams) and (t or array == "single" or (o + low // 3 + v + h + beams + (array == "square")) % 3 == 0)]
    spans = [tuple(np.arange(lo, lo + 5, 0.37 if t else 0.9)) for lo in (1, 6, 11, 16)]
    cases += [("scene", o, s, a, array, num) for o in (1, 2, 4) for s in spans for a in range(len(ANGLES)) for array in ("single", "square", "sparse") for num in (1, 4)]
    check.explore(run_cases, chunks(cases, 160), case_timeout=60)
    check.bounds = {"cases": len(cases), "cube cells": 8 if t else 6, "chirps": 8 if t else 6, "range bins": "all up to 35 % of the maximum range", "Doppler bins": "all", "directions": len(ANGLES), "OFDM subcarriers": 16}
    check.assumptions = ["targets stop while being illuminated by a chirp or symbol", "ideal isotropic antennas", "the Doppler's sign is only compared between echoes of the same waveform"]
