"""P29: moving objects follow their trajectories and device states report them."""
import itertools
import math

import numpy as np

from hermespy.core.transformation import Transformation
from hermespy.simulation.animation import BITrajectoryB, LinearTrajectory, StaticTrajectory
from hermespy.simulation.antennas import SimulatedIdealAntenna, SimulatedUniformArray
from hermespy.simulation.simulated_device import SimulatedDevice
from ..core import chunks, expect
from .p08 import close, look, mat, rot


def angle(r):
    return math.acos(max(-1.0, min(1.0, (np.trace(r) - 1) / 2)))


class Linear:
    """Linear motion: reference of poses and velocities."""

    def __init__(self, a, b, duration, start):
        self.a, self.b, self.duration, self.start = a, b, duration, start
        self.edges = [start, start + duration]
        self.end = start + duration

    def make(self):
        pa, pb = (Transformation.From_RPY(np.array(p[0]), np.array(p[1])) for p in (self.a, self.b))
        out = LinearTrajectory(pa, pb, self.duration) if self.start == 0.0 else LinearTrajectory(pa, pb, self.duration, self.start)
        pa[:3, 3] = pb[:3, 3] = 77.0  # the trajectory must not depend on its arguments
        return out

    def progress(self, t):
        return min(1.0, max(0.0, (t - self.start) / self.duration))

    def position(self, t):
        x = self.progress(t)
        return (1 - x) * np.array(self.a[1]) + x * np.array(self.b[1])

    def rotation(self, t, got):
        """The rotation is turned by a constant rate about a constant axis."""
        ra, rb = rot(self.a[0]), rot(self.b[0])
        total, x = angle(ra.T @ rb), self.progress(t)
        close(got.T @ got, np.eye(3), "orthogonality of the orientation")
        expect(abs(angle(ra.T @ got) - x * total) < 1e-6 and abs(angle(got.T @ rb) - (1 - x) * total) < 1e-6, "orientation at %s is turned by %s and %s of %s", t, angle(ra.T @ got), angle(got.T @ rb), total)

    def velocity(self, t):
        if self.start <= t < self.end:
            return (np.array(self.b[1]) - np.array(self.a[1])) / self.duration
        return np.zeros(3)


class Static:
    end = 0.0
    edges = []

    def __init__(self, a, v):
        self.a, self.v = a, v

    def make(self):
        p, v = Transformation.From_RPY(np.array(self.a[0]), np.array(self.a[1])), None if self.v is None else np.array(self.v)
        out = StaticTrajectory(p, v)
        p[:3, 3] = 77.0
        if v is not None:
            v[:] = 55.0
        return out

    def position(self, t):
        return np.array(self.a[1])

    def rotation(self, t, got):
        close(got, rot(self.a[0]), "orientation at %s" % t)

    def velocity(self, t):
        return np.zeros(3) if self.v is None else np.array(self.v)


class Letter:
    def __init__(self, height, duration):
        self.h, self.end = height, duration
        self.edges = [i * duration / 5 for i in (0, 2, 3, 4, 5)]
        self.points = [np.array(p, float) * height for p in ((0, 1, 0), (0, 0, 0), (0.5, 0, 0), (0.5, 0.5, 0), (0, 0.5, 0))]

    def make(self):
        return BITrajectoryB(self.h, self.end)

    def position(self, t):
        t = min(max(t, 0.0), self.end)
        return np.array([np.interp(t, self.edges, [p[i] for p in self.points]) for i in range(3)])

    def rotation(self, t, got):
        close(got, np.eye(3), "orientation at %s" % t)

    def velocity(self, t):
        for i in range(4):
            if self.edges[i] < t < self.edges[i + 1]:
                return (self.points[i + 1] - self.points[i]) / (self.edges[i + 1] - self.edges[i])
        return np.zeros(3)


POSES = [((0.0, 0.0, 0.0), (0.0, 0.0, 0.0)), ((0.0, 0.0, 0.0), (3.0, 4.0, 0.0)), ((0.3, -0.4, 1.0), (-1.0, 2.0, 5.0)), ((0.0, math.pi / 2, 0.0), (0.0, 0.0, 9.0)), ((1.0, 0.2, -2.0), (1.0, 1.0, 1.0))]


def references(thorough):
    out = [Linear(a, b, d, s) for a, b in itertools.permutations(POSES, 2) for d in (0.5, 2.0) for s in (0.0, 1.5)]
    out += [Linear(a, a, 1.0, 0.5) for a in POSES]
    out += [Static(a, v) for a in POSES for v in (None, (1.0, -2.0, 0.5))]
    out += [Letter(h, d) for h in (1.0, 10) for d in (1.0, 7.5)]
    return out


def times(ref, n):
    out = {0.0, ref.end, ref.end + 1.0, ref.end + 100.0}
    out |= {ref.end * k / n for k in range(n + 1)}
    for e in ref.edges:
        out |= {e, max(0.0, e - 1e-6), e + 1e-6}
    return sorted(out)


def starting(ref, t):
    """Objects already move at the very first instant of their linear trajectory."""
    return isinstance(ref, Linear) and t == ref.start


def verify(ref, traj, t, target=None, up=None):
    s = traj.sample(t)
    expect(s.timestamp == t, "sample at %s reports the time %s", t, s.timestamp)
    close(s.pose.translation, ref.position(t), "position at %s" % t, 1e-8)
    close(traj.sample_translation(t), ref.position(t), "sampled translation at %s" % t, 1e-8)
    close(s.pose[3, :], [0, 0, 0, 1], "last row of the pose")
    if starting(ref, t) or not any(abs(t - e) < 1e-9 for e in ref.edges):
        close(s.velocity, ref.velocity(t), "velocity at %s" % t, 1e-8)
        close(traj.sample_velocity(t), ref.velocity(t), "sampled velocity at %s" % t, 1e-8)
    r = np.asarray(s.pose)[:3, :3]
    ref.rotation(t, np.asarray(traj.sample_orientation(t)))
    if target is None:
        ref.rotation(t, r)
    else:
        expected = look(mat((0, 0, 0), ref.position(t)), target.position(t), up)
        if expected is not None:
            close(r, expected, "orientation towards the target at %s" % t, 1e-6)
    return s


def run_single(acc, shard):
    for i, ref, n in shard:
        def case():
            traj = ref.make()
            expect(abs(traj.max_timestamp - ref.end) < 1e-12, "the trajectory ends at %s instead of %s", traj.max_timestamp, ref.end)
            ts = times(ref, n)
            for order in (ts, ts[::-1]):  # samples do not depend on the order of sampling
                for t in order:
                    s = verify(ref, traj, t)
                    acc.state(i, s.pose, s.velocity)
                    acc.step()
            # displacement is the integral of the velocity
            for t0, t1 in zip(ts, ts[1:]):
                if any(t0 - 1e-9 < e < t1 + 1e-9 for e in ref.edges) or isinstance(ref, Static):
                    continue
                close(traj.sample_translation(t1) - traj.sample_translation(t0), (t1 - t0) * traj.sample_velocity(0.5 * (t0 + t1)), "displacement between %s and %s" % (t0, t1), 1e-8)
        acc.run("trajectory:%s:%d" % (type(ref).__name__, i), case, case=vars(ref))


def run_look(acc, shard):
    for i, j, a, b, up, switches in shard:
        def case():
            ta, tb = a.make(), b.make()
            up_ = np.array(up)
            active = False
            for k, s in enumerate(switches):
                if s == "look":
                    ta.lookat(tb, up_)
                    active = True
                elif s == "off":
                    ta.lookat_disable()
                    active = False
                elif s == "on":
                    if "look" in switches[:k]:
                        ta.lookat_enable()
                        active = True
                    else:
                        try:
                            ta.lookat_enable()
                            expect(False, "tracking without target is not reported")
                        except RuntimeError:
                            pass
                elif s == "mutual":
                    tb.lookat(ta)
                for t in times(a, 4) + [1.0]:
                    verify(a, ta, t, b if active else None, up)
                    acc.step()
                expect(np.array_equal(up_, np.array(up)), "the argument was modified")
            acc.state(i, j, active, up)
        acc.run("track:%d:%d:%s:%s" % (i, j, up, switches), case, case={"object": vars(a), "target": vars(b), "up": up, "operations": switches}, sample=False)


def run_device(acc, shard):
    for i, refs, pose, shape in shard:
        def case():
            array = SimulatedUniformArray(SimulatedIdealAntenna, 0.5, shape, pose=Transformation.From_RPY(np.array(pose[0]), np.array(pose[1])))
            device = SimulatedDevice(antennas=array, pose=refs[0].make())
            local = sorted((tuple(0.5 * np.array(x)) for x in np.ndindex(*shape)))
            kept = []
            for k, ref in enumerate(refs):
                if k:
                    device.trajectory = ref.make()
                expect(abs(device.max_trajectory_timestamp - ref.end) < 1e-12, "end of the trajectory")
                for t in times(ref, 3):
                    state = device.state(t)
                    world = mat((0, 0, 0), ref.position(t))
                    world[:3, :3] = np.asarray(state.pose)[:3, :3]
                    ref.rotation(t, world[:3, :3])
                    expected = np.array(sorted(tuple(np.round((world @ mat(*pose) @ np.array([*x, 1.0]))[:3], 9)) for x in local))
                    kept.append((state, t, world, expected, None if any(abs(t - e) < 1e-9 for e in ref.edges) and not starting(ref, t) else ref.velocity(t)))
                    acc.step()
            for state, t, world, expected, velocity in kept:  # states are immutable
                expect(state.timestamp == t, "timestamp")
                close(state.pose, world, "pose of the state at %s" % t)
                close(state.position, world[:3, 3], "position of the state at %s" % t)
                if velocity is not None:
                    close(state.velocity, velocity, "velocity of the state at %s" % t)
                got = np.array([a.global_position for a in state.antennas.antennas])
                close(np.array(sorted(tuple(np.round(x, 9)) for x in got)), expected, "antenna positions of the state at %s" % t, 1e-6)
                acc.state(i, world)
        acc.run("device:%d:%s:%s:%s" % (i, [vars(r) for r in refs], pose, shape), case, case={"trajectories": [vars(r) for r in refs], "array pose": pose, "array": shape}, sample=False)


def main(check):
    refs = references(check.thorough)
    n = 60 if check.thorough else 12
    check.explore(run_single, chunks([(i, r, n) for i, r in enumerate(refs)], 16))
    some = refs if check.thorough else refs[::15] + refs[-6:]
    switches = [("look",), ("look", "off", "on"), ("on", "look", "mutual"), ("mutual", "look", "off")]
    check.explore(run_look, chunks([(i, j, a, b, up, s) for i, a in enumerate(some) for j, b in enumerate(some) for up in ((0.0, 1.0, 0.0), (0.0, 0.0, 2.0), (1, 0, 0)) for s in switches], 32))
    few = some[::2]
    dev = [(i, rs, pose, shape) for i, rs in enumerate([(r,) for r in some] + list(itertools.permutations(few, 2))) for pose in (POSES[0], POSES[2]) for shape in ((1, 1, 1), (2, 1, 3))]
    check.explore(run_device, chunks(dev, 32))
    check.bounds.update(trajectories=len(refs), tracking_pairs=len(some) ** 2, devices=len(dev), samples_per_trajectory=n)
