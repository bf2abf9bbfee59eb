"""P08: coordinate frames agree with the composition of their poses, whatever changed before."""
import itertools
import math

import numpy as np

from hermespy.core.transformation import Direction, Transformable, TransformableBase, Transformation
from ..core import chunks, expect

# ------------------------------------------------------------------ reference


def rot(rpy):
    r, p, y = [float(v) for v in rpy]
    rx = np.array([[1, 0, 0], [0, math.cos(r), -math.sin(r)], [0, math.sin(r), math.cos(r)]])
    ry = np.array([[math.cos(p), 0, math.sin(p)], [0, 1, 0], [-math.sin(p), 0, math.cos(p)]])
    rz = np.array([[math.cos(y), -math.sin(y), 0], [math.sin(y), math.cos(y), 0], [0, 0, 1]])
    return rz @ ry @ rx


def mat(rpy=(0, 0, 0), pos=(0, 0, 0)):
    m = np.eye(4)
    m[:3, :3] = rot(rpy)
    m[:3, 3] = pos
    return m


def look(m, target, up):
    """Rotation with its z-axis towards the target, None if not determined by the arguments."""
    f = np.asarray(target, float) - m[:3, 3]
    if not np.any(f):
        return None
    f = f / np.linalg.norm(f)
    s = np.cross(np.asarray(up, float), f)
    if np.linalg.norm(s) < 1e-9 * np.linalg.norm(up):
        return None
    s = s / np.linalg.norm(s)
    return np.stack([s, np.cross(f, s), f], axis=1)


def close(a, b, what, tol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    expect(a.shape == b.shape, "%s has shape %s instead of %s", what, a.shape, b.shape)
    expect(np.allclose(a, b, atol=tol, rtol=1e-9), "%s is\n%s\ninstead of\n%s", what, a, b)


# ------------------------------------------------------------------ histories

TARGETS = [(3.0, 0.0, 1.0), (0.0, 5.0, 0.0)]
POSES = [((0.3, -0.2, 1.1), (1.0, 2.0, -1.0)), ((0.0, math.pi / 2, 0.4), (0.0, 0.0, 4.0))]


class Forest:
    def __init__(self, initial, warm):
        self.world = TransformableBase()
        self.frames = [Transformable(Transformation.From_RPY(np.array([0.1 * (i + 1), 0.2, -0.3 * i]), np.array([1.0 * i, 1, 2]))) for i in range(3)]
        self.ref = [mat((0.1 * (i + 1), 0.2, -0.3 * i), (1.0 * i, 1, 2)) for i in range(3)]
        self.parent = [None] * 3
        self.warm = warm
        for i, p in enumerate(initial):
            self.apply(("base", i, p))

    def link(self, p):
        return None if p is None else (self.world if p == "w" else self.frames[p])

    def ancestors(self, i):
        out = []
        while isinstance(i, int):
            out.append(i)
            i = self.parent[i]
        return out

    def admissible(self, op):
        if op[0] in ("base", "add"):
            return not (isinstance(op[2], int) and op[1] in self.ancestors(op[2]))
        return True

    def apply(self, op):
        kind, i, *args = op
        f = self.frames[i]
        if kind == "base":
            f.set_base(self.link(args[0]))
            self.parent[i] = args[0]
        elif kind == "add":
            self.link(args[0]).add_link(f)
            self.parent[i] = args[0]
        elif kind == "remove":
            link = self.link(args[0])
            if self.parent[i] == args[0]:
                link.remove_link(f)
                self.parent[i] = None
            else:
                try:
                    link.remove_link(f, True)
                    expect(False, "removing a link that does not exist is not reported")
                except RuntimeError:
                    pass
                link.remove_link(f, False)
        elif kind == "pos":
            f.position = np.array(args[0])
            self.ref[i][:3, 3] = list(args[0]) + [0.0] * (3 - len(args[0]))
        elif kind == "rpy":
            f.orientation = np.array(args[0])
            self.ref[i][:3, :3] = rot(args[0])
        elif kind == "pose":
            t = Transformation.From_RPY(np.array(args[0][0]), np.array(args[0][1]))
            f.pose = t
            t[:3, 3] = 99.0  # the frame must not depend on the argument
            self.ref[i] = mat(*args[0])
        elif kind == "look":
            f.lookat(np.array(args[0]), np.array([0.0, 0.0, 1.0]))
            r = look(self.ref[i], args[0], (0, 0, 1))
            if r is not None:
                self.ref[i][:3, :3] = r
        elif kind == "read":
            self.frames[i].forwards_transformation
            self.frames[i].backwards_transformation

    def world_of(self, i):
        m = np.eye(4)
        for j in self.ancestors(i):
            m = self.ref[j] @ m
        return m

    def verify(self):
        fwd = [self.world_of(i) for i in range(3)]
        for i, f in enumerate(self.frames):
            close(f.pose, self.ref[i], "pose of frame %d" % i)
            close(f.position, self.ref[i][:3, 3], "position of frame %d" % i)
            close(rot(f.orientation), self.ref[i][:3, :3], "orientation of frame %d" % i, 1e-7)
            close(f.forwards_transformation, fwd[i], "forwards transformation of frame %d" % i)
            close(f.backwards_transformation, np.linalg.inv(fwd[i]), "backwards transformation of frame %d" % i)
            close(f.global_position, fwd[i][:3, 3], "global position of frame %d" % i)
            close(rot(f.global_orientation), fwd[i][:3, :3], "global orientation of frame %d" % i, 1e-7)
            expect(f.is_base == (self.parent[i] is None), "frame %d reports is_base %s", i, f.is_base)
            kids = {j for j in range(3) if self.parent[j] == i}
            expect({self.frames.index(k) for k in f.linked_frames} == kids, "linked frames of frame %d", i)
            for j, g in enumerate(self.frames):
                close(f.to_local_coordinates(g), np.linalg.inv(fwd[i]) @ fwd[j], "frame %d seen from frame %d" % (j, i))
            p = np.array([1.0, -2.0, 0.5])
            close(f.to_local_coordinates(p), np.linalg.inv(fwd[i]) @ mat((0, 0, 0), p), "point seen from frame %d" % i)
        expect({self.frames.index(k) for k in self.world.linked_frames} == {j for j in range(3) if self.parent[j] == "w"}, "linked frames of the world")
        return fwd


def alphabet():
    out = []
    for i in range(3):
        for p in [None, "w"] + [j for j in range(3) if j != i]:
            out.append(("base", i, p))
        out.append(("add", i, "w"))
        out.append(("add", i, (i + 1) % 3))
        out.append(("remove", i, (i + 1) % 3))
        out.append(("pos", i, (2.0, -1.0, 3.0)))
        out.append(("rpy", i, (0.5, 0.0, -0.7)))
        out.append(("look", i, TARGETS[0]))
        out.append(("pose", i, POSES[0]))
    out += [("remove", 0, "w"), ("pos", 1, (7.0,)), ("pos", 2, (7.0, 8.0)), ("pose", 1, POSES[1]), ("look", 1, TARGETS[1])]
    return out + [("read", i) for i in range(3)]


INITIAL = [(None, None, None), ("w", 0, 1), (None, 0, 0)]


def run_histories(acc, shard):
    for init, warm, ops in shard:
        def case():
            forest = Forest(init, warm)
            if warm:
                forest.verify()
            for op in ops:
                if not forest.admissible(op):
                    acc.count("inadmissible")
                    return None
                forest.apply(op)
                acc.step()
                if warm:
                    acc.state(warm, forest.parent, *forest.verify())
            out = forest.verify()
            acc.state(forest.parent, *out)
            return [o[:3, 3] for o in out]
        acc.run("frames:%s:%s:%s" % (init, warm, ops), case, case={"initial": init, "verify_each": warm, "operations": ops})


# ------------------------------------------------------------------ catalogue


def angles():
    base = [k * math.pi / 6 for k in range(-6, 7)]
    near = [s * (math.pi / 2 - 10.0**-k) for k in range(1, 17) for s in (1, -1)] + [s * math.pi / 2 for s in (1, -1)]
    for r, p, y in itertools.product(base, base, base):
        yield r, p, y
    for r, y in itertools.product(base[::2], base[::3]):
        for p in near:
            yield r, p, y


def run_rotations(acc, shard):
    for rpy in shard:
        def case():
            ref = mat(rpy, (1, 2, 3))
            t = Transformation.From_RPY(np.array(rpy), np.array([1.0, 2.0, 3.0]))
            close(t, ref, "transformation of %s" % (rpy,))
            back = t.rotation_rpy
            expect(np.all(np.isfinite(back)) and abs(back[1]) <= math.pi / 2 + 1e-12, "angles are %s", back)
            close(rot(back), ref[:3, :3], "rotation of the reported angles %s" % (back,), 2e-7)
            q = t.rotation_quaternion
            expect(abs(np.linalg.norm(q) - 1) < 1e-9, "quaternion %s is not normalized", q)
            close(Transformation.From_Quaternion(q, np.array([1.0, 2, 3])), ref, "transformation of the reported quaternion %s" % (q,), 1e-8)
            close(Transformation.From_Quaternion(3 * q, np.array([1.0, 2, 3]), True), ref, "transformation of a scaled quaternion", 1e-8)
            u = Transformation.No()
            u.rotation_rpy = np.array(rpy)
            close(u, mat(rpy), "transformation with configured angles")
            u.rotation_quaternion = q
            close(u, mat(rpy), "transformation with configured quaternion", 1e-8)
            u.translation = np.array([1.0, 2, 3])
            close(u, ref, "transformation with configured translation", 1e-8)
            close(t.invert() @ t, np.eye(4), "inverse")
            for n in (1, 2, 3):
                v = np.array([0.5, -1.0, 2.0])[:n]
                close(t.transform_position(v), (ref @ np.append(np.append(v, np.zeros(3 - n)), 1.0))[:n], "position in %d dimensions" % n)
                d = np.zeros(3)
                d[:n] = ref[:n, :n] @ v
                close(t.rotate_direction(v), d, "direction in %d dimensions" % n)
                close(t.transform_direction(v), d, "direction in %d dimensions" % n)
                if np.linalg.norm(d) > 1e-6:
                    close(t.transform_direction(v, True), d / np.linalg.norm(d), "normalized direction in %d dimensions" % n)
            acc.state(np.round(t, 6))
            acc.step()
            return list(back)
        acc.run("rotation:%s" % (rpy,), case, case=rpy)


def run_directions(acc, shard):
    for v in shard:
        def case():
            v_ = np.array(v, float)
            before = v_.copy()
            d = Direction.From_Cartesian(v_, True)
            expect(np.array_equal(before, v_), "the argument was modified")
            close(d, v_ / np.linalg.norm(v_), "normalized direction")
            for scale in (1.0, 1.0 + 2**-52, 1.0 + 2**-50, 1.0 - 2**-53):
                az, ze = Direction.From_Cartesian(np.asarray(d) * scale).to_spherical()
                expect(np.isfinite(az) and np.isfinite(ze) and 0 <= ze <= math.pi, "angles %s %s", az, ze)
                close(Direction.From_Spherical(az, ze), d, "direction of the angles", 1e-7)
                close([math.sin(ze) * math.cos(az), math.sin(ze) * math.sin(az), math.cos(ze)], d, "angles", 1e-7)
            acc.state(np.round(d, 9))
            acc.step()
        acc.run("direction:%s" % (v,), case, case=v, sample=False)


UPS = [(0.0, 1.0, 0.0), (0.0, 0.0, 1.0), (0.0, 0.0, 2.0), (1, 1, 0), (-1.0, 0.0, 0.5)]


def run_look(acc, shard):
    for pos, target, up in shard:
        def case():
            for kind in (0, 1):
                up_, tgt_ = np.array(up), np.array(target)
                start = Transformation.From_RPY(np.array([0.3, 0.2, 0.1]), np.array(pos, float))
                if kind == 0:
                    t = start.copy()
                    out = t.lookat(tgt_, up_)
                    expect(out is t, "the transformation is not returned")
                else:
                    frame = Transformable(start)
                    child = Transformable(Transformation.From_Translation(np.array([0.0, 0.0, 1.0])))
                    child.set_base(frame)
                    child.forwards_transformation
                    frame.lookat(tgt_, up_)
                    t = frame.pose
                    close(frame.forwards_transformation, t, "forwards transformation of the frame")
                    close(child.global_position, np.asarray(pos, float) + np.asarray(t)[:3, 2], "position of the dependent frame")
                expect(np.array_equal(up_, np.array(up)) and np.array_equal(tgt_, np.array(target)), "the arguments were modified")
                close(t.translation, pos, "translation")
                close(t[3, :], [0, 0, 0, 1], "last row")
                r = np.asarray(t)[:3, :3]
                close(r.T @ r, np.eye(3), "orthogonality of the orientation")
                expect(abs(np.linalg.det(r) - 1) < 1e-9, "orientation mirrors")
                f = np.array(target, float) - np.array(pos, float)
                if np.any(f):
                    close(r[:, 2], f / np.linalg.norm(f), "viewing direction")
                else:
                    close(r, rot((0.3, 0.2, 0.1)), "orientation")
                ref = look(mat((0, 0, 0), pos), target, up)
                if ref is not None:
                    close(r, ref, "orientation")
            acc.state(np.round(r, 6))
            acc.step()
        acc.run("lookat:%s:%s:%s" % (pos, target, up), case, case={"position": pos, "target": target, "up": up})


def main(check):
    ops = alphabet()
    hist = []
    for init in INITIAL:
        for warm in (True, False):
            depth = (2 if warm else 3) + (check.thorough and init == INITIAL[1])
            for n in range(1, depth + 1):
                for h in itertools.product(ops, repeat=n):
                    if n >= 3 and (h[-1][0] == "read" or not any(o[0] == "read" for o in h[:-1])):
                        continue  # reading only matters in between: the histories without are covered at lower depth
                    hist.append((init, warm, h))
    check.explore(run_histories, chunks(hist, 200))
    check.explore(run_rotations, chunks(angles(), 32))
    lattice = [v for v in itertools.product(range(-3, 4), repeat=3) if any(v)]
    check.explore(run_directions, chunks(lattice, 8))
    small = list(itertools.product((-1, 0, 2), repeat=3))
    pts = [(0, 0, 0), (2, -1, 0), (-1, 0, 2)]
    check.explore(run_look, chunks(list(itertools.product(pts, small, UPS)), 16))
    check.bounds.update(depth="2 verified after each operation, 3 verified finally, one more from a chain of frames in the thorough tier", operations=len(ops), frames=3, initial=len(INITIAL), histories=len(hist))
