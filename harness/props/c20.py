"""C20: conversions between quaternions, matrices, axis-angles and cardan angles describe the same rotation"""
import copy

import numpy as np
from hypothesis import strategies as st

import gen
from core import Property, Sub, require
from sut import expect_raise, vector
from meshmagick import rotations as rot
from meshmagick.mesh import Mesh

NAMES = {'quat': 'quat', 'mat': 'rotmat', 'axis': 'axis_angle', 'cardan': 'cardan'}


def mat_quat(q):
    w, x, y, z = [float(v) for v in q]
    return np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
                     [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
                     [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]])


def mat_axis(a, t):
    return gen.rod(np.asarray(a, dtype=float), t)


def mat_cardan(phi, theta, psi):
    ex, ey, ez = np.eye(3)
    return gen.rod(ez, psi).dot(gen.rod(ey, theta)).dot(gen.rod(ex, phi))


def matrix(kind, value):
    if kind == 'quat':
        return mat_quat(value)
    if kind == 'mat':
        return np.asarray(value, dtype=float)
    if kind == 'axis':
        return mat_axis(value[0], value[1])
    return mat_cardan(*value)


def convert(src, dst, value):
    f = getattr(rot, '%s_to_%s' % (NAMES[src], NAMES[dst]))
    return f(*value) if src in ('axis', 'cardan') else f(value)


def valid(kind, value):
    """Normal forms of the representations"""
    if kind == 'quat':
        q = np.asarray(value, dtype=float)
        require(q.size == 4 and abs(np.linalg.norm(q) - 1) < 1e-9, 'quaternion %s', value)
    elif kind == 'mat':
        R = np.asarray(value, dtype=float)
        require(R.shape == (3, 3) and np.abs(R.dot(R.T) - np.eye(3)).max() < 1e-9 and np.linalg.det(R) > 0,
                'matrix %s', value)
    elif kind == 'axis':
        axis, angle = value
        axis = np.asarray(axis, dtype=float)
        require(axis.shape == (3,) and abs(np.linalg.norm(axis) - 1) < 1e-9, 'axis %s', value)
        require(-1e-12 <= angle <= 2 * np.pi + 1e-9, 'angle %s', value)
    else:
        require(len(value) == 3 and all(np.isfinite(v) for v in value), 'cardan angles %s', value)
        require(abs(value[1]) <= np.pi / 2 + 1e-9 and abs(value[0]) <= np.pi + 1e-9 and abs(value[2]) <= np.pi + 1e-9,
                'cardan angles %s are not in their range', value)


def make(case):
    """Value of the initial representation"""
    kind, x = case['kind'], case['x']
    if kind == 'cardan':
        return tuple(x)
    a = np.array(x[:3]) / np.linalg.norm(x[:3])
    if kind == 'axis':
        return vector(a, case['how'] % 6), x[3]
    if kind == 'quat':
        q = np.append(np.cos(x[3] / 2), np.sin(x[3] / 2) * a)
        q = q / np.linalg.norm(q)
        return vector(q, case['how'])
    if case['how'] % 2 == 0:
        return mat_axis(a, x[3])
    return mat_cardan(x[3], case['lock'], x[0])


def check(case, ctx):
    kind = case['kind']
    value = make(case)
    R = matrix(kind, value)
    given = []
    for dst in case['path']:
        if dst == kind:
            continue
        if kind in ('axis', 'quat'):
            value = (vector(value[0], (case['how'] + len(given)) % 6), value[1]) if kind == 'axis' else \
                vector(value, case['how'] + len(given))
        given.append((value, copy.deepcopy(value)))
        out = convert(kind, dst, value)
        given.append((out, copy.deepcopy(out)))
        valid(dst, out)
        R1 = matrix(dst, out)
        err = np.abs(R1 - R).max()
        # the matrix is that of the gimbal lock, in double precision, within 1.5e-8 rad of it
        lock = dst == 'cardan' and abs(R[2, 0]) > 1 - 1e-14
        require(err < (3e-8 if lock else 1e-12), '%s to %s: %s is given for %s: rotations differ by %.3g', NAMES[kind], NAMES[dst], out, value,
                err)
        # relative accuracy of the small rotations
        dev = np.abs(R - np.eye(3)).max()
        if dev < 1e-3 and kind != 'mat':
            require(err < 1e-6 * dev + 1e-15, '%s to %s: %s is given for %s (small rotation)', NAMES[kind], NAMES[dst], out,
                    value)
        if dst == 'cardan' and case['path'][0] == dst and case['kind'] == 'mat' and abs(R[2, 0]) < .999999:
            want = [np.arctan2(R[2, 1], R[2, 2]), np.arcsin(-R[2, 0]), np.arctan2(R[1, 0], R[0, 0])]
            d = [abs((a - b + np.pi) % (2 * np.pi) - np.pi) for a, b in zip(out, want)]
            require(max(d) < 1e-7, 'cardan angles %s, %s expected', out, want)
        ctx.label('%s->%s' % (kind, dst))
        if abs(R[2, 0]) > 1 - 1e-9:
            ctx.label('gimbal lock')
        kind, value, R = dst, out, R1
    for a, b in given:
        require(repr(a) == repr(b), 'a representation has been modified: %s instead of %s', a, b)
    ctx.nontrivial(len(set(case['path']) | {case['kind']}) > 1)


def check_cardan(case, ctx):
    """Angles in their principal range are recovered, through any path"""
    ang = case['angles']
    kind, value = 'cardan', tuple(ang)
    for dst in case['path'] + ['cardan']:
        if dst != kind:
            value = convert(kind, dst, value)
            kind = dst
    d = [abs((a - b + np.pi) % (2 * np.pi) - np.pi) for a, b in zip(value, ang)]
    lim = 1e-8 / np.cos(ang[1]) ** 2
    require(max(d) < lim, 'cardan angles %s became %s through %s', ang, value, case['path'])
    # rotation of meshes by the three angles
    V = np.array([[1., 0., 0.], [0., 1., 0.], [0., 0., 1.]])
    m = Mesh(V, [[0, 1, 2, 0]])
    Rm = m.rotate(list(ang))
    R = mat_cardan(*ang)
    require(np.abs(np.asarray(m.vertices) - R.T).max() < 1e-9, 'rotation of a mesh by %s', ang)
    if Rm is not None:
        require(np.abs(np.asarray(Rm) - R).max() < 1e-9, 'matrix returned by the rotation of a mesh by %s', ang)
    ctx.nontrivial(any(ang))


def check_refused(case, ctx):
    v = np.array(case['v'])
    n = np.linalg.norm(v)
    q = np.append(v, case['w'])
    if abs(n - 1) > 1e-3:
        expect_raise(lambda: rot.axis_angle_to_quat(v, 1.), 'axis %s is not a unit vector' % v, AssertionError)
        expect_raise(lambda: rot.axis_angle_to_rotmat(list(v), 1.), 'axis %s is not a unit vector' % v, AssertionError)
        ctx.nontrivial(True)
    if abs(np.linalg.norm(q) - 1) > 1e-3:
        expect_raise(lambda: rot.quat_to_rotmat(q), 'quaternion %s is not unit' % q, AssertionError)
        expect_raise(lambda: rot.quat_to_axis_angle(q), 'quaternion %s is not unit' % q, AssertionError)
        expect_raise(lambda: rot.quat_to_cardan(q), 'quaternion %s is not unit' % q, AssertionError)
        ctx.nontrivial(True)
    # quaternions have four components
    for w in (v, np.append(q, case['w']), np.append(q, [0., 0.]), q[:2]):
        if np.linalg.norm(w) < 1e-6 or not w.size:
            continue
        w = vector(w / np.linalg.norm(w), case['how'])
        for f in (rot.quat_to_rotmat, rot.quat_to_axis_angle, rot.quat_to_cardan):
            expect_raise(lambda: f(w), '%s of a quaternion of %d components' % (f.__name__, len(w)))
        ctx.nontrivial(True)


def axis_st():
    return st.one_of(st.sampled_from([[1., 0., 0.], [0., 1., 0.], [0., 0., 1.], [-1., 0., 0.], [0., -1., 0.],
                                      [0., 0., -1.], [1., 1., 0.], [1., 1., 1.], [1., -1., 1.]]),
                     gen.vec3(-1, 1).filter(lambda v: np.linalg.norm(v) > 1e-2))


def ang_st():
    return st.one_of(gen.num(0, 6.283), st.sampled_from([0., np.pi, np.pi / 2, 2 * np.pi / 3, 3 * np.pi / 2]), st.tuples(
        st.sampled_from([0., np.pi, np.pi / 2, 2 * np.pi]), st.sampled_from([1e-3, 1e-4, 1e-6, 1e-8, 1e-10, -1e-4, -1e-7])).map(
            lambda t: abs(t[0] + t[1])))


def signed():
    return st.one_of(gen.num(-3.14, 3.14), st.sampled_from([0., np.pi, -np.pi, np.pi / 2, -np.pi / 2, 1e-6, -1e-9]))


def lock_st():
    """Angles next to the gimbal lock"""
    return st.tuples(st.sampled_from([np.pi / 2, -np.pi / 2]), st.sampled_from(
        [0., 1e-16, 1e-15, 1e-12, -1e-10, 1e-9, 1e-8, -1e-7, 1e-5, 1e-3])).map(sum)


def case_st():
    path = st.lists(st.sampled_from(sorted(NAMES)), min_size=1, max_size=4)
    rest = {'path': path, 'how': st.integers(0, 7), 'lock': lock_st()}
    return st.one_of(
        st.fixed_dictionaries(dict(rest, kind=st.sampled_from(['quat', 'mat', 'axis']), x=st.tuples(
            axis_st(), ang_st()).map(lambda t: t[0] + [t[1]]))),
        st.fixed_dictionaries(dict(rest, kind=st.just('cardan'), x=st.tuples(
            signed(), st.one_of(signed(), lock_st()), signed()).map(list))))


PROPERTY = Property('C20', [
    Sub('conversions', case_st, check, quick=12000),
    Sub('cardan', lambda: st.fixed_dictionaries({
        'angles': st.tuples(signed(), gen.num(-1.55, 1.55), signed()).map(list),
        'path': st.lists(st.sampled_from(['quat', 'mat', 'axis']), min_size=1, max_size=3)}), check_cardan, quick=5000),
    Sub('refused', lambda: st.fixed_dictionaries({'v': gen.vec3(-2, 2), 'w': gen.num(-2, 2), 'how': st.integers(0, 7)}), check_refused, quick=1000),
], rule='A rotation given in any representation follows a path of up to 4 conversions, each result being compared with the '
        'initial rotation by independent formulae (Rodrigues, products of elementary rotations), next to the gimbal '
        'lock, to half and whole turns and for tiny angles; non-trivial: at least one conversion.',
    assumptions=['rotations are compared within 1e-12, and 3e-8 where the matrix is that of the gimbal lock in double precision'])
