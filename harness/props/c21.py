"""C21: an inertia is that of the same mass distribution wherever it is expressed, whatever the path followed"""
import re

import numpy as np
from hypothesis import strategies as st

import gen
from core import Property, Sub, require
from sut import mk, quiet, vector, forget, FORMS
from meshmagick.inertia import RigidBodyInertia, RotationalInertia3D


class Model(object):
    """Mass distribution, announced center of gravity and reduction point"""

    def __init__(self, mass, center, Ic, cog, point):
        self.mass, self.center, self.Ic = mass, np.array(center), np.array(Ic)
        self.cog, self.point = np.array(cog), np.array(point)

    def matrix(self):
        d = self.center - self.point
        return self.Ic + self.mass * (d.dot(d) * np.eye(3) - np.outer(d, d))


def verify(i, m, tol, what):
    require(i.mass == m.mass or abs(i.mass - m.mass) < 1e-12 * m.mass, '%s: mass is %r, %r expected', what, i.mass, m.mass)
    for name, got, exp in (('center of gravity', i.gravity_center, m.cog), ('reduction point', i.reduction_point, m.point)):
        got = np.asarray(got, dtype=float)
        require(got.shape == (3,) and np.abs(got - exp).max() < 1e-12 * (1 + np.abs(exp).max()),
                '%s: %s is %s, %s expected', what, name, got, exp)
    M = np.asarray(i.inertia_matrix, dtype=float)
    exp = m.matrix()
    require(M.shape == (3, 3) and np.abs(M - exp).max() < tol, '%s: matrix at %s is\n%s\nexpected\n%s', what, m.point, M, exp)
    got = [i.xx, i.yy, i.zz, i.yz, i.xz, i.xy]
    want = [exp[0, 0], exp[1, 1], exp[2, 2], -exp[1, 2], -exp[0, 2], -exp[0, 1]]
    require(np.abs(np.array(got) - want).max() < tol, '%s: moments and products are %s, %s expected', what, got, want)
    require(bool(i.is_at_cog()) == bool(np.all(m.point == m.cog)), '%s: is_at_cog is %s at %s with a center of gravity at '
            '%s', what, i.is_at_cog(), m.point, m.cog)
    num = [float(x) for x in re.findall(r'[-+]?\d\.\d+E[-+]\d+', str(i))]
    want = [m.mass] + list(m.cog) + list(m.point) + list(M.reshape(-1))
    require(len(num) == len(want), '%s: text %s', what, str(i))
    for a, b in zip(num, want):
        require(abs(a - b) <= .51e-6 * 10 ** np.floor(np.log10(abs(b))) if abs(b) > 1e-300 else a == 0,
                '%s: %r in the text for %r', what, a, b)


def check(case, ctx):
    mass = case['mass']
    pts = np.array(case['points'])
    w = mass / len(pts)
    center = pts.mean(axis=0)
    d = pts - center
    Ic = w * (np.einsum('ij,ij->', d, d) * np.eye(3) - d.T.dot(d))
    point = center if case['point'] is None else np.array(case['point'])
    m = Model(mass, center, Ic, center, point)
    I0 = m.matrix()
    if case['mesh'] is None:
        cog = vector(center, case['how'])
        kw = {} if case['point'] is None else {'point': vector(point, case['how'])}
        i = RigidBodyInertia(mass, cog, I0[0, 0], I0[1, 1], I0[2, 2], -I0[1, 2], -I0[0, 2], -I0[0, 1], **kw)
        # the arrays of the caller are its own
        forget(cog)
        if kw:
            forget(kw['point'])
    else:
        V, F = gen.build(case['mesh'])
        mesh = mk(V, F)
        i = mesh.eval_plain_mesh_inertias(rho_medium=mass) if case['plain'] else \
            mesh.eval_shell_mesh_inertias(rho_medium=mass, thickness=.01)
        g = np.array(i.gravity_center)
        m = Model(i.mass, g, np.array(i.inertia_matrix), g, np.array(i.reduction_point))
        p = m.point
        if np.any(p != g):
            m.Ic = m.Ic - (m.matrix() - m.Ic)
    big = max([1.] + [np.abs(np.array(op[1])).max() for op in case['ops'] if len(op) > 1] + [np.abs(m.center).max(),
                                                                                          np.abs(m.point).max()])
    tol = 1e-11 * (1 + len(case['ops'])) * (m.mass * 4 * big ** 2 + np.abs(m.Ic).max())
    verify(i, m, tol, 'initially')
    moved = 0
    history = []
    for op in case['ops']:
        k = op[0]
        history.append(k)
        if k == 'point':
            a = vector(op[1], op[2])
            i.reduction_point = a
            m.point = np.array(op[1])
            forget(a)
            moved += 1
        elif k == 'near':
            # a point that is close to the present one, or to the center of gravity
            a = (m.cog if op[2] else m.point) + np.array(op[1])
            i.reduction_point = list(a)
            m.point = a
            moved += 1
        elif k == 'shift':
            i.shift_at_cog()
            m.point = m.cog.copy()
            moved += 1
        elif k == 'set_cog':
            a = vector(op[1], op[2])
            i.set_cog(a)
            m.cog = np.array(op[1])
            forget(a)
        elif k == 'at_cog':
            old = (np.array(i.inertia_matrix), np.array(i.reduction_point))
            j = i.at_cog
            require(j is not i, 'at_cog gives the object itself')
            mj = Model(m.mass, m.center, m.Ic, m.cog, m.cog)
            verify(j, mj, tol, 'at_cog')
            require(np.array_equal(old[0], i.inertia_matrix) and np.array_equal(old[1], i.reduction_point),
                    'at_cog modifies the object')
            t = i.at_cog
            for a in (t.gravity_center, t.inertia_matrix, t.reduction_point):
                if a.flags.writeable:
                    a += 1.
            verify(i, m, tol, 'after changing the arrays of at_cog')
            j.reduction_point = [1., 2., 3.]
            j.set_cog([5., 5., 5.])
            if op[1]:
                i, m = j, mj
                m.point, m.cog = np.array([1., 2., 3.]), np.array([5., 5., 5.])
            moved += 1
        verify(i, m, tol, 'after ' + ', '.join(history))
    ctx.label('mesh' if case['mesh'] else 'point masses', *sorted(set(history)))
    ctx.nontrivial(moved > 0)


def check_tensor(case, ctx):
    """Matrix of an inertia given by its moments and products"""
    xx, xy, yy, xz, yz, zz = case['coefs']
    with quiet():
        t = RotationalInertia3D(xx, xy, yy, xz, yz, zz, case['point'])
        got = np.array(t.array)
        again = np.array(t.array)
    exp = np.array([[xx, -xy, -xz], [-xy, yy, -yz], [-xz, -yz, zz]])
    require(got.shape == (3, 3) and np.array_equal(got, exp) and np.array_equal(again, exp), 'matrix\n%s\nexpected\n%s', got, exp)
    require(np.array_equal(np.asarray(t), case['coefs']), 'the coefficients have changed')
    i = RigidBodyInertia(1., case['point'], xx, yy, zz, yz, xz, xy)
    require(np.array_equal(np.array(i.inertia_matrix), exp), 'matrix of the body')
    ctx.nontrivial(len(set(case['coefs'])) == 6)


def near_st():
    return st.tuples(gen.vec3(-1, 1), st.sampled_from([1e-2, 1e-3, 1e-4, 1e-5, 1e-6])).map(lambda t: [c * t[1] for c in t[0]])


def op_st():
    how = st.integers(0, len(FORMS) - 1)
    return st.one_of(st.tuples(st.just('point'), gen.vec3(-10, 10), how), st.tuples(st.just('shift')),
                     st.tuples(st.just('near'), near_st(), st.booleans()),
                     st.tuples(st.just('set_cog'), gen.vec3(-10, 10), how),
                     st.tuples(st.just('at_cog'), st.booleans())).map(list)


def case_st(mesh):
    return st.fixed_dictionaries({
        'mass': gen.pos_num(.1, 2000), 'points': st.lists(gen.vec3(-10, 10), min_size=2, max_size=6),
        'point': st.one_of(st.none(), gen.vec3(-10, 10)), 'how': st.integers(0, len(FORMS) - 1),
        'mesh': gen.closed_mesh(smax=5.) if mesh else st.none(), 'plain': st.booleans(),
        'ops': st.lists(op_st(), max_size=6)})


PROPERTY = Property('C21', [
    Sub('points', lambda: case_st(False), check, quick=6000),
    Sub('meshes', lambda: case_st(True), check, quick=1500),
    Sub('tensor', lambda: st.fixed_dictionaries({'coefs': st.lists(gen.num(-9, 9), min_size=6, max_size=6),
                                                 'point': gen.vec3(-9, 9)}), check_tensor, quick=400),
], rule='Histories of up to 6 changes of reduction point or center of gravity of the inertia of point masses or meshes, '
        'compared to a model that holds the mass distribution; non-trivial: the inertia has been moved at least once.',
    assumptions=['set_cog changes the announced center of gravity and not the mass distribution, as in the test of the '
                 'repository'])
