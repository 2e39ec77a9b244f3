"""C02: transformations of meshes act exactly as defined on the geometry"""
import math

import numpy as np
from hypothesis import strategies as st

import gen
import geom
from core import Property, Sub, require
from sut import Mesh, Plane, mk, mesh_of, snapshot, rbi_tuple, some_form, some_scalar, forget
from props.c01 import plane_st, tiny_st

AX = {'x': [1., 0., 0.], 'y': [0., 1., 0.], 'z': [0., 0., 1.]}


def plane_map(p):
    n = np.array(p[0], dtype=float)
    n = n / np.linalg.norm(n)
    c = float(p[1])
    return n, c


def affine_of(op):
    """(linear part, translation, preserves the orientation of faces) that the operation is defined to apply"""
    name, args = op[0], op[1:]
    eye = np.eye(3)
    if name in ('rotate_x', 'rotate_y', 'rotate_z'):
        return gen.rod(AX[name[-1]], args[0]), np.zeros(3), True
    if name == 'rotate':
        return gen.rotmat(args[0]), np.zeros(3), True
    if name == 'rotate_matrix':
        return gen.rotmat(args[0]), np.zeros(3), True
    if name in ('translate_x', 'translate_y', 'translate_z'):
        return eye, args[0] * np.array(AX[name[-1]]), True
    if name == 'translate':
        return eye, np.array(args[0]), True
    if name == 'scale':
        return args[0] * eye, np.zeros(3), True
    if name in ('scalex', 'scaley', 'scalez'):
        return np.diag([args[0] if a == name[-1] else 1. for a in 'xyz']), np.zeros(3), True
    if name == 'flip_normals':
        return eye, np.zeros(3), False
    if name == 'mirror':
        n, c = plane_map(args[0])
        return eye - 2 * np.outer(n, n), 2 * c * n, False
    raise ValueError(name)


def apply(m, op):
    name, args = op[0], op[1:]
    if name == 'rotate_matrix':
        return m.rotate_matrix(gen.rotmat(args[0]))
    if name == 'mirror':
        return m.mirror(Plane(normal=some_form(args[0][0]), scalar=some_scalar(args[0][1])))
    if name in ('rotate', 'translate'):
        a = some_form(args[0])
        ret = getattr(m, name)(a)
        require(np.array_equal(np.array(a, dtype=float), args[0]), '%s: the argument has been modified', name)
        forget(a)
        return ret
    return getattr(m, name)(*[some_scalar(x) for x in args])


def op_st():
    # unlimited angles here: the definition of rotations holds for any angle
    ang = st.one_of(gen.angle(), gen.num(-15, 15))
    small = st.one_of(ang, st.sampled_from([1e-3, -2e-5, 1e-8]))
    op = lambda name, *s: st.tuples(st.just(name), *s).map(list)
    return st.one_of(
        op('rotate_x', small), op('rotate_y', small), op('rotate_z', small),
        op('rotate', st.tuples(small, small, small).map(list)),
        op('rotate_matrix', st.tuples(ang, ang, ang).map(list)),
        op('translate_x', gen.num(-50, 50)), op('translate_y', gen.num(-50, 50)), op('translate_z', gen.num(-50, 50)),
        op('translate', gen.vec3(-50, 50)),
        op('scale', gen.pos_num(.01, 20)), op('scalex', gen.pos_num(.05, 10)), op('scaley', gen.pos_num(.05, 10)),
        op('scalez', gen.pos_num(.05, 10)),
        op('flip_normals'), op('mirror', plane_st()),
    )


def case_st(ops=None):
    return st.fixed_dictionaries({
        'mesh': gen.any_mesh(max_bodies=2, smax=6.),
        'ops': st.lists((ops or op_st)(), min_size=1, max_size=3),
        'warm': st.lists(st.booleans(), min_size=3, max_size=3),
    })


def oriented_faces(F):
    return sorted(geom.canon_cycle(p) for p in geom.polys_of(F))


def check(case, ctx):
    m, V, F = mesh_of(case['mesh'])
    A, t, keep = np.eye(3), np.zeros(3), True
    for op, warm in zip(case['ops'], case['warm']):
        if warm:
            # quantities that the code may store and update along with the geometry
            m.faces_centers, m.get_surface_integrals(), m.vv
        L, s, k = affine_of(op)
        ret = apply(m, op)
        if op[0].startswith('rotate') and op[0] != 'rotate_matrix':
            geom.close(ret, L, 1e-12, '%s%s: rotation matrix returned', op[0], op[1:])
        A, t, keep = L.dot(A), L.dot(t) + s, keep == k
        ctx.label('op:' + op[0])
        ctx.nontrivial(op[0] == 'flip_normals' or np.abs(np.asarray(op[1], dtype=object).ravel()[0]).max() != 0.
                       if op[0] != 'mirror' else True)
    W = V.dot(A.T) + t
    what = ','.join(o[0] for o in case['ops'])
    size = max(geom.size_of(W), geom.size_of(V))
    # position of every vertex, faces and orientation of every face
    geom.close(m.vertices, W, 1e-11 * size * max(1., np.linalg.norm(A)), '%s: vertices', what)
    G = F if keep else F[:, ::-1]
    require(oriented_faces(m.faces) == oriented_faces(G), '%s: connectivity of faces is not as defined', what)
    t1, t2 = np.asarray(m.faces)[:, 0] == np.asarray(m.faces)[:, 3], F[:, 0] == F[:, 3]
    require(np.array_equal(t1, t2), '%s: description of triangles and quadrangles', what)
    # derived quantities follow the law of transformation (independent values)
    T = geom.soup(W, G)
    area, m1, m2 = geom.surface_moments(T)
    geom.close(np.sum(m.faces_areas), area, 1e-9 * area, '%s: total area', what)
    P = geom.polygon_soup(W, G)
    vec = np.array([0.5 * sum(np.cross(p[i] - p[0], p[i + 1] - p[0]) for i in range(1, len(p) - 1)) for p in P])
    nrm = vec / np.linalg.norm(vec, axis=1)[:, None]
    mn = np.asarray(m.faces_normals)
    # pairing by position is legitimate: transformations do not reorder faces nor do they modify the count
    if np.array_equal(m.faces, G):
        geom.close(mn, nrm, 1e-6, '%s: normals', what)
    closed = not case['mesh'].get('drop')
    if closed:
        v0 = geom.volume_moments(geom.soup(V, F))[0]
        sign = 1. if keep else -1.
        expected = sign * np.linalg.det(A) * v0
        geom.close(m.volume, expected, 1e-9 * size ** 3, '%s: volume', what)
        ctx.label('closed')
    lo, hi = W.min(axis=0), W.max(axis=0)
    geom.close(m.axis_aligned_bbox, [lo[0], hi[0], lo[1], hi[1], lo[2], hi[2]], 1e-10 * size, '%s: bounding box', what)


def check_involution(case, ctx):
    """Inverse operations give the original mesh back"""
    m, V, F = mesh_of(case['mesh'])
    size = geom.size_of(V)
    op = case['op']
    name = op[0]
    if case['warm']:
        m.faces_normals, m.get_surface_integrals(), m.ff
    v0 = float(m.volume)
    apply(m, op)
    if name == 'rotate':
        R = gen.rotmat(op[1])
        m.rotate_matrix(R.T)
    elif name.startswith('rotate_m'):
        m.rotate_matrix(gen.rotmat(op[1]).T)
    elif name.startswith('rotate_'):
        apply(m, [name, -op[1]])
    elif name == 'translate':
        apply(m, [name, [-x for x in op[1]]])
    elif name.startswith('translate_'):
        apply(m, [name, -op[1]])
    elif name.startswith('scale'):
        apply(m, [name, 1. / op[1]])
    else:
        apply(m, op)
    ctx.label('op:' + name)
    ctx.nontrivial(True)
    geom.close(m.vertices, V, 1e-10 * max(100., size), '%s and its inverse: vertices', name)
    require(oriented_faces(m.faces) == oriented_faces(F), '%s and its inverse: faces', name)
    geom.close(m.volume, v0, 1e-8 * max(size, 1.) ** 3, '%s and its inverse: volume', name)


PROPERTY = Property('C02', [
    Sub('laws', case_st, check, quick=3000),
    Sub('inverse', lambda: st.fixed_dictionaries({'mesh': gen.any_mesh(smax=6.), 'op': op_st(),
                                                  'warm': st.booleans()}), check_involution, quick=1000),
    Sub('tiny', lambda: case_st(lambda: tiny_st().filter(lambda op: op[0] != 'set_vertices')), check, quick=400),
    Sub('large', lambda: gen.with_large(case_st(), False), check, quick=100),
    Sub('magnitude', lambda: gen.with_magnitude(case_st(), magnitudes=(1e-3, 1e-2, 1e2, 1e4)), check, quick=500),
], rule='A case is a generated mesh and up to 3 transformations with arguments; it is non-trivial when at least one '
        'transformation is not the identity.',
    assumptions=['rotations by the three angles compose as Rz.Ry.Rx about fixed axes, as documented'])
