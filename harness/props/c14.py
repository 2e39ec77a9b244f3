"""C14: a mesh that is written then read back is the same mesh, in every format that is both written and read"""
import os

import numpy as np
from hypothesis import strategies as st

import gen
import geom
import mfiles as meshio
from core import Property, Sub, Reject, Violation, require
from sut import mk, quiet
from meshmagick import mmio


def build_case(case):
    """Vertices and faces: a part of the faces of a mesh, scaled, with unused vertices"""
    V, F = gen.build(case['mesh'])
    if case['keep']:
        F = F[:case['keep']]
        if case['compact']:
            used, inv = np.unique(F, return_inverse=True)
            V, F = V[used], inv.reshape(F.shape)
    V = V * case['scale'] + np.array(case['shift'])
    if case['extra']:
        V = np.vstack((V, np.array(case['extra'])))
    if case.get('twice'):
        # faces that are given twice, or on both of their sides
        more = []
        for i, side in case['twice']:
            f = F[i % len(F)]
            more.append(f[::-1] if side else f)
        F = np.vstack((F, more))
    return V, F


def tol_of(name):
    return lambda B: meshio.rounding(name, B)


def separated(name, V, F, k=4.):
    """Vertices of a face remain distinct in the file"""
    A = V[F]
    for i in range(4):
        for j in range(i):
            t = meshio.rounding(name, A[:, i]) + meshio.rounding(name, A[:, j])
            ok = np.any(np.abs(A[:, i] - A[:, j]) > k * t, axis=1) | (F[:, i] == F[:, j])
            if not ok.all():
                return False
    return True


def read_back(fmt, name, V, F, where='mesh'):
    """What is read after having been written"""
    fn = os.path.join(os.getcwd(), where + '.' + {'dat': 'DAT'}.get(name, name))
    if os.path.exists(fn):
        os.remove(fn)
    with quiet():
        mmio.write_mesh(fn, V, F, fmt)
        require(os.path.isfile(fn), 'no file has been written')
        return mmio.load_mesh(fn, fmt), fn


def polys(F, what, anywhere=False):
    F = np.asarray(F)
    require(F.ndim == 2 and F.shape[1] == 4 and F.dtype.kind == 'i', '%s: faces are an array of shape %s and type %s',
            what, F.shape, F.dtype)
    out = []
    for f in F.tolist():
        if len(set(f)) == 4:
            out.append(f)
        elif anywhere:
            # the file repeats any of the vertices of triangles
            p = [f[i] for i in range(4) if f[i] != f[i - 1]]
            require(len(p) == 3 and len(set(p)) == 3, '%s: face %s is neither a quadrangle nor a triangle', what, f)
            out.append(p)
        else:
            require(f[0] == f[3] and len(set(f)) == 3, '%s: face %s is neither a quadrangle nor a triangle whose '
                    'first vertex is repeated at last', what, f)
            out.append(f[:3])
    return out


def check(case, ctx):
    fmt = case['format']
    name = meshio.RW[fmt]
    V, F = build_case(case)
    if not separated(name, V, F):
        raise Reject('vertices are too close for the digits of the format')
    if case.get('pinch') and name not in ('gdf', 'stl'):
        # vertices of a quadrangle that are distinct, at the same place
        quads = np.where(F[:, 0] != F[:, 3])[0]
        for i, a, b in case['pinch']:
            if len(quads):
                i = quads[i % len(quads)]
                V = np.vstack((V, V[F[i, a]]))
                F = F.copy()
                F[i, (a + b) % 4] = len(V) - 1
        ctx.label('pinched' if len(quads) else None)
    V0, F0 = V.copy(), F.copy()
    (V1, F1), fn = read_back(fmt, name, V, F)
    require(np.array_equal(V, V0) and np.array_equal(F, F0), 'the arrays have been modified by writing')
    exp = [V0[p] for p in geom.polys_of(F0)]
    tol = tol_of(name)
    V1 = np.asarray(V1)
    require(V1.ndim == 2 and V1.shape[1] == 3 and V1.dtype.kind == 'f', 'vertices are an array of shape %s and type '
            '%s', V1.shape, V1.dtype)
    if name == 'stl':
        got = meshio.corners(V1, polys(F1, fmt))
        meshio.require_split(got, exp, tol, fmt)
        if len(V1):
            require(len(np.unique(V1, axis=0)) == len(V1), 'stl: duplicated vertices remain')
    elif name == 'gdf':
        # one set of vertices for every face: triangles are faces whose last vertex is at the place of the first one
        m = mk(V1, F1)
        m.merge_duplicates()
        meshio.require_same_faces(meshio.corners(m.vertices, polys(m.faces, fmt)), exp, tol, fmt)
    else:
        require(V1.shape == V0.shape, '%d vertices, %d expected', len(V1), len(V0))
        require(np.all(np.abs(V1 - V0) <= meshio.rounding(name, V0)), 'vertices: error of %s',
                np.abs(V1 - V0).max(axis=0))
        P1, P0 = polys(F1, fmt), geom.polys_of(F0)
        if name == 'dat':
            # triangles and quadrangles are in distinct sections
            key = lambda p: (len(p), p)
            P1 = sorted((list(geom.canon_cycle(p)) for p in P1), key=key)
            P0 = sorted((list(geom.canon_cycle(p)) for p in P0), key=key)
        require(len(P1) == len(P0), '%d faces, %d expected', len(P1), len(P0))
        for a, b in zip(P1, P0):
            require(geom.canon_cycle(a) == geom.canon_cycle(b), 'face %s, %s expected', a, b)
    if name not in ('vtk', 'obj', 'stl'):
        # what has been read is written and read without any further change
        (V2, F2), _ = read_back(fmt, name, np.array(V1), np.array(F1), 'again')
        require(np.array_equal(V2, V1), 'vertices change again when written a second time')
        if name != 'dat':
            require(np.array_equal(F2, F1), 'faces change when written a second time')
    nt = sum(len(p) == 3 for p in geom.polys_of(F0))
    ctx.label(fmt, 'triangles and quadrangles' if 0 < nt < len(F) else 'triangles' if nt else 'quadrangles',
              'less than 4 faces' if len(F) < 4 else 'less than 100 faces' if len(F) < 100 else 'more faces')
    ctx.nontrivial(True)


def large_mesh(case):
    nx, ny = case['nx'], case['ny']
    x, y = np.meshgrid(np.arange(nx + 1.), np.arange(ny + 1.), indexing='ij')
    V = np.column_stack((x.ravel() - case['x0'], y.ravel(), -1. - .001 * (x * y % 7).ravel()))
    i, j = np.meshgrid(np.arange(nx), np.arange(ny), indexing='ij')
    a = (i * (ny + 1) + j).ravel()
    F = np.column_stack((a, a + ny + 1, a + ny + 2, a + 1))
    if case['tri']:
        F[::3, 3] = F[::3, 0]
    return V, F


def large_case(formats):
    return st.fixed_dictionaries({
        'format': st.sampled_from(formats), 'nx': st.sampled_from([320, 330, 100]), 'ny': st.sampled_from([316, 310, 105]),
        'x0': st.sampled_from([0., 1e4, 99999.5]), 'tri': st.booleans()})


def check_large(case, ctx):
    """Sizes for which numbers fill the columns of the files"""
    fmt = case['format']
    name = meshio.RW[fmt]
    V, F = large_mesh(case)
    (V1, F1), _ = read_back(fmt, name, V, F)
    if name == 'gdf':
        got = np.asarray(V1)[np.asarray(F1)]
        require(got.shape == (len(F), 4, 3), 'shape %s', got.shape)
        require(np.all(np.abs(got - V[F]) <= meshio.rounding(name, V[F])), 'corners')
    else:
        require(V1.shape == V.shape and F1.shape == F.shape, 'shapes %s %s', V1.shape, F1.shape)
        require(np.all(np.abs(V1 - V) <= meshio.rounding(name, V)), 'vertices')
        if name == 'dat':
            F1, F = F1[np.lexsort(F1.T)], F[np.lexsort(F.T)]
        require(np.array_equal(F1, F), 'faces')
    ctx.label(fmt, 'more than 100000 faces' if len(F) > 99999 else 'large')
    ctx.nontrivial(True)


def shift_st():
    """Coordinates of any magnitude, down to the last digits of the formats"""
    return st.one_of(st.just([0., 0., 0.]), gen.vec3(-9, 9), gen.vec3(-9, 9).map(lambda v: [1e4 * c for c in v]),
                     gen.vec3(-9, 9).map(lambda v: [1e-6 * c for c in v]))


def twice_st():
    return st.one_of(st.just([]), st.just([]), st.just([]), st.lists(st.tuples(
        st.integers(0, 99), st.booleans()).map(list), min_size=1, max_size=2))


def case_st(formats):
    return st.fixed_dictionaries({
        'format': st.sampled_from(formats),
        'mesh': gen.any_mesh(max_bodies=2, smax=8.),
        'keep': st.sampled_from([0, 0, 0, 1, 2, 3, 5]), 'compact': st.booleans(),
        'scale': st.sampled_from([1., 1., 1., 10., 1000., .1]),
        'shift': shift_st(),
        'extra': st.lists(gen.vec3(-5, 5), max_size=2), 'twice': twice_st(),
        'pinch': st.one_of(st.just([]), st.just([]), st.lists(st.tuples(
            st.integers(0, 99), st.integers(0, 3), st.integers(1, 3)).map(list), min_size=1, max_size=3))})


PROPERTY = Property('C14', [
    Sub('text', lambda: case_st(sorted(k for k, v in meshio.RW.items() if v not in ('vtu', 'vtp', 'vtk', 'obj', 'stl'))),
        check, quick=3000),
    Sub('vtk', lambda: case_st(sorted(k for k, v in meshio.RW.items() if v in ('vtu', 'vtp', 'vtk', 'obj', 'stl'))),
        check, quick=1600),
    Sub('large', lambda: large_case(['nat', 'nat', 'mar', 'gdf', 'hst', 'tec', 'nem', 'pnl', 'diodore-dat']),
        check_large, quick=24, factor=4),
], rule='Meshes of triangles and/or quadrangles (from 1 to 100000 faces, vertices not used by any face, coordinates up '
        'to 1e5) are written and read back in every format having both a writer and a reader, through every keyword of '
        'the format; non-trivial: vertices of the faces are distinct with the digits of the format.',
    assumptions=['coordinates are compared with the number of digits of the format (6 decimals, 7 digits, 6 digits for '
                 'diodore, simple precision for vtk)'])
