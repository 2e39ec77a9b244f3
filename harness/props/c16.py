"""C16: written files hold the whole mesh in the conventions of their format; what cannot be written is refused"""
import os

import numpy as np
from hypothesis import strategies as st

import gen
import geom
import mfiles as meshio
from core import Property, Sub, Reject, Violation, require
from props.c14 import build_case, separated, tol_of, shift_st, twice_st, large_case, large_mesh
from sut import mk, quiet, snapshot, require_unchanged
from meshmagick import mmio


def written(fn):
    """The only file that is in the directory of fn"""
    files = os.listdir(os.path.dirname(fn))
    require(len(files) == 1, '%s have been written', files)
    return os.path.join(os.path.dirname(fn), files[0])


def clean(d):
    os.makedirs(d, exist_ok=True)
    for f in os.listdir(d):
        os.remove(os.path.join(d, f))


def check(case, ctx):
    fmt = case['format']
    name = meshio.RW[fmt]
    V, F = build_case(case)
    if not separated(name, V, F):
        raise Reject('vertices are too close for the digits of the format')
    d = os.path.join(os.getcwd(), 'out')
    clean(d)
    fn = os.path.join(d, case['stem'] + '.' + {'dat': 'DAT'}.get(name, name))
    if case['exists']:
        with open(fn, 'w') as f:
            f.write('1 2 3 previous content\n' * 3000)
    V0, F0 = V.copy(), F.copy()
    how = case['arrays']
    if how == 'readonly':
        V.setflags(write=False)
        F.setflags(write=False)
    elif how == 'fortran':
        V, F = np.asfortranarray(V), np.asfortranarray(F)
    elif how == 'int32':
        F = F.astype(np.int32)
    elif how == 'view':
        V, F = np.column_stack((V, V))[:, :3], np.column_stack((F, F))[:, :4]
    with quiet():
        mmio.write_mesh(fn, V, F, fmt)
    require(np.array_equal(V, V0) and np.array_equal(F, F0), 'the arrays have been modified by writing')
    want = os.path.basename(fn)
    fn = written(fn)
    require(os.path.basename(fn) == want, 'the file %s has been written, %s expected', os.path.basename(fn), want)
    with open(fn) as f:
        text = f.read()
    try:
        V1, P1 = meshio.READERS[name](text)
    except Violation:
        raise
    except Exception as exc:
        raise Violation('%s: the file cannot be read: %s %s' % (name, type(exc).__name__, exc))
    tol = tol_of(name)
    V1 = np.array(V1, dtype=float).reshape((-1, 3))
    exp = [V0[p] for p in geom.polys_of(F0)]
    got = meshio.corners(V1, P1)
    if name == 'stl':
        meshio.require_split(got, exp, tol, name)
    else:
        meshio.require_same_faces(got, exp, tol, name)
        if name != 'gdf':
            require(len(V1) == len(V0), '%d vertices, %d expected', len(V1), len(V0))
            require(np.all(np.abs(V1 - V0) <= meshio.rounding(name, V0)), 'vertices')
            require([geom.canon_cycle(p) for p in P1] == [geom.canon_cycle(p) for p in geom.polys_of(F0)],
                    'connectivities')
    ctx.label(fmt, how, 'overwrites' if case['exists'] else None)
    ctx.nontrivial(True)


def check_large(case, ctx):
    """Sizes for which numbers fill the columns of the files"""
    fmt = case['format']
    name = meshio.RW[fmt]
    V, F = large_mesh(case)
    d = os.path.join(os.getcwd(), 'out')
    clean(d)
    with quiet():
        mmio.write_mesh(os.path.join(d, 'mesh.' + name.upper()), V, F, fmt)
    with open(written(os.path.join(d, 'mesh'))) as f:
        V1, P1 = meshio.READERS[name](f.read())
    V1 = np.array(V1, dtype=float).reshape((-1, 3))
    if name == 'gdf':
        exp = geom.polys_of(F)
        require([len(p) for p in P1] == [len(p) for p in exp], '%s: numbers of vertices of the faces', name)
        for n in (3, 4):
            A = V1[np.array([p for p in P1 if len(p) == n], dtype=int).reshape(-1, n)]
            B = V[np.array([p for p in exp if len(p) == n], dtype=int).reshape(-1, n)]
            # a face may begin by any of its vertices
            ok = [np.all(np.abs(np.roll(A, k, axis=1) - B) <= meshio.rounding(name, B), axis=(1, 2)) for k in range(n)]
            require(np.all(np.any(ok, axis=0)), '%s: corners', name)
    else:
        require(len(V1) == len(V) and np.all(np.abs(V1 - V) <= meshio.rounding(name, V)), '%s: vertices', name)
        require([geom.canon_cycle(p) for p in P1] == [geom.canon_cycle(p) for p in geom.polys_of(F)],
                '%s: connectivities', name)
    ctx.label(fmt, 'more than 100000 faces' if len(F) > 99999 else 'large')
    ctx.nontrivial(True)


def check_quick(case, ctx):
    """Mesh.quick_save"""
    V, F = gen.build(case['mesh'])
    d = os.path.join(os.getcwd(), 'out')
    clean(d)
    m = mk(V, F)
    snap = snapshot(m)
    here = os.getcwd()
    os.chdir(d)
    try:
        with quiet():
            for _ in range(case['times']):
                if case['name'] is None:
                    m.quick_save()
                else:
                    m.quick_save(os.path.join(d, case['name']) if case['absolute'] else case['name'])
    finally:
        os.chdir(here)
    require_unchanged(m, snap, 'quick_save')
    stem = case['name'] or 'quick_save'
    require(os.listdir(d) == [stem if stem.endswith('.vtp') else stem + '.vtp'], '%s: files %s', stem, os.listdir(d))
    with open(os.path.join(d, os.listdir(d)[0])) as f:
        V1, P1 = meshio.READERS['vtp'](f.read())
    V1 = np.array(V1, dtype=float).reshape((-1, 3))
    require(len(V1) == len(V) and np.all(np.abs(V1 - V) <= meshio.rounding('vtp', V)), 'vertices')
    require([geom.canon_cycle(p) for p in P1] == [geom.canon_cycle(p) for p in geom.polys_of(F)], 'connectivities')
    ctx.label(stem)
    ctx.nontrivial(True)


def check_refused(case, ctx):
    V, F = build_case(case)
    d = os.path.join(os.getcwd(), 'out')
    clean(d)
    fn = os.path.join(d, 'mesh.' + case['ext'])
    if case['exists']:
        with open(fn, 'w') as f:
            f.write('previous content\n')
    fmt = case['format']
    V0, F0 = V.copy(), F.copy()
    try:
        with quiet():
            mmio.write_mesh(fn, V, F, fmt)
    except (NotImplementedError if fmt in meshio.READ_ONLY else IOError):
        pass
    else:
        raise Violation('writing to the format %r is not refused' % fmt)
    require(np.array_equal(V, V0) and np.array_equal(F, F0), 'the arrays have been modified')
    if case['exists']:
        with open(fn) as f:
            require(f.read() == 'previous content\n', 'the existing file has been altered')
    else:
        require(os.listdir(d) == [], 'a file has been created: %s', os.listdir(d))
    require(mmio.know_extension(fmt) == (fmt in meshio.READ_ONLY), 'known extensions')
    # reading
    try:
        with quiet():
            mmio.load_mesh(fn if case['exists'] else os.path.join(d, 'nothing'),
                           fmt if case['exists'] else case['any'])
    except Exception as exc:
        if not case['exists']:
            require(isinstance(exc, IOError), 'a file that does not exist gives %s', type(exc).__name__)
        elif fmt not in meshio.READ_ONLY:
            require(isinstance(exc, IOError), 'an unknown format gives %s', type(exc).__name__)
    else:
        raise Violation('a mesh is read from %s' % ('a text that is not a mesh' if case['exists'] else
                                                   'a file that does not exist'))
    ctx.label('known' if fmt in meshio.READ_ONLY else 'unknown', 'exists' if case['exists'] else 'new')
    ctx.nontrivial(True)


COMMON = lambda: {
    'mesh': gen.any_mesh(max_bodies=2, smax=8.), 'keep': st.sampled_from([0, 0, 0, 1, 2, 3, 5]),
    'compact': st.booleans(), 'scale': st.sampled_from([1., 1., 10., 1000., .1]),
    'shift': shift_st(), 'twice': twice_st(), 'extra': st.lists(gen.vec3(-5, 5), max_size=2)}

PROPERTY = Property('C16', [
    Sub('content', lambda: st.fixed_dictionaries(dict(
        COMMON(), format=st.sampled_from(sorted(meshio.RW)), exists=st.booleans(),
        stem=st.sampled_from(['mesh', 'my mesh', 'a.b', 'MESH_2']),
        arrays=st.sampled_from(['plain', 'readonly', 'fortran', 'int32', 'view']))), check, quick=4000),
    Sub('large', lambda: large_case(['nat', 'mar', 'gdf', 'hst', 'tec', 'nem', 'pnl', 'obj', 'vtk', 'diodore-dat']),
        check_large, quick=20, factor=4),
    Sub('refused', lambda: st.fixed_dictionaries(dict(
        COMMON(), format=st.one_of(st.sampled_from(meshio.READ_ONLY),
                                   st.sampled_from(['', 'xyz', 'MAR', '.mar', 'dae', 'dat', 'ply', 'vt', 'hst '])),
        ext=st.sampled_from(['mar', 'out']), exists=st.booleans(), any=st.sampled_from(sorted(
            k for k in list(meshio.RW) + list(meshio.READ_ONLY))))), check_refused, quick=400),
    Sub('quick_save', lambda: st.fixed_dictionaries({
        'mesh': gen.any_mesh(max_bodies=2), 'times': st.sampled_from([1, 1, 2]), 'absolute': st.booleans(),
        'name': st.sampled_from([None, 'debug', 'debug.vtp', 'hull.nat', 'a.vtp.old'])}), check_quick, quick=150),
], rule='Meshes of triangles and quadrangles (1 to several hundreds of faces, unused vertices, several memory layouts of '
        'the arrays) are written in the 21 keywords having a writer and parsed by an independent strict reader of the '
        'format; non-trivial: the vertices of every face are distinct with the digits of the format.',
    assumptions=['coordinates are compared with the number of digits of the format',
                 'whole meshes are written: no symmetry is declared by the headers'])
