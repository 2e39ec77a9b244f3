"""C15: loaders give the mesh that the file describes, whatever the layout that the format allows"""
import os

import numpy as np
from hypothesis import strategies as st

import gen
import geom
import mfiles as meshio
from core import Property, Sub, Reject, require
from props.c14 import build_case, polys
from sut import mk, quiet
from meshmagick import mmio

KEY = {'mar': ('mar', 'nemoh'), 'nem': ('nem', 'nemoh_mesh'), 'nat': ('nat', 'natural'), 'gdf': ('gdf', 'wamit'),
       'hst': ('hst', 'hydrostar'), 'dat': ('diodore-dat',), 'tec': ('tec', 'tecplot'), 'pnl': ('pnl', 'hams'),
       'obj': ('obj',), 'stl': ('stl',), 'vtk': ('vtk', 'paraview-legacy'), 'vtp': ('vtp',), 'vtu': ('vtu',),
       'msh22': ('msh', 'gmsh'), 'msh41': ('msh', 'gmsh'), 'rad': ('rad', 'radioss'), 'wrl': ('wrl', 'vrml'),
       'inp': ('inp', 'diodore-inp'), 'med': ('med', 'salome')}
# formats whose numbers need a decimal point
DOT = ('rad', 'hst', 'tec', 'inp')
SINGLE = ('obj', 'stl', 'wrl')


def write(files):
    for fn, data in files.items():
        with open(fn, 'wb') as f:
            f.write(data if isinstance(data, bytes) else data.encode())


def load(fn, fmt):
    with quiet():
        return mmio.load_mesh(os.path.join(os.getcwd(), fn), fmt)


def check(case, ctx):
    name, o = case['format'], dict(case['o'])
    V, F = build_case(case)
    P = geom.polys_of(F)
    if name == 'rad':
        # the loader is documented for files of shells that have four nodes
        P = [p for p in P if len(p) == 4]
        if len(P) < 1:
            raise Reject('no quadrangle')
    if name in DOT and o['num'] == 'short':
        o['num'] = 'dot'
    if name == 'wrl' and o['num'] == 'fortran':
        o['num'] = 'e'
    single = name in SINGLE or (name in ('vtk', 'vtp', 'vtu') and not o['double'])
    big = np.abs(V).max()
    # shapes of wrl files are described in their own frame
    eps = (6e-8 if single else 0.) * (big + (7. if name == 'wrl' else 0.)) + 1e-9 * max(1., big)
    if name == 'wrl' and o['frames']:
        eps *= 8.       # angles are in single precision as well
    T = V[F]
    d = np.stack([np.abs(T[:, i] - T[:, j]).max(axis=1) + 1e300 * (F[:, i] == F[:, j])
                  for i in range(4) for j in range(i)])
    if d.min() < 20 * eps:
        raise Reject('vertices are too close for the precision of the format')
    key = KEY[name][case['key'] % len(KEY[name])]
    W = V
    if name == 'inp':
        files, (W, P) = meshio.out_inp(V, P, o, case['bodies'])
        write(files)
        fn, order = 'm.inp', list(range(len(P)))
        big = np.abs(W).max()
        eps = 1e-9 * max(1., big)
    elif name == 'med':
        fn = 'm.med'
        _, order = meshio.out_med(V, P, o, fn)
    else:
        files, order = meshio.WRITERS[name](V.tolist(), P, o)
        write(files)
        fn, = files
    if order and not isinstance(order[0], (int, np.integer)):
        P, order = order, list(range(len(order)))       # polygons that the cells of the file stand for
    V1, F1 = load(fn, key)
    V1 = np.asarray(V1)
    tol = lambda B: eps
    exp = [W[p] for p in P]
    if name == 'stl':
        got = meshio.corners(V1, polys(F1, name))
        meshio.require_split(got, exp, tol, name)
    elif name == 'gdf':
        F1 = np.asarray(F1)
        require(F1.shape == (len(P), 4) and V1.shape == (len(V1), 3), 'shapes')
        got = []
        for i, p in enumerate(P):
            c = V1[F1[i]]
            want = V[meshio._quad(p, o)]
            require(np.all(np.abs(c - want) <= eps), 'gdf: panel %d is\n%s\nexpected\n%s', i, c, want)
    else:
        P1 = polys(F1, name, o['repeat'] > 0)
        got = meshio.corners(V1, P1)
        meshio.require_same_faces(got, [exp[i] for i in order], tol, name)
        if name not in ('wrl', 'obj') and not (name == 'tec' and o['sections'] > 1):
            require(len(V1) == len(W), '%d vertices, %d expected', len(V1), len(W))
            require(np.all(np.abs(V1 - W) <= eps), 'vertices')
            require(all(geom.canon_cycle(P1[j]) == geom.canon_cycle(P[i]) for j, i in enumerate(order)),
                    'faces do not refer to the vertices they refer to in the file')
    ctx.label(name, 'ids:' + o['ids'] if name in ('dat', 'inp', 'msh22', 'msh41', 'hst', 'rad')
              else None,
              name + ':lines' if o['lines'] and name in ('vtk', 'vtp', 'vtu', 'msh22', 'msh41', 'med') else None,
              name + ':sections' if o['sections'] > 1 and name in ('hst', 'msh41', 'wrl', 'tec', 'dat', 'obj', 'stl', 'rad')
              else None, 'blanks:%d' % o['blanks'], '%s:%s' % (name, o['cells']) if name in ('vtk', 'vtp', 'vtu') and
              o['cells'] else None)
    ctx.nontrivial(True)


def check_chain(case, ctx):
    """A configuration file including the files that have been written for diodore"""
    V, F = build_case(case)
    if len(geom.polys_of(F)) == 0:
        raise Reject('empty')
    t = meshio.rounding('dat', V[F]).max()
    T = V[F]
    d = np.stack([np.abs(T[:, i] - T[:, j]).max(axis=1) + 1e300 * (F[:, i] == F[:, j])
                  for i in range(4) for j in range(i)])
    if d.min() < 20 * t:
        raise Reject('vertices are too close for the precision of the format')
    n = len(case['bodies'])
    with quiet():
        for k in range(n):
            mmio.write_mesh(os.path.join(os.getcwd(), 'part%d.dat' % k), V + [0., 0., 2. * k], F, 'diodore-dat')
    P = geom.polys_of(F)
    q = [i for i, p in enumerate(P) if len(p) == 4]
    r = [i for i, p in enumerate(P) if len(p) == 3]
    s = ''
    exp = []
    for b, (_, x) in enumerate(case['bodies']):
        s += '*FRAME,NAME=FR%d\n%s\n' % (b, ','.join(meshio.number(c, 'dot') for c in x))
    for b, (_, x) in enumerate(case['bodies']):
        s += '*NODE,INPUT=part%d,FRAME=FR%d%s\n' % (b, b, ',INCREMENT=YES' if b else '')
        if q:
            s += '*ELEMENT,TYPE=Q4C000,ELSTRUCTURE=part%d,INPUT=part%d\n' % (b, b)
        if r:
            s += '*ELEMENT,TYPE=T3C000,ELSTRUCTURE=part%d,INPUT=part%d\n' % (b, b)
        W = V + [0., 0., 2. * b] + np.array(x)
        exp += [W[P[i]] for i in q + r]
    write({'m.inp': s})
    V1, F1 = load('m.inp', 'inp')
    t = meshio.rounding('dat', np.abs(V).max() + 2. * n) + 1e-9
    meshio.require_same_faces(meshio.corners(V1, polys(F1, 'inp')), exp, lambda B: t, 'inp')
    ctx.label('bodies:%d' % n, 'both kinds' if q and r else 'one kind')
    ctx.nontrivial(True)


def options():
    return st.fixed_dictionaries({
        'num': st.sampled_from(['e', 'f', 'dot', 'short', 'fortran']), 'pad': st.sampled_from([0, 16, 22]),
        'crlf': st.booleans(), 'per_line': st.sampled_from([3, 3, 6, 12, 4, 1, 2]), 'sections': st.integers(1, 3),
        'mixed': st.booleans(), 'ids': st.sampled_from(['plain', 'gaps', 'shuffled']), 'seed': st.integers(0, 10 ** 6),
        'extra_vars': st.integers(0, 2), 'double': st.booleans(), 'lines': st.sampled_from([0, 0, 1, 2]),
        'binary': st.booleans(), 'blanks': st.sampled_from([0, 0, 1, 2, 3]), 'negative': st.booleans(),
        'cells': st.sampled_from(['', '', 'pixel', 'polygon', 'strip', 'both']), 'frames': st.booleans(),
        'repeat': st.sampled_from([0, 0, 0, 1, 2, 3, 4])})


def case_st(formats):
    return st.fixed_dictionaries({
        'format': st.sampled_from(formats), 'key': st.integers(0, 1), 'o': options(),
        'mesh': gen.any_mesh(max_bodies=2, smax=8.),
        'keep': st.sampled_from([0, 0, 0, 1, 2, 3, 5]), 'compact': st.booleans(),
        'scale': st.sampled_from([1., 1., 10., 1000., .1, .001]),
        'shift': st.one_of(st.just([0., 0., 0.]), gen.vec3(-9, 9)),
        'extra': st.lists(gen.vec3(-5, 5), max_size=2), 'unit': st.just(True),
        'bodies': bodies()})


def bodies():
    return st.lists(st.tuples(st.integers(0, 1), gen.vec3(-30, 30)).map(list), min_size=1, max_size=4)


ALL = ['mar', 'nem', 'nat', 'gdf', 'hst', 'dat', 'tec', 'pnl', 'rad', 'msh22', 'msh41', 'inp', 'med', 'wrl', 'obj', 'stl',
       'vtk', 'vtp', 'vtu']


PROPERTY = Property('C15', [
    Sub('layouts', lambda: case_st(['mar', 'nem', 'nat', 'gdf', 'hst', 'hst', 'dat', 'dat', 'tec', 'pnl', 'rad', 'rad']),
        check, quick=2400),
    Sub('third', lambda: case_st(['msh22', 'msh22', 'msh41', 'msh41', 'inp', 'inp', 'inp', 'med', 'wrl', 'wrl', 'obj',
                                  'stl', 'vtk', 'vtp', 'vtu']), check, quick=2400),
    Sub('chain', lambda: st.fixed_dictionaries({
        'mesh': gen.any_mesh(max_bodies=2, smax=8.), 'keep': st.sampled_from([0, 0, 3, 5]), 'compact': st.booleans(),
        'scale': st.sampled_from([1., 10.]), 'shift': gen.vec3(-9, 9), 'extra': st.just([]), 'unit': st.just(True),
        'bodies': bodies()}), check_chain, quick=300),
    Sub('large', lambda: gen.with_large(case_st(ALL), False), check, quick=120),
], rule='Files are written by an independent writer for the 19 readable formats with the variations they allow '
        '(notation of numbers, blanks, line ends, numbering of nodes with gaps or in any order, several sections, '
        'zones, bodies or shapes, kinds of cells, additional lines, points or variables, binary stl); non-trivial: the vertices of every face are '
        'distinct in the file.',
    assumptions=['radioss files are made of shells having four distinct nodes, with the keyword /SHELL before those of each part',
                 'in inp files every node section but the first one is incremented (INCREMENT=YES)'])
