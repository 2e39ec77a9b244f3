"""C18: the command line applies the operations asked for, in the fixed order of the program"""
import os
import re
import subprocess
import sys

import numpy as np
from hypothesis import strategies as st

import clirun
import gen
import geom
import mfiles as meshio
from core import Property, Sub, Reject, Violation, require, harness, REPO
from props.c14 import polys
from props.c15 import KEY, options, write

NORMALS = {'Oxy': [0., 0., 1.], 'Oxz': [0., 1., 0.], 'Oyz': [1., 0., 0.],
           '/Oxy': [0., 0., -1.], '/Oxz': [0., -1., 0.], '/Oyz': [-1., 0., 0.]}
# input formats: number of vertices kept as they are in the file
INPUTS = ('nat', 'mar', 'hst', 'gdf', 'obj', 'stl', 'tec', 'pnl', 'vtk', 'vtu', 'vtp', 'nem', 'msh22', 'dat')
EXT = {'msh22': 'msh'}
OUTPUTS = ('mar', 'gdf', 'hst', 'nat', 'stl', 'vtu', 'vtp', 'vtk', 'tec', 'nem', 'pnl', 'obj')
# output format -> keywords
KEYWORDS = {}
for _k, _n in meshio.RW.items():
    KEYWORDS.setdefault(_n, []).append(_k)


PLAIN = {'num': 'e', 'pad': 0, 'crlf': False, 'per_line': 3, 'sections': 1, 'mixed': False, 'ids': 'plain', 'seed': 0,
         'extra_vars': 0, 'double': True, 'lines': 0, 'binary': False}


def txt(x):
    """Numbers without exponent, as argparse takes -1e-05 for an option"""
    return '%.9f' % x


# --------------------------------------------------------------------------------------------------------------------
# Model: a mesh is a list of polygons (arrays of corners)
# --------------------------------------------------------------------------------------------------------------------

@harness
def reflect(polygons, n, c):
    return [(p - 2 * np.outer(p.dot(n) - c, n))[::-1] for p in polygons]


@harness
def linear(polygons, M):
    return [p.dot(M.T) for p in polygons]


@harness
def bounds(polygons):
    pts = np.concatenate(polygons)
    return pts.min(axis=0), pts.max(axis=0)


class Planes(object):
    """Planes of the command line: those of the -p option are numbered"""

    def __init__(self, decoys):
        self.args, self.values = [], []
        for d in decoys:
            self.define(d)

    def define(self, spec):
        if spec['key']:
            self.args.append([spec['key']])
            self.values.append((np.array(NORMALS[spec['key']]), 0.))
        else:
            n = unit(spec['normal'])
            self.args.append([repr_f(v) for v in n] + [txt(spec['c'])])
            self.values.append((n, float(txt(spec['c']))))
        return len(self.args) - 1

    def use(self, spec, polygons, default):
        """(arguments, normal, scalar) of a plane given to an option"""
        kind = spec['kind']
        if kind == 'default':
            return [], np.array(NORMALS[default]), 0.
        if kind == 'key':
            return [spec['key']], np.array(NORMALS[spec['key']]), 0.
        n = unit(spec['normal'])
        d = np.concatenate(polygons).dot(n)
        c = float('%.5f' % (d.min() + spec['ratio'] * (d.max() - d.min())))
        if kind == 'four':
            # any normal stands for the same plane when it goes through the origin
            k = spec['norm'] if c == 0. else 1.
            return [repr_f(k * v) for v in n] + [txt(c)], n, c
        if kind == 'again' and self.args:
            i = spec['again'] % len(self.args)
            return [str(i)], self.values[i][0], self.values[i][1]
        i = self.define({'key': None, 'normal': spec['normal'], 'c': c})
        return [str(i)], self.values[i][0], self.values[i][1]


def unit(n):
    n = np.array(n, dtype=float)
    return n / np.linalg.norm(n)


def repr_f(v):
    return '%.17f' % v


# --------------------------------------------------------------------------------------------------------------------

ROT = {'rx': 0, 'ry': 1, 'rz': 2}


def rot1(i, deg):
    a = [0., 0., 0.]
    a[i] = np.radians(deg)
    return gen.rotmat(a)


LONG = {'t': '--translate', 'tx': '--translatex', 'ty': '--translatey', 'tz': '--translatez', 'r': '--rotate',
        'rx': '--rotatex', 'ry': '--rotatey', 'rz': '--rotatez', 's': '--scale', 'sx': '--scalex', 'sy': '--scaley',
        'sz': '--scalez', 'hm': '--heal-mesh', 'hn': '--heal-normals', 'fn': '--flip-normals',
        'tq': '--triangulate-quadrangles', 'sym': '--symmetrize', 'c': '--clip-by-plane', 'md': '--merge-duplicates',
        'cc': '--concatenate-file', 'p': '--plane', 'pi': '--plain-inertia', 'si': '--shell-inertia', 'i': '--info',
        'q': '--quiet', 'o': '--outfilename', 'ifmt': '--input-format', 'ofmt': '--output-format'}


def opt(name, long_):
    return LONG[name] if long_ else '-' + name


def write_input(mesh, name, o, stem, drop_ext=False, twist=0):
    V, F = gen.build(mesh)
    used, F = np.unique(F, return_inverse=True)
    V, F = np.round(V[used], 9), F.reshape((-1, 4))
    P = geom.polys_of(F)
    if name == 'stl':
        P = [t for p in P for t in ([p] if len(p) == 3 else [p[:3], [p[0], p[2], p[3]]])]
    P = [p[::-1] if twist >> (i % 40) & 1 else p for i, p in enumerate(P)]
    files, order = meshio.WRITERS[name](V.tolist(), P, dict(o, cells='', frames=False))
    if order is None:
        order = list(range(len(P)))
    fn, = files
    new = stem + (os.path.splitext(fn)[1] if not drop_ext else '.foo')
    write({new: files[fn]})
    twisted = [bool(twist >> (i % 40) & 1) for i in order]
    return V, [P[i] for i in order], os.path.join(os.getcwd(), new), twisted


def check(case, ctx):
    name, o = case['in'], dict(case['layout'])
    if o['num'] == 'short':
        o['num'] = 'dot'
    o['double'] = True
    for f in os.listdir('.'):
        if os.path.isfile(f):
            os.remove(f)
    clirun.fresh()
    ops, long_ = case['ops'], case['long']
    if 'hm' in ops or 'hn' in ops:
        if 'cc' in ops or 'sym' in ops or len(geom.components(gen.build(case['mesh'])[1])) > 1 or case['mesh'].get('drop'):
            # orientation of surfaces that are not connected or not closed: see C06
            ops = {i: j for i, j in ops.items() if i not in ('hm', 'hn')}
    heal = 'hm' in ops or 'hn' in ops
    V, P, fn, twisted = write_input(case['mesh'], name, o, case['stem'], case['ifmt'] == 2, case['twist'] if heal else 0)
    with open(fn, 'rb') as f:
        data = f.read()
    single = name in ('obj', 'stl')
    model = [V[p] for p in P]
    if single:
        model = [p.astype(np.float32).astype(float) for p in model]
    opts = []       # groups of arguments
    planes = Planes(case['decoys'])
    sheared = [0.]

    # loaders of these formats give distinct vertices to every face
    merged = name in ('gdf', 'obj') or (name == 'tec' and o['sections'] > 1) or 'md' in ops
    twin = None
    if 'cc' in ops:
        o2 = dict(o)
        V2, P2, twin, _ = write_input(ops['cc'], name, o2, 'other')
        with open(twin, 'rb') as f:
            data2 = f.read()
        more = [V2[p] for p in P2]
        if single:
            more = [p.astype(np.float32).astype(float) for p in more]
        model = model + more
        opts.append([opt('cc', long_), twin])
    if case['ifmt'] or (twin and EXT.get(name, name) != os.path.splitext(fn)[1][1:]) or name == 'dat':
        opts.append([opt('ifmt', long_), KEY[name][case['ifmt'] % len(KEY[name])]])
    if 'md' in ops and ops['md'] is not None:
        opts.append([opt('md', long_), txt(ops['md'])])
    elif merged:
        opts.append([opt('md', long_)])

    def separated():
        pts = np.unique(np.concatenate(model), axis=0)
        lab, = geom.vertex_classes([pts], 1e-3)
        if len(np.unique(lab)) < len(np.unique(np.round(pts, 7), axis=0)):
            raise Reject('close vertices')

    if 'md' in ops or 'cc' in ops or merged or 'hm' in ops:
        separated()
    applied = 0
    if 'mirror' in ops:
        args, n, c = planes.use(ops['mirror'], model, 'Oxy')
        opts.append(['--mirror'] + args)
        model = reflect(model, n, c)
        applied += 1
    for spec in ops.get('sym', []):
        args, n, c = planes.use(spec, model, 'Oxz')
        opts.append(([opt('sym', long_)] + args, 'keep'))
        model = model + reflect(model, n, c)
        separated()
        applied += 1
    if heal:
        for k in ('hm', 'hn'):
            if k in ops:
                opts.append([opt(k, long_)])
        model = [p[::-1] if t else p for p, t in zip(model, twisted)]
        if geom.volume_moments(soup(model))[0] < 0:
            model = [p[::-1] for p in model]
        applied += 1
    if 't' in ops:
        opts.append([opt('t', long_)] + [txt(v) for v in ops['t']])
        model = [p + ops['t'] for p in model]
        applied += 1
    for i, k in enumerate(('tx', 'ty', 'tz')):
        if k in ops:
            opts.append([opt(k, long_), txt(ops[k])])
            model = [p + np.eye(3)[i] * ops[k] for p in model]
            applied += 1
    if 'r' in ops:
        opts.append([opt('r', long_)] + [txt(v) for v in ops['r']])
        model = linear(model, gen.rotmat(np.radians(ops['r'])))
        applied += 1
    for i, k in enumerate(('rx', 'ry', 'rz')):
        if k in ops:
            opts.append([opt(k, long_), txt(ops[k])])
            model = linear(model, rot1(i, ops[k]))
            applied += 1
    if 's' in ops:
        opts.append([opt('s', long_), txt(ops['s'])])
        model = linear(model, np.eye(3) * ops['s'])
        applied += 1
    for i, k in enumerate(('sx', 'sy', 'sz')):
        if k in ops:
            opts.append([opt(k, long_), txt(ops[k])])
            M = np.eye(3)
            M[i, i] = ops[k]
            model = linear(model, M)
            applied += 1
    if 'fn' in ops:
        opts.append([opt('fn', long_)])
        model = [p[::-1] for p in model]
        applied += 1
    if 'tq' in ops:
        opts.append([opt('tq', long_)])
        applied += 1
    stretch = float(np.prod([max(1., ops[k]) for k in ('s', 'sx', 'sy', 'sz') if k in ops]))
    size = max(1., max(np.abs(p).max() for p in model))
    tops = []
    for spec in ops.get('c', []):
        args, n, c = planes.use(spec, model, 'Oxy')
        opts.append(([opt('c', long_)] + args, 'keep'))
        dists = [p.dot(n) - c for p in model]
        near = np.abs(np.concatenate(dists))
        if np.any(near < 5e-3 + 1e-4 * size):
            raise Reject('vertices next to a clipping plane')
        if np.all(np.concatenate(dists) < 0) or np.all(np.concatenate(dists) > 0):
            raise Reject('no crossing')
        out = [geom.clip_polygon(p, d) for p, d in zip(model, dists)]
        model = [p for p in out if p is not None]
        tops.append((n, c))
        applied += 1
    for a in planes.args:
        opts.append(([opt('p', long_)] + a, 'keep'))

    # what is asked for
    clipped = bool(tops)
    if 'pi' in ops:
        opts.append([opt('pi', long_)])
    if 'si' in ops:
        opts.append([opt('si', long_)])
    if case['rho'] is not None and ('pi' in ops or 'si' in ops):
        opts.append(['--rho-medium', str(case['rho'])])
    if case['thickness'] is not None and 'si' in ops:
        opts.append(['--thickness', txt(case['thickness'])])
    quiet = case['quiet']
    if quiet:
        opts.append([opt('q', long_)])
    if 'i' in ops:
        opts.append([opt('i', long_)])

    # output
    out, kind = case['out'], case['kind']
    stem = 'result'
    if kind == 'ext':
        res = stem + '.' + (out.upper() if case['upper'] else out)
        opts.append([opt('o', long_), os.path.join(os.getcwd(), res)])
    elif kind == 'both':
        res = stem + case['suffix']
        opts.append([opt('o', long_), os.path.join(os.getcwd(), res)])
        kws = KEYWORDS[out]
        opts.append([opt('ofmt', long_), kws[case['kw'] % len(kws)]])
    elif kind == 'only':
        kws = KEYWORDS[out]
        kw = kws[case['kw'] % len(kws)]
        res = case['stem'] + '.' + kw
        if os.path.abspath(res) == fn:
            raise Reject('the output is the input')
        opts.append([opt('ofmt', long_), kw])
    else:
        res = None

    # options in any order, but those that may be given several times, whose order matters
    keep = [g[0] for g in opts if isinstance(g, tuple)]
    free = [g for g in opts if not isinstance(g, tuple)]
    rnd = np.random.RandomState(case['order'])
    free = [free[i] for i in rnd.permutation(len(free))]
    slots = sorted(rnd.randint(0, len(free) + 1, size=len(keep)).tolist())
    order = []
    for i in range(len(free) + 1):
        order += [k for k, s in zip(keep, slots) if s == i]
        if i < len(free):
            order.append(free[i])
    args = [fn] + [a for g in order for a in g]
    before = set(os.listdir('.'))
    exc, text = clirun.run_cli(args)
    if exc is not None:
        raise Violation('%s: the command line ends by %s %s' % (' '.join(args[1:]), type(exc).__name__, exc))
    what = ' '.join(args[1:])
    with open(fn, 'rb') as f:
        require(f.read() == data, '%s: the input file has been modified', what)
    if twin:
        with open(twin, 'rb') as f:
            require(f.read() == data2, '%s: the concatenated file has been modified', what)
    new = set(os.listdir('.')) - before
    require(new == ({res} if res else set()), '%s: files %s have been written, %s expected', what, sorted(new), res)
    T = soup(model)
    # single precision of the input
    e_in = 3e-7 * max(np.abs(V).max(), np.abs(V2).max() if twin else 0.) * stretch if single else 0.
    if res:
        with open(res) as f:
            W, Q = meshio.READERS[out](f.read())
        W = np.array(W, dtype=float).reshape(-1, 3)
        got = meshio.corners(W, Q)
        tol = lambda B: 1.5 * meshio.rounding(out, B) + (1e-9 * size + e_in) * np.ones_like(B)
        if clipped:
            compare_clipped(got, model, T, tops, float(np.max(tol(np.full(3, size)))), size, what)
        else:
            if 'tq' in ops or out == 'stl':
                require(all(len(p) == 3 for p in got), '%s: quadrangles remain', what)
                if 'sym' in ops or 'cc' in ops:
                    # faces that coincide may be split along different diagonals
                    require(len(got) == sum(len(p) - 2 for p in model), '%s: number of triangles', what)
                    compare_clipped(got, model, T, [], float(np.max(tol(np.full(3, size)))), size, what)
                else:
                    meshio.require_split(got, model, tol, what)
            else:
                compare_faces(got, model, float(np.max(tol(np.full(3, size)))), what)
        if ('md' in ops or 'sym' in ops or 'cc' in ops or 'hm' in ops) and not clipped and not single and out not in ('gdf', 'stl'):
            nv = n_vertices(model)
            require(len(W) == nv, '%s: %d vertices, %d expected', what, len(W), nv)
    if 'i' in ops:
        check_info(text, model, clipped, 'tq' in ops, size, 2 * e_in + (1e-7 * size if clipped else 0.), what)
    else:
        require('MESH NAME' not in text, '%s: information is printed, which nobody asked for', what)
    require('quality of the mesh' not in text.lower(), '%s: the quality is printed, which nobody asked for', what)
    if not quiet:
        k = 0
        if 'pi' in ops:
            k = text.find('uniform distribution')
            require(k >= 0, '%s: no inertia is printed', what)
            if not case['mesh'].get('drop') and not clipped and 'cc' not in ops:
                vol, m1, m2 = geom.volume_moments(T)
                inertia(text[k:], density(case['rho'], 1023.), vol, m1, m2, size, what)
                ctx.label('plain inertia')
        if 'si' in ops:
            k = text.find('shell distribution')
            require(k >= 0, '%s: no inertia is printed', what)
            a, m1, m2 = geom.surface_moments(T)
            th = float(txt(case['thickness'])) if case['thickness'] is not None else .02
            inertia(text[k:], density(case['rho'], 7850.) * th, a, m1, m2, size, what)
            ctx.label('shell inertia')
    ctx.label('in:' + name, 'out:%s' % (out if res else 'none'), 'kind:' + kind, 'clip' if clipped else None,
              'ops:%d' % min(applied, 6), *['op:' + k for k in sorted(ops)])
    ctx.nontrivial(applied > 1 and bool(res))


def density(rho, default):
    if rho is None:
        return default
    try:
        return float(rho)
    except ValueError:
        return {'STEEL': 7850., 'SALT_WATER': 1025., 'FRESH_WATER': 1000.}[rho.upper()]


@harness
def soup(model):
    tri = [(p[0], p[i], p[i + 1]) for p in model for i in range(1, len(p) - 1)]
    return np.array(tri) if tri else np.zeros((0, 3, 3))


@harness
def n_vertices(model):
    pts = np.concatenate(model)
    lab, = geom.vertex_classes([pts], 1e-6)
    return len(np.unique(lab))


def compare_faces(got, model, eps, what):
    """Same sets of oriented polygons"""
    def arrays(ps):
        F = []
        k = 0
        for p in ps:
            ids = list(range(k, k + len(p)))
            F.append(ids if len(p) == 4 else ids + ids[:1])
            k += len(p)
        return np.concatenate(ps), np.array(F)
    require(len(got) == len(model), '%s: %d faces, %d expected', what, len(got), len(model))
    geom.require_same_surface(*(arrays(got) + arrays(model) + (4 * eps, what)))


def compare_clipped(got, model, T, tops, eps, size, what):
    G = soup(got)
    n_edges = 3 * (len(G) + len(T))
    ta = n_edges * size * eps * 4 + 1e-9 * size ** 2
    a0, x0, q0 = geom.surface_moments(T)
    a1, x1, q1 = geom.surface_moments(G)
    geom.close(a1, a0, ta, '%s: area of the clipped mesh', what)
    geom.close(x1, x0, ta * size * 4, '%s: moments of the clipped mesh', what)
    geom.close(q1, q0, ta * size ** 2 * 8, '%s: second moments of the clipped mesh', what)
    geom.close(geom.tri_vec(G).sum(axis=0), geom.tri_vec(T).sum(axis=0), ta, '%s: oriented area', what)
    pts = np.concatenate(got)
    for n, c in tops:
        require((pts.dot(n) - c).max() <= 2 * eps, '%s: a vertex is %.3g above a clipping plane', what,
                (pts.dot(n) - c).max())


def check_info(text, model, clipped, tq, size, eps, what):
    k = text.find('MESH NAME')
    require(k >= 0, '%s: no information is printed', what)
    t = text[k:]
    def value(key):
        m = re.search(key + r'\s*[:=]\s*([-+0-9.eE]+)', t)
        require(m, '%s: %s is not printed', what, key)
        return float(m.group(1))
    lo, hi = bounds(model)
    for i, ax in enumerate('xyz'):
        for key, v in ((ax + 'min', lo[i]), (ax + 'max', hi[i])):
            require(abs(value(key) - v) < 6e-7 + 1e-8 * size + eps,
                    '%s: %s = %s, %s expected', what, key, value(key), v)
    nt, nq = sum(len(p) == 3 for p in model), sum(len(p) == 4 for p in model)
    if tq:
        nt, nq = nt + 2 * nq, 0
    if not clipped:
        for key, v in (('Number of faces', nt + nq), ('Number of triangles', nt), ('Number of quadrangles', nq)):
            require(value(key) == v, '%s: %s: %s, %s expected', what, key, value(key), v)
    else:
        require(value('Number of faces') == value('Number of triangles') + value('Number of quadrangles'), '%s: number of '
                'faces', what)


def inertia(t, rho, m0, m1, m2, size, what):
    m = re.search(r'Mass = (\S+) tons', t)
    mass = rho * m0
    require(m and abs(float(m.group(1)) - mass / 1000.) < 5.1e-4 + 1e-8 * rho * size ** 3 / 1000., '%s: %s, %.6f tons '
            'expected', what, m and m.group(0), mass / 1000.)
    num = r'([-+0-9.Ee]+)'
    cog = [float(re.search(a + 'g = ' + num, t).group(1)) for a in 'xyz']
    G = m1 / m0
    require(np.abs(cog - G).max() < 5.1e-4 + 1e-6 * size, '%s: center of gravity %s, %s expected', what, cog, G)
    k = t.find('Inertia matrix')
    rows = [[float(x) for x in s.split()] for s in t[k:].split('\n')[1:4]]
    exp = rho * geom.inertia_from_m2(m2)
    p = re.search(r'Expressed at point :\s*' + r'\s+'.join([num] * 3), t)
    require(p, '%s: the point of the inertia matrix is not printed', what)
    point = np.array([float(x) for x in p.groups()])
    # from the origin to this point
    d0, d1 = -G, point - G
    hug = lambda d: d.dot(d) * np.eye(3) - np.outer(d, d)
    exp = exp + mass * (hug(d1) - hug(d0))
    require(np.all(np.abs(np.array(rows) - exp) <= 5.1e-4 * np.abs(exp) + 1e-8 * rho * size ** 5),
            '%s: inertia matrix %s, %s expected', what, rows, exp)


# --------------------------------------------------------------------------------------------------------------------
# Requests that are not valid
# --------------------------------------------------------------------------------------------------------------------

def check_refused(case, ctx):
    for f in os.listdir('.'):
        if os.path.isfile(f):
            os.remove(f)
    o = PLAIN
    V, P, fn, _ = write_input(case['mesh'], case['in'], o, 'mesh')
    with open(fn, 'rb') as f:
        data = f.read()
    kind = case['kind']
    out = os.path.join(os.getcwd(), 'result.' + case['out'])
    base = [fn, '-o', out]
    n = case['n']
    good = [['Oxy'], ['/Oyz'], ['0.', '0.', '1.', '0.5']]
    defined = []
    for i in range(case['planes']):
        defined += ['-p'] + good[i % 3]
    which = case['which']
    option = {'sym': '-sym', 'c': '-c', 'mirror': '--mirror'}[which]
    if kind == 'missing':
        base[0] = os.path.join(os.getcwd(), 'none.' + case['out'])
    elif kind == 'missing cc':
        base += ['-cc', os.path.join(os.getcwd(), 'none.' + case['in'])]
    elif kind == 'no extension':
        os.rename(fn, 'mesh')
        fn = os.path.join(os.getcwd(), 'mesh')
        base[0] = fn
    elif kind == 'unknown input':
        base += ['-ifmt', 'xyz%d' % n]
    elif kind == 'unknown output':
        base[2] = os.path.join(os.getcwd(), 'result.xyz%d' % n)
    elif kind == 'unknown ofmt':
        base += ['-ofmt', 'xyz%d' % n]
    elif kind == 'not writable':
        base += ['-ofmt', ['msh', 'med', 'rad', 'wrl', 'inp', 'gmsh', 'salome', 'radioss', 'vrml', 'diodore-inp'][n % 10]]
    elif kind == 'plane size':
        k = [2, 3, 5, 6][n % 4]
        base += ['-p'] + ['1.'] * k
    elif kind == 'plane key':
        base += ['-p', ['Oyx', 'oxy', 'xy', '//Oxy', '0'][n % 5]]
    elif kind == 'plane scalars':
        base += ['-p', '0.', 'z', '1.', '0.']
    elif kind == 'size':
        base += [option] + ['1.'] * [2, 3, 5][n % 3]
    elif kind == 'key':
        base += [option, ['Oyx', 'oxy', 'xy', '//Oxy', 'z'][n % 5]] + defined
    elif kind == 'id':
        base += [option, str([case['planes'], case['planes'] + 1, case['planes'] + 7, -1, -case['planes'] - 1][n % 5])] + defined
    elif kind == 'scale':
        base += [['-s', '-sx', '-tz', '-rx'][n % 4], 'abc']
    elif kind == 'triple':
        base += [['-t', '-r'][n % 2]] + ['1.'] * [1, 2, 4][n % 3]
    elif kind == 'option':
        base += ['--no-such-option']
    before = set(os.listdir('.'))
    exc, text = clirun.run_cli(base)
    what = ' '.join(os.path.basename(a) for a in base)
    require(exc is not None, '%s: no error', what)
    require(set(os.listdir('.')) == before, '%s: %s has been written', what, sorted(set(os.listdir('.')) - before))
    with open(fn, 'rb') as f:
        require(f.read() == data, '%s: the input file has been modified', what)
    ctx.label(kind)
    ctx.nontrivial(True)


def check_merge(case, ctx):
    """Tolerance of the -md option: copies of vertices that are moved away are merged or not"""
    for f in os.listdir('.'):
        if os.path.isfile(f):
            os.remove(f)
    V, F = gen.build(case['mesh'])
    V = np.round(V, 3)
    gap = max(.05, 0. if isinstance(case['tol'], str) else 3. * case['tol'])
    lab, = geom.vertex_classes([V], gap)
    if len(np.unique(lab)) < len(V):
        raise Reject('close vertices')
    P = geom.polys_of(F)
    rnd = np.random.RandomState(case['seed'])
    W, Q = [], []
    for p in P:
        ids = []
        for i in p:
            ids.append(len(W))
            W.append(V[i] + case['jitter'] * rnd.randint(-1, 2, size=3))
        Q.append(ids)
    W = np.array(W)
    o = PLAIN
    files, _ = meshio.out_nat(W.tolist(), Q, o)
    fn, = files
    write(files)
    out, = clirun.fresh('out.vtu')
    tol = case['tol']
    args = [fn, '-o', out, '-i'] + ({'none': [], 'default': ['-md']}[tol] if isinstance(tol, str) else ['-md', txt(tol)])
    exc, text = clirun.run_cli(args)
    if exc is not None:
        raise Violation('the command line ends by %s %s' % (type(exc).__name__, exc))
    n = int(re.search(r'Number of vertices: (\d+)', text).group(1))
    if tol == 'none':
        exp = len(W)
    else:
        t = 1e-8 if tol == 'default' else tol
        if case['jitter'] == 0.:
            exp = len(V[np.unique(F)])
        elif t > 8 * case['jitter']:
            exp = len(V[np.unique(F)])
        elif t < case['jitter'] / 4.:
            exp = len(np.unique(np.round(W, 9), axis=0))
        else:
            raise Reject('tolerance close to the distances')
    require(n == exp, '-md %s: %d vertices, %d expected', tol, n, exp)
    with open(out) as f:
        W1, Q1 = meshio.read_vtu(f.read())
    got = meshio.corners(np.array(W1), Q1)
    want = [W[q] for q in Q]
    eps = 2 * (case['jitter'] + 1e-6 * max(1., np.abs(W).max()))
    if tol == 'none':
        meshio.require_same_faces(got, want, lambda B: eps, 'no merge')
    else:
        require(len(got) == len(want), '%d faces, %d expected', len(got), len(want))
        compare_faces(got, want, eps, '-md %s' % tol)
    ctx.label('tol %s' % tol, 'jitter %g' % case['jitter'])
    ctx.nontrivial(tol != 'none')


def check_process(case, ctx):
    """The program itself, in its own process: exit status and files"""
    for f in os.listdir('.'):
        if os.path.isfile(f):
            os.remove(f)
    o = PLAIN
    V, P, fn, _ = write_input(case['mesh'], 'nat', o, 'mesh')
    args = {'convert': [fn, '-o', 'out.mar'], 'move': [fn, '-tx', '2.5', '-o', 'out.mar'],
            'version': ['--version'], 'help': ['-h'], 'medium': [fn, '--list-medium'],
            'bad': [fn, '-o', 'out.xyz']}[case['what']]
    env = dict(os.environ, PYTHONPATH=REPO)
    p = subprocess.run([sys.executable, '-m', 'meshmagick.cli'] + args, env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, timeout=120)
    text = p.stdout.decode()
    require((p.returncode != 0) == (case['what'] == 'bad'), 'exit status %d for %s', p.returncode, args)
    if case['what'] in ('convert', 'move'):
        with open('out.mar') as f:
            W, Q = meshio.read_mar(f.read())
        d = 2.5 if case['what'] == 'move' else 0.
        require(np.abs(np.array(W) - V - [d, 0., 0.]).max() < 1e-6 and
                [geom.canon_cycle(q) for q in Q] == [geom.canon_cycle(q) for q in P], 'mesh')
    elif case['what'] == 'version':
        import meshmagick
        require(meshmagick.__version__ in text, 'version')
    elif case['what'] == 'help':
        for k in LONG.values():
            require(k in text, 'option %s is not in the help', k)
    elif case['what'] == 'medium':
        for k in ('STEEL', 'SALT_WATER', 'CONCRETE'):
            require(k in text, 'medium %s is not listed', k)
    ctx.label(case['what'])
    ctx.nontrivial(True)


# --------------------------------------------------------------------------------------------------------------------

def normal():
    return st.one_of(gen.vec3(-3, 3).filter(lambda v: np.linalg.norm(v) > .3),
                     st.sampled_from([[0., 0., 1.], [0., 1., 0.], [1., 0., 0.], [0., 0., -1.], [0., -1., 0.]]))


def plane(ratio):
    return st.fixed_dictionaries({
        'kind': st.sampled_from(['default', 'key', 'four', 'four', 'id', 'id', 'again']),
        'key': st.sampled_from(sorted(NORMALS)), 'normal': normal(), 'ratio': ratio,
        'norm': st.sampled_from([1., 2., .1]), 'again': st.integers(0, 5)})


def ops_st():
    deg = st.one_of(gen.num(-180, 180), st.sampled_from([90., -90., 180., 45.]))
    pos = st.one_of(gen.pos_num(.1, 5), st.just(2.))
    table = {
        'cc': gen.closed_mesh(max_bodies=1, smax=4.), 'md': st.sampled_from([None, None, 1e-6, 1e-4]),
        'mirror': plane(gen.num(-.5, 1.5)), 'sym': st.lists(plane(gen.num(-.5, 1.5)), min_size=1, max_size=2),
        'hm': st.just(1), 'hn': st.just(1), 't': gen.vec3(-9, 9), 'tx': gen.num(-9, 9), 'ty': gen.num(-9, 9),
        'tz': gen.num(-9, 9), 'r': st.tuples(deg, deg, deg).map(list), 'rx': deg, 'ry': deg, 'rz': deg, 's': pos,
        'sx': pos, 'sy': pos, 'sz': pos, 'fn': st.just(1), 'tq': st.just(1),
        'c': st.lists(plane(gen.num(.1, .9)), min_size=1, max_size=2), 'pi': st.just(1), 'si': st.just(1),
        'i': st.just(1)}
    names = sorted(table)
    return st.one_of(*[st.lists(st.sampled_from(names), min_size=a, max_size=b, unique=True)
                       for a, b in ((0, 2), (2, 4), (4, 9), (5, 12))]).flatmap(
        lambda ks: st.fixed_dictionaries({k: table[k] for k in ks}))


def case_st():
    return st.fixed_dictionaries({
        'mesh': gen.any_mesh(max_bodies=2, smax=6.), 'in': st.sampled_from(INPUTS), 'ops': ops_st(),
        'decoys': st.lists(st.fixed_dictionaries({'key': st.sampled_from([None] + sorted(NORMALS)), 'normal': normal(),
                                                  'c': gen.num(-5, 5)}), max_size=2),
        'out': st.sampled_from(OUTPUTS), 'kind': st.sampled_from(['ext', 'ext', 'both', 'both', 'only', 'none']),
        'upper': st.sampled_from([False, False, True]), 'suffix': st.sampled_from(['', '.foo', '.mar', '.a.b']),
        'kw': st.integers(0, 3), 'ifmt': st.integers(0, 2), 'long': st.booleans(), 'quiet': st.booleans(),
        'stem': st.sampled_from(['mesh', 'mesh', 'a.b', 'mesh.v2.1', 'my mesh', '.mesh', 'Mesh.mar']),
        'order': st.integers(0, 10 ** 6), 'twist': gen.bits(), 'layout': options(),
        'rho': st.sampled_from([None, None, 1., 1234.5, 'STEEL', 'salt_water']),
        'thickness': st.sampled_from([None, .02, .013])})


def planes_st():
    """Several planes for each of the options that need some"""
    def some(ratio):
        return st.fixed_dictionaries({
            'kind': st.sampled_from(['default', 'default', 'key', 'key', 'four', 'id', 'again']),
            'key': st.sampled_from(sorted(NORMALS)), 'normal': normal(), 'ratio': ratio,
            'norm': st.sampled_from([1., 2., .1]), 'again': st.integers(0, 5)})
    mesh = st.builds(lambda m, pos: dict(m, bodies=[dict(m['bodies'][0], pos=pos, rot=[.4, .3, .2])]),
                     gen.any_mesh(max_bodies=1, smax=6.), gen.vec3(-.3, .3))
    ops = st.one_of(
        st.fixed_dictionaries({'c': st.lists(some(gen.num(.2, .8)), min_size=2, max_size=3)}),
        st.fixed_dictionaries({'sym': st.lists(some(gen.num(-.5, 1.5)), min_size=2, max_size=3)}),
        st.fixed_dictionaries({'mirror': some(gen.num(-.5, 1.5)), 'sym': st.lists(some(gen.num(-.5, 1.5)), min_size=1, max_size=2),
                               'c': st.lists(some(gen.num(.2, .8)), min_size=1, max_size=2)}))
    return st.builds(lambda c, m, o: dict(c, mesh=m, ops=o, **{'in': 'nat'}), case_st(), mesh, ops)


PROPERTY = Property('C18', [
    Sub('pipeline', case_st, check, quick=2000),
    Sub('planes', planes_st, check, quick=1000),
    Sub('large', lambda: gen.with_large(case_st(), False), check, quick=120),
    Sub('refused', lambda: st.fixed_dictionaries({
        'mesh': gen.closed_mesh(smax=4.), 'in': st.sampled_from(['nat', 'mar', 'hst', 'tec']),
        'out': st.sampled_from(OUTPUTS), 'n': st.integers(0, 20), 'planes': st.integers(0, 2),
        'which': st.sampled_from(['sym', 'c', 'mirror']),
        'kind': st.sampled_from(['missing', 'missing cc', 'no extension', 'unknown input', 'unknown output',
                                 'unknown ofmt', 'not writable', 'plane size', 'plane key', 'plane scalars', 'size',
                                 'key', 'id', 'id', 'id', 'scale', 'triple', 'option'])}), check_refused, quick=600),
    Sub('merge', lambda: st.fixed_dictionaries({
        'mesh': gen.closed_mesh(smax=6.), 'seed': st.integers(0, 10 ** 6),
        'jitter': st.sampled_from([0., 1e-7, 1e-5, 1e-3, 1e-2]),
        'tol': st.sampled_from(['none', 'default', 'default', 1e-6, 1e-4, 2e-2, .1])}), check_merge, quick=300),
    Sub('process', lambda: st.fixed_dictionaries({
        'mesh': gen.closed_mesh(smax=4.),
        'what': st.sampled_from(['convert', 'move', 'version', 'help', 'medium', 'bad'])}), check_process, quick=16,
        factor=4),
], rule='Command lines of up to 9 operations, in any order, on files of 14 formats, compared to a model of the pipeline on '
        'lists of polygons and to independent readers of the files written; invalid requests must end by an error and '
        'write nothing; non-trivial: at least two operations act and a file is written (or an invalid request).',
    assumptions=['normals of planes that do not go through the origin are given as unit vectors',
                 'clipping planes stay away from the vertices, and healing applies to one closed body'])
