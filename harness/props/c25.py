"""C25: lids generated by the command line tile the polygons that are given"""
import contextlib
import os
import re

import numpy as np
from hypothesis import strategies as st

import clirun
import gen
import geom
import mfiles as meshio
from core import Property, Sub, Reject, Violation, require, harness
from props.c15 import write
from props.c18 import txt

OUT = {'nem': 'nem', 'obj': 'obj', 'nat': 'nat', 'mar': 'mar'}


@contextlib.contextmanager
def unprivileged():
    """The user interface library of gmsh writes preferences in /etc when it is used by root"""
    if os.geteuid() != 0:
        yield
        return
    d = os.getcwd()
    top = os.environ.get('VERIF_SCRATCH', d)
    home = os.path.join(os.path.dirname(d), 'home')
    os.makedirs(home, exist_ok=True)
    for path in (d, home):
        os.chown(path, 65534, -1)
    while True:
        os.chmod(d, 0o755)
        if d == top or not d.startswith(top):
            break
        d = os.path.dirname(d)
    os.environ['HOME'] = os.environ['XDG_CONFIG_HOME'] = home
    os.seteuid(65534)
    try:
        yield
    finally:
        os.seteuid(0)


@harness
def polygon(case, unit):
    """A simple polygon, star-shaped with respect to its center"""
    n = len(case['r'])
    w = np.array(case['gaps'][:n], dtype=float)
    a = case['turn'] + 2 * np.pi * np.cumsum(w) / w.sum()
    r = np.array(case['r']) * case['size'] * unit
    P = np.stack([r * np.cos(a), r * np.sin(a)], axis=1) + np.array(case['at']) * unit
    P = np.round(P, 6)
    if case['cw']:
        P = P[::-1]
    return P


@harness
def area2(P):
    x, y = P[:, 0], P[:, 1]
    return float((x * np.roll(y, -1) - y * np.roll(x, -1)).sum())


@harness
def segment_dist(pts, A, B):
    d = B - A
    t = np.clip(((pts - A).dot(d)) / d.dot(d), 0., 1.)
    return np.linalg.norm(pts - (A + t[:, None] * d), axis=1)


def tiles(tri, P, ms, size, what):
    """tri (n, 3, 3) is an exact tiling of the polygon P, of size ms"""
    eps = 3e-6 + 1e-7 * size        # digits of the OBJ format
    require(len(tri) > 0, '%s: no face', what)
    require(np.abs(tri[:, :, 2]).max() < 1e-9 * size, '%s: the lid is not on the free surface', what)
    T = tri[:, :, :2]
    a = (T[:, 1, 0] - T[:, 0, 0]) * (T[:, 2, 1] - T[:, 0, 1]) - (T[:, 1, 1] - T[:, 0, 1]) * (T[:, 2, 0] - T[:, 0, 0])
    A2 = area2(P)
    require(np.all(a * np.sign(A2) > 0), '%s: orientations of faces are not those of the polygon', what)
    require(abs(a.sum() - A2) < 4 * eps * np.linalg.norm(P - np.roll(P, 1, axis=0), axis=1).sum(), '%s: the area is %g, %g expected', what, a.sum() / 2, A2 / 2)
    pts = T.reshape(-1, 2)
    lab, = geom.vertex_classes([np.column_stack([pts, np.zeros(len(pts))])], 1e-7 * size)
    lab = lab.reshape(-1, 3)
    where = {l: p for l, p in zip(lab.ravel().tolist(), pts)}
    edges = {}
    for t in lab.tolist():
        for i in range(3):
            e = t[i - 1], t[i]
            require(e not in edges, '%s: faces are overlapping', what)
            edges[e] = True
    rim = [e for e in edges if e[::-1] not in edges]
    # the boundary is the one of the polygon, followed in the same direction
    sides = [(P[i], P[(i + 1) % len(P)]) for i in range(len(P))]
    length = np.zeros(len(sides))
    count = np.zeros(len(sides), dtype=int)
    ends = np.array([[where[a], where[b]] for a, b in rim])
    mid = ends.mean(axis=1)
    d = np.array([segment_dist(mid, A, B) for A, B in sides])
    near = d.argmin(axis=0)
    require(d.min(axis=0).max() < eps, '%s: the boundary is not the one of the polygon', what)
    for k, (e, s) in enumerate(zip(ends, near)):
        A, B = sides[s]
        u = (B - A) / np.linalg.norm(B - A)
        v = (e[1] - e[0]).dot(u)
        require(v > 0, '%s: direction of the boundary', what)
        length[s] += v
        count[s] += 1
    L = np.array([np.linalg.norm(B - A) for A, B in sides])
    require(np.abs(length - L).max() < 4 * eps, '%s: the boundary is not the one of the polygon', what)
    n = L / ms
    require(np.all(count <= np.ceil(n) + 1) and np.all(count >= np.floor(n * .99)), '%s: sides of %s m are divided '
            'in %s for a mesh size of %g m', what, L.tolist(), count.tolist(), ms)
    e = np.linalg.norm(T - np.roll(T, 1, axis=1), axis=2)
    require(e.max() < 2.2 * ms, '%s: an edge of %g m for a mesh size of %g m', what, e.max(), ms)
    return len(tri)


def base(case):
    V, F = gen.build(case['mesh'])
    used, F = np.unique(F, return_inverse=True)
    V, F = np.round(V[used], 6), F.reshape((-1, 4))
    return V, F


def same_faces(got, exp, eps, what):
    require(len(got) == len(exp), '%s: %d faces, %d expected', what, len(got), len(exp))
    for p, q in zip(got, exp):
        require(len(p) == len(q) and any(np.abs(np.roll(p, i, axis=0) - q).max() <= eps for i in range(len(q))),
                '%s: face %s, %s expected', what, np.asarray(p).tolist(), np.asarray(q).tolist())


def prepare(case):
    for f in os.listdir('.'):
        if os.path.isfile(f):
            os.remove(f)
    clirun.fresh()
    V, F = base(case)
    polys = geom.polys_of(F)
    pts = V[np.unique(F)]
    lab, = geom.vertex_classes([pts], 1e-3)
    if len(np.unique(lab)) < len(np.unique(pts, axis=0)):
        raise Reject('close vertices')
    o = {'num': 'e', 'pad': 0, 'crlf': False, 'per_line': 3, 'sections': 1, 'mixed': False, 'ids': 'plain', 'seed': 0,
         'extra_vars': 0, 'double': True, 'lines': 0, 'binary': False}
    files, order = meshio.WRITERS['nem'](V.tolist(), polys, o)
    fn, = files
    write({'hull.nem': files[fn]})
    model = [V[polys[i]] for i in (order if order is not None else range(len(polys)))]
    return model


def check(case, ctx):
    model = prepare(case)
    args = ['hull.nem']
    if case['shift'] is not None:
        args += ['-tz', txt(case['shift'])]
        model = [p + [0., 0., float(txt(case['shift']))] for p in model]
    if case['flip']:
        args += ['-fn']
        model = [p[::-1] for p in model]
    E = [np.linalg.norm(p - np.roll(p, 1, axis=0), axis=1) for p in model]
    if min(e.min() for e in E) < 1e-6:
        raise Reject('degenerated')
    mean = float(np.concatenate(E).mean())
    ms = mean if case['ms'] is None else float(txt(case['ms'] * mean))
    P = []
    for k, c in enumerate(case['lids']):
        c = dict(c, at=[c['at'][0] + 40 * k, c['at'][1]])
        p = polygon(c, ms)
        side = np.linalg.norm(p - np.roll(p, 1, axis=0), axis=1)
        if side.min() < .05 * ms or abs(area2(p)) < .05 * ms ** 2:
            raise Reject('small side')
        P.append(p)
        args += ['-lid'] + [txt(x) for x in p.ravel()]
    if case['ms'] is not None:
        args += ['-ms' if case['short'] else '-mesh_size', txt(ms)]
    if case['quiet']:
        args += ['-q']
    res = 'res.' + case['out']
    args += ['-o', res]
    before = set(os.listdir('.'))
    with unprivileged():
        exc, text = clirun.run_cli(args)
    what = ' '.join(args[1:])
    if exc is not None:
        raise Violation('%s: ends by %s %s' % (what, type(exc).__name__, exc))
    new = set(os.listdir('.')) - before
    exp = {res} | {'Lid_%d.%s' % (i + 1, e) for i in range(len(P)) for e in ('obj', 'msh')}
    require(new == exp, '%s: files written are %s', what, sorted(new))
    size = max(1., max(np.abs(p).max() for p in model), max(np.abs(p).max() for p in P))
    lids = []
    for i, p in enumerate(P):
        with open('Lid_%d.obj' % (i + 1)) as f:
            W, Q = meshio.READERS['obj'](f.read())
        tri = meshio.corners(np.array(W, dtype=float).reshape(-1, 3), Q)
        require(all(len(t) == 3 for t in tri), '%s: faces of lid %d are not triangles', what, i + 1)
        w = '%s: Lid_%d' % (what, i + 1)
        n = tiles(np.array(tri), p, ms, size, w)
        lids += list(tri)
        ctx.label('faces of the lid: %s' % ('1-9' if n < 10 else '10-99' if n < 100 else '100+'))
    with open(res) as f:
        W, Q = meshio.READERS[OUT[case['out']]](f.read())
    got = meshio.corners(np.array(W, dtype=float).reshape(-1, 3), Q)
    eps = 1.5 * float(np.max(meshio.rounding(OUT[case['out']], np.full(3, size)))) + 1e-6 * size
    same_faces(got, model + lids, eps, what)
    m = re.search(r'Mean edge length \(([-+.0-9e]+) m\)', text)
    require((m is not None) == (case['ms'] is None), '%s: mesh size told', what)
    if m:
        require(abs(float(m.group(1)) - mean) < 1e-6 + 1e-8 * size, '%s: mean edge length of %s, %g expected', what,
                m.group(1), mean)
    ctx.label('lids:%d' % len(P), 'default size' if case['ms'] is None else 'given size',
              *['cw' if area2(p) < 0 else 'ccw' for p in P])
    ctx.nontrivial(len(lids) > 4)


def check_refused(case, ctx):
    prepare(case)
    args = ['hull.nem', '-o', 'res.nem', '-ms', '1.']
    good = ['-lid'] + [txt(x) for x in (0., 0., 2., 0., 0., 2.)]
    x = [txt(v) for v in case['x']]
    x = x[:len(x) - (len(x) + 1) % 2] if case['odd'] else x[:min(4, len(x) - len(x) % 2)]
    args += (good if case['after'] else []) + ['-lid'] + x
    before = set(os.listdir('.'))
    with unprivileged():
        exc, text = clirun.run_cli(args)
    require(exc is not None, '%s: no error', ' '.join(args[1:]))
    require(not os.path.exists('res.nem'), '%s: the mesh is written though the lid is refused', ' '.join(args[1:]))
    ctx.label('odd' if len(x) % 2 else 'few')
    ctx.nontrivial(True)


def lid_st():
    return st.integers(3, 8).flatmap(lambda n: st.fixed_dictionaries({
        'r': st.lists(st.integers(40, 100).map(lambda k: k / 100.), min_size=n, max_size=n),
        'gaps': st.lists(st.integers(5, 10), min_size=n, max_size=n), 'turn': gen.num(-3, 3),
        'size': st.sampled_from([.6, 1., 2., 4., 7.]), 'cw': st.booleans(),
        'at': st.tuples(gen.num(-6, 6), gen.num(-6, 6)).map(list)}))


PROPERTY = Property('C25', [
    Sub('lids', lambda: st.fixed_dictionaries({
        'mesh': st.one_of(gen.closed_mesh(max_bodies=2), gen.open_mesh(max_bodies=1)),
        'lids': st.lists(lid_st(), min_size=1, max_size=3), 'quiet': st.booleans(), 'flip': st.booleans(),
        'shift': st.one_of(st.none(), gen.num(-5, 5)), 'short': st.booleans(),
        'ms': st.one_of(st.none(), st.sampled_from([.2, .5, 1., 3., 10.])), 'out': st.sampled_from(sorted(OUT))}), check,
        quick=900),
    Sub('refused', lambda: st.fixed_dictionaries({
        'mesh': gen.closed_mesh(), 'x': st.lists(gen.num(-5, 5), min_size=1, max_size=9), 'odd': st.booleans(),
        'after': st.booleans()}), check_refused, quick=150),
], rule='Command lines with one to three polygons (simple, convex or not, in both directions); non-trivial: more than 4 faces '
        'are generated.',
    assumptions=['polygons are simple; gmsh itself is deterministic'])
