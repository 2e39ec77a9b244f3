"""C27: statistics on the quality of a mesh are those of its faces"""
import contextlib
import io
import os
import re

import numpy as np
from hypothesis import strategies as st

import clirun
import gen
import geom
import mfiles as meshio
from core import Property, Sub, Reject, Violation, require, harness
from sut import mk, snapshot, require_unchanged
from props.c15 import write

S3 = np.sqrt(3.)


@harness
def triangle(q):
    L = np.linalg.norm(q - np.roll(q, -1, axis=0), axis=1)
    A = np.linalg.norm(np.cross(q[1] - q[0], q[2] - q[0])) / 2
    ang = [angle(q[i - 1] - q[i], q[(i + 1) % 3] - q[i]) for i in range(3)]
    return {'Area Ratio': A, 'Edge Ratio': L.max() / L.min(), 'Aspect Ratio': L.max() * L.sum() / (4 * S3 * A),
            'Radius Ratio': L.prod() * L.sum() / (16 * A * A), 'Frobenius Norm': (L ** 2).sum() / (4 * S3 * A),
            'Minimal Angle': min(ang)}


@harness
def angle(u, v):
    return np.degrees(np.arctan2(np.linalg.norm(np.cross(u, v)), u.dot(v)))


@harness
def quad(q):
    L = np.linalg.norm(q - np.roll(q, -1, axis=0), axis=1)
    n = np.cross(q[2] - q[0], q[3] - q[1])
    A = np.linalg.norm(n) / 2
    n = n / (2 * A)
    corner = np.array([np.cross(q[(i + 1) % 4] - q[i], q[i - 1] - q[i]).dot(n) for i in range(4)])
    if corner.min() < 1e-3 * A:
        raise Reject('not convex')
    frob = np.array([(L[i] ** 2 + L[i - 1] ** 2) / (2 * corner[i]) for i in range(4)])
    d = [((q[0] - q[2]) ** 2).sum(), ((q[1] - q[3]) ** 2).sum()]
    ang = [angle(q[i - 1] - q[i], q[(i + 1) % 4] - q[i]) for i in range(4)]
    return {'Area Ratio': A, 'Edge Ratio': L.max() / L.min(), 'Aspect Ratio': L.max() * L.sum() / (4 * A),
            'Radius Ratio': np.sqrt((L ** 2).sum() * max(d + list(L ** 2))) / (2 * np.sqrt(2) * corner.min()),
            'Average Frobenius Norm': frob.mean(), 'Maximal Frobenius Norm': frob.max(), 'Minimal Angle': min(ang)}


@harness
def expected(V, F):
    out = {}
    for name, k, func in (('Triangle', 3, triangle), ('Quadrilateral', 4, quad)):
        rows = [func(V[p]) for p in geom.polys_of(F) if len(p) == k]
        keys = list(func(np.array([[0., 0., 0.], [1., 0., 0.], [1., 1., 0.], [0., 1., 0.]])[:k]))
        stats = {}
        for key in keys:
            x = np.array([r[key] for r in rows])
            stats[key] = (x.min(), x.max(), x.mean(), x.std(ddof=1) if len(x) > 1 else 0.) if len(x) else (0.,) * 4
        out[name] = len(rows), stats
    return out


NUM = r'([-+.0-9e]+|nan|inf)'


@harness
def parse(text):
    out = {}
    parts = re.split(r'^(\w+) quality of the mesh \((\d+) elements\):$', text, flags=re.M)
    for name, n, body in zip(parts[1::3], parts[2::3], parts[3::3]):
        stats = {}
        for m in re.finditer(r'^ ([A-Z][A-Za-z ]+):\n\s+range: %s\s+-\s+%s\n\s+average: %s\s+, standard deviation: %s$' % ((NUM,) * 4),
                             body, re.M):
            stats[m.group(1)] = tuple(float(x) for x in m.groups()[1:])
        out[name] = int(n), stats
    return out


def usable(V, F):
    for p in geom.polys_of(F):
        q = V[p]
        n = sum(np.cross(q[i] - q[0], q[i + 1] - q[0]) for i in range(1, len(q) - 1))
        L = np.linalg.norm(q - np.roll(q, -1, axis=0), axis=1)
        if np.linalg.norm(n) < 1e-2 * L.max() ** 2 or L.min() < 1e-2 * L.max():
            raise Reject('nearly degenerated faces')
        if len(p) == 4 and abs((q - q[0]).dot(n)).max() > 1e-7 * L.max() * np.linalg.norm(n):
            raise Reject('warped faces')


def check(case, ctx):
    V, F = gen.build(case['mesh'])
    if case.get('only'):
        F = F[:case['only']]
    usable(V, F)
    for i in case['turned']:
        F[i % len(F)] = F[i % len(F)][::-1]
    what = 'print_quality'
    if case['cli'] is None:
        m = mk(V, F)
        snap = snapshot(m)
        if case['warm']:
            m.faces_areas
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            m.print_quality()
        text = out.getvalue()
        require_unchanged(m, snap, 'mesh')
    else:
        used, G = np.unique(F, return_inverse=True)
        V, F = np.round(V[used], 9), G.reshape((-1, 4))
        o = {'num': 'e', 'pad': 0, 'crlf': False, 'per_line': 3, 'sections': 1, 'mixed': False, 'ids': 'plain', 'seed': 0,
             'extra_vars': 0, 'double': True, 'lines': 0, 'binary': False}
        files, _ = meshio.WRITERS['nem'](V.tolist(), geom.polys_of(F), o)
        clirun.fresh()
        write({'hull.nem': list(files.values())[0]})
        exc, text = clirun.run_cli(['hull.nem', case['cli']] + (['-q'] if case['warm'] else []))
        what = case['cli']
        if exc is not None:
            raise Violation('%s: %s %s' % (what, type(exc).__name__, exc))
    got, exp = parse(text), expected(V, F)
    # VTK stores single precision coordinates
    short = min(np.linalg.norm(V[p] - np.roll(V[p], -1, axis=0), axis=1).min() for p in geom.polys_of(F))
    blur = np.abs(V).max() / short / 100.
    require(set(got) == set(exp), '%s: statistics on %s', what, sorted(got))
    for name, (n, stats) in exp.items():
        require(got[name][0] == n, '%s: %d %s faces, %d expected', what, got[name][0], name, n)
        require(set(got[name][1]) == set(stats), '%s: %s: measures are %s', what, name, sorted(got[name][1]))
        for key, e in stats.items():
            g = got[name][1][key]
            for label, x, y in zip(('minimum', 'maximum', 'average', 'standard deviation'), g, e):
                tol = (2e-5 if label != 'standard deviation' else 1e-4) * abs(e[1]) * (1. + blur)
                require(abs(x - y) <= tol, '%s: %s: %s: the %s is %g, %g expected', what, name, key, label, x, y)
        ctx.label('%s:%s' % (name, '0' if n == 0 else '1' if n == 1 else 'more'))
    ctx.label('cli' if case['cli'] else 'api')
    ctx.nontrivial(len(F) > 1 or case.get('only') == 1)


PROPERTY = Property('C27', [
    Sub('quality', lambda: st.fixed_dictionaries({
        'mesh': gen.any_mesh(max_bodies=2), 'warm': st.booleans(), 'only': st.sampled_from([0, 0, 0, 0, 1, 1, 2]), 'turned': st.lists(st.integers(0, 40), max_size=2),
        'cli': st.sampled_from([None, None, None, '--quality'])}), check, quick=800),
    Sub('large', lambda: gen.with_large(st.fixed_dictionaries({
        'warm': st.booleans(), 'turned': st.lists(st.integers(0, 40), max_size=2),
        'cli': st.sampled_from([None, None, '--quality'])}), False), check, quick=60),
], rule='Meshes with triangles and convex quadrangles, reversed or not; statistics that are printed are compared to the '
        'measures of the faces; non-trivial: several faces, or one face on purpose.',
    assumptions=['planar convex faces that are not nearly degenerated; measures are those of the Verdict manual that is cited'])
