"""C19: planes stay consistent (normal, scalar, frame, distances, projections, intersections) whatever their history"""
import numpy as np
from hypothesis import strategies as st

import gen
import geom
from core import Property, Sub, Reject, Violation, require
from sut import Plane, expect_raise, vector, FORMS


def rodrigues(tx, ty):
    t = np.hypot(tx, ty)
    if t == 0.:
        return np.eye(3)
    return gen.rod(np.array([tx, ty, 0.]) / t, t)


def unit(v):
    v = np.asarray(v, dtype=float)
    return v / np.linalg.norm(v)


def verify(p, n, c, pts, ts, kept):
    """The plane p is the one of unit normal n and scalar c"""
    n1 = np.asarray(p.normal, dtype=float)
    require(n1.shape == (3,) and abs(np.linalg.norm(n1) - 1) < 1e-12, 'the normal is %s', n1)
    require(np.abs(n1 - n).max() < 1e-9, 'the normal is %s, %s expected', n1, n)
    n = n1
    sc = max(1., np.abs(pts).max(), abs(c))
    require(abs(p.c - c) <= 1e-9 * sc, 'the scalar is %r, %r expected', p.c, c)
    d = pts.dot(n) - c
    got = np.asarray(p.get_point_dist_wrt_plane(pts))
    require(got.shape == d.shape and np.abs(got - d).max() < 1e-9 * sc, 'distances')
    require(abs(float(p.get_point_dist_wrt_plane(pts[0])) - d[0]) < 1e-9 * sc, 'distance of a point')
    proj = np.asarray(p.orthogonal_projection_on_plane(pts))
    require(np.abs(proj - (pts - d[:, None] * n)).max() < 1e-9 * sc, 'orthogonal projections')
    grid = np.round(pts).astype(int)
    di = grid.dot(n) - c
    proj = np.asarray(p.orthogonal_projection_on_plane(grid), dtype=float)
    require(np.abs(proj - (grid - di[:, None] * n)).max() < 1e-9 * sc, 'orthogonal projections of integer coordinates')
    require(np.abs(np.asarray(p.get_origin()) - c * n).max() < 1e-9 * sc, 'origin')
    # frame of the plane: isometry whose third coordinate is the distance, seen from the origin of the plane
    loc = np.asarray(p.coord_in_plane(pts))
    require(loc.shape == pts.shape, 'shape of the coordinates in the plane')
    require(np.abs(loc[:, 2] - d).max() < 1e-8 * sc, 'the third coordinate in the frame of the plane is not the distance '
            'to the plane: %s, %s expected', loc[:, 2], d)
    G = (pts - c * n).dot((pts - c * n).T)
    require(np.abs(loc.dot(loc.T) - G).max() < 1e-8 * sc ** 2, 'coordinates in the frame of the plane are not isometric, or '
            'their origin is not the one of the plane')
    for i in range(len(pts) - 2):
        a = np.linalg.det(loc[i:i + 3] - [0., 0., 0.])
        b = np.linalg.det(pts[i:i + 3] - c * n)
        require(abs(a - b) < 1e-7 * sc ** 3, 'the frame of the plane is not direct')
    # orientation
    tx, ty = p.get_normal_orientation_wrt_z()
    require(np.hypot(tx, ty) <= np.pi * (1 + 1e-12), 'orientation angles')
    require(np.abs(rodrigues(tx, ty)[:, 2] - n).max() < 1e-9, 'the angles of orientation do not give the normal')
    # intersections
    for (a, b), t in zip(zip(pts[:-1], pts[1:]), ts):
        da, db = a.dot(n) - c, b.dot(n) - c
        # the edge is moved so as to cross the plane at the fraction t
        if abs(da - db) < 1e-3 * np.linalg.norm(a - b) or np.linalg.norm(a - b) < 1e-6:
            continue
        off = (da + t * (db - da)) * n
        a, b = a - off, b - off
        if 1e-6 < t < 1 - 1e-6:
            x = np.asarray(p.get_edge_intersection(a, b), dtype=float)
            require(np.abs(x - ((1 - t) * a + t * b)).max() < 1e-6 * sc, 'intersection with an edge')
            require(abs(x.dot(n) - c) < 1e-9 * sc, 'the intersection with an edge is not in the plane')
            kept.add('crossing edge')
        elif t < -1e-6 or t > 1 + 1e-6:
            expect_raise(lambda: p.get_edge_intersection(a, b), 'intersection outside of the edge', RuntimeError)
            kept.add('edge not crossing')


def check(case, ctx):
    pts = np.array(case['points'], dtype=float)
    kw = {}
    n, c = np.array([0., 0., 1.]), 0.
    if case['normal'] is not None:
        n = unit(case['normal'])
        kw['normal'] = vector(case['normal'], case['how'])
    if case['scalar'] is not None:
        c = case['scalar']
        kw['scalar'] = c
    p = Plane(**kw)
    witness = Plane()
    seen = set()
    ts = case['ts']
    if case['first']:
        verify(p, n, c, pts, ts, seen)
    for op in case['ops']:
        k = op[0]
        if k == 'normal':
            arg = vector(op[1], op[2])
            keep = np.array(arg, dtype=float)
            p.normal = arg
            n = unit(op[1])
            require(np.array_equal(np.asarray(arg, dtype=float), keep), 'the argument has been modified')
        elif k == 'c':
            p.c = op[1]
            c = float(op[1])
        elif k == 'rotate':
            p.rotate_normal(op[1], op[2])
            n = rodrigues(op[1], op[2]).dot(n)
        elif k == 'angles':
            p.set_normal_from_angles(op[1], op[2])
            n = rodrigues(op[1], op[2])[:, 2]
        elif k == 'parameters':
            p.set_plane_parameters(op[1], op[2], op[3])
            n = rodrigues(op[2], op[3]).dot(n)
            c = c * np.cos(np.hypot(op[2], op[3])) + op[1]
        elif k == 'flip':
            p.flip_normal()
            n = -n
        elif k == 'text':
            s = str(p)
            require(s == 'Plane{normal=[%f, %f, %f], scalar=%f}' % (tuple(p.normal) + (p.c,)), 'text is %s', s)
        if op[-1] is True:
            verify(p, n, c, pts, ts, seen)
    verify(p, n, c, pts, ts, seen)
    verify(witness, np.array([0., 0., 1.]), 0., pts, ts, set())
    ctx.label(*sorted(seen))
    ctx.label(*sorted({'op:' + op[0] for op in case['ops']}))
    ctx.nontrivial(len(case['ops']) > 0)


def direction():
    ax = [[1., 0., 0.], [0., 1., 0.], [0., 0., 1.], [-1., 0., 0.], [0., -1., 0.], [0., 0., -1.], [0., 0., -2.5],
          [1., 1., 0.], [0., 1e-9, -1.], [1e-9, 0., 1.]]
    return st.one_of(st.sampled_from(ax), gen.vec3(-3, 3).filter(lambda v: np.linalg.norm(v) > 1e-2),
                     st.tuples(gen.vec3(-3, 3), st.sampled_from([1e-6, 1e3])).map(
                         lambda t: [x * t[1] for x in t[0]]).filter(lambda v: np.linalg.norm(v) > 1e-9))


def ang():
    return st.one_of(st.just(0.), st.just(0.), gen.num(-3.1, 3.1), gen.num(-7, 7), st.sampled_from(
        [np.pi, -np.pi, np.pi / 2, -np.pi / 2, 1e-6, 1e-9]))


def op_st():
    how = st.sampled_from(FORMS)
    ck = st.booleans()
    return st.one_of(
        st.tuples(st.just('normal'), direction(), how, ck), st.tuples(st.just('c'), gen.num(-20, 20), ck),
        st.tuples(st.just('rotate'), ang(), ang(), ck), st.tuples(st.just('angles'), ang(), ang(), ck),
        st.tuples(st.just('parameters'), gen.num(-5, 5), ang(), ang(), ck), st.tuples(st.just('flip'), ck), st.tuples(st.just('text'), ck)).map(list)


def check_ends(case, ctx):
    """Edges one end of which is exactly on the plane meet it there"""
    n = np.zeros(3)
    n[case['axis']] = case['sign']
    c = case['c']
    p = Plane(normal=n * case['norm'], scalar=c)
    a, b = np.array(case['a']), np.array(case['b'])
    a[case['axis']] = c * case['sign']
    if case['both']:
        # the edge crosses the plane
        b[case['axis']] = (c + case['d']) * case['sign']
        e = a.copy()
        e[case['axis']] = (c - case['d']) * case['sign']
        x = np.asarray(p.get_edge_intersection(b, e))
        require(np.abs(x - (b + e) / 2.).max() <= 1e-9, 'intersection in the middle of an edge')
    else:
        b[case['axis']] = (c + case['d']) * case['sign']
        for f, l in ((a, b), (b, a)):
            try:
                x = np.asarray(p.get_edge_intersection(f, l))
            except RuntimeError as e:
                raise Violation('the edge %s %s touches the plane %s.x = %g at its end: %s' % (f, l, n, c, e))
            require(np.abs(x - a).max() <= 1e-9, 'the end of an edge is on the plane at %s: the intersection is %s', a, x)
    ctx.nontrivial(True)
    ctx.label('crossing' if case['both'] else 'end')


half = lambda a, b: st.integers(2 * a, 2 * b).map(lambda i: i / 2.)

PROPERTY = Property('C19', [
    Sub('history', lambda: st.fixed_dictionaries({
        'normal': st.one_of(st.none(), direction()), 'scalar': st.one_of(st.none(), gen.num(-20, 20)),
        'how': st.sampled_from(FORMS), 'first': st.booleans(),
        'ops': st.lists(op_st(), max_size=6),
        'points': st.lists(gen.vec3(-10, 10), min_size=3, max_size=6),
        'ts': st.lists(st.one_of(gen.num(.001, .999), gen.num(-1, 2), st.sampled_from([.5])), min_size=5, max_size=5)}),
        check, quick=6000),
    Sub('ends', lambda: st.fixed_dictionaries({
        'axis': st.integers(0, 2), 'sign': st.sampled_from([1., -1.]), 'c': half(-9, 9), 'norm': st.sampled_from([1., 2., .5]),
        'a': st.tuples(half(-9, 9), half(-9, 9), half(-9, 9)).map(list),
        'b': st.tuples(half(-9, 9), half(-9, 9), half(-9, 9)).map(list),
        'd': st.sampled_from([1., 2., -1., .5, -4.]), 'both': st.sampled_from([False, False, True])}), check_ends, quick=400),
], rule='Histories of up to 6 changes of a plane (normal, scalar, rotations, angles, flips) with all its queries compared '
        'to an independent model in between and at the end; non-trivial: the plane has been changed at least once.',
    assumptions=['edges that are nearly parallel to the plane are not intersected'])
