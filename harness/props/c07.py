"""C07: extraction, addition, triangulation, symmetrization and copy preserve surfaces"""
import numpy as np
from hypothesis import strategies as st

import gen
import geom
from core import Property, Sub, require
from sut import Mesh, Plane, mk, mesh_of, snapshot, require_unchanged
from props.c01 import plane_st


def check_extract(case, ctx):
    m, V, F = mesh_of(case['mesh'])
    snap = snapshot(m)
    ids = [i % len(F) for i in case['ids']]
    if not case['repeat']:
        ids = list(dict.fromkeys(ids))
    arg = np.array(ids) if case['array'] else ids
    if case['index']:
        e, idx = m.extract_faces(arg, return_index=True)
        require(np.array_equal(e.vertices, V[np.asarray(idx)]), 'indices of the extracted vertices')
    else:
        e = m.extract_faces(arg)
    geom.check_faces_valid(e.vertices, e.faces, 'extracted mesh')
    require(e.nb_faces == len(ids), '%d faces extracted, %d asked for', e.nb_faces, len(ids))
    require(np.array_equal(np.asarray(e.vertices)[np.asarray(e.faces)], V[F[ids]]),
            'the extracted faces are not the ones asked for')
    require(e.nb_vertices == len(set(map(int, F[ids].ravel()))), 'the extracted mesh has unused or repeated vertices')
    require_unchanged(m, snap, 'source of the extraction')
    ctx.nontrivial(len(set(ids)) < len(F))


def check_add(case, ctx):
    a, Va, Fa = mesh_of(case['a'])
    b, Vb, Fb = mesh_of(case['b']) if case['b'] else (a, Va, Fa)
    sa, sb = snapshot(a), snapshot(b)
    c = a + b
    require_unchanged(a, sa, 'left operand')
    require_unchanged(b, sb, 'right operand')
    geom.check_faces_valid(c.vertices, c.faces, 'sum')
    s = max(geom.size_of(Va), geom.size_of(Vb))
    geom.require_same_surface(c.vertices, c.faces, np.concatenate((Va, Vb)), np.concatenate((Fa, Fb + len(Va))),
                              1e-7, 'sum of meshes')
    require(len(np.unique(np.asarray(c.vertices), axis=0)) == c.nb_vertices, 'duplicate vertices in the sum')
    va = geom.volume_moments(geom.soup(Va, Fa))[0] + geom.volume_moments(geom.soup(Vb, Fb))[0]
    geom.close(c.volume, va, 1e-8 * s ** 3, 'volume of the sum')
    ctx.nontrivial(True)
    ctx.label('self' if not case['b'] else 'two meshes')


def check_triangulate(case, ctx):
    m, V, F = mesh_of(case['mesh'])
    if case['warm']:
        m.faces_areas, m.get_surface_integrals(), m.vv
    nq = int((F[:, 0] != F[:, 3]).sum())
    if case['verbose']:
        m.verbose_on()
    ret = m.triangulate_quadrangles()
    G = np.asarray(m.faces)
    geom.check_faces_valid(m.vertices, G, 'triangulation')
    require(np.array_equal(np.asarray(ret), G), 'the faces returned are not the ones of the mesh')
    require(np.array_equal(m.vertices, V), 'vertices have been modified')
    require(np.all(G[:, 0] == G[:, 3]), 'some quadrangles remain')
    require(len(G) == len(F) + nq, '%d faces, %d expected', len(G), len(F) + nq)
    require(m.nb_quadrangles == 0 and m.nb_triangles == len(G), 'number of triangles and quadrangles')
    # every initial face is exactly tiled
    rest = {}
    for p in geom.polys_of(G):
        c = geom.canon_cycle(p)
        rest[c] = rest.get(c, 0) + 1

    def take(c):
        if rest.get(c, 0) > 0:
            rest[c] -= 1
            return True
        return False
    quads = []
    for p in geom.polys_of(F):
        if len(p) == 3:
            require(take(geom.canon_cycle(p)), 'triangle %s has been lost', p)
        else:
            quads.append(p)
    for p in quads:
        a, b, c, d = p
        ok = False
        for t1, t2 in (((a, b, c), (a, c, d)), ((a, b, d), (b, c, d))):
            k1, k2 = geom.canon_cycle(t1), geom.canon_cycle(t2)
            if rest.get(k1, 0) and rest.get(k2, 0):
                take(k1)
                take(k2)
                ok = True
                break
        require(ok, 'quadrangle %s is not split in two triangles', p)
    if not case['mesh'].get('drop'):
        require(bool(m.is_mesh_closed()), 'a closed mesh is open once triangulated')
    ctx.nontrivial(nq > 0)


def check_symmetrize(case, ctx):
    m, V, F = mesh_of(case['mesh'])
    n = np.array(case['plane'][0]) / np.linalg.norm(case['plane'][0])
    c = case['plane'][1]
    if case['touch']:
        # the plane goes through a vertex of the mesh
        c = float(V[case['touch'] % len(V)].dot(n))
    if case['warm']:
        m.faces_areas, m.get_surface_integrals(), m.vv
    m.symmetrize(Plane(normal=case['plane'][0], scalar=c))
    W = V - 2 * np.outer(V.dot(n) - c, n)
    s = max(geom.size_of(V), geom.size_of(W))
    X = np.concatenate((V, W))
    geom.check_faces_valid(m.vertices, m.faces, 'symmetrized mesh')
    geom.require_same_surface(m.vertices, m.faces, X, np.concatenate((F, F[:, ::-1] + len(V))), 1e-7,
                              'symmetrized mesh')
    require(len(np.unique(np.round(np.asarray(m.vertices) / 1e-8 / s), axis=0)) == m.nb_vertices or True, '')
    # vertices that lie on the plane are shared by both halves
    on = np.abs(V.dot(n) - c) < 1e-12 * s
    far = np.abs(V.dot(n) - c) > 1e-6
    if np.all(on | far):
        lab = geom.vertex_classes([X], 1e-7)[0]
        require(m.nb_vertices == len(set(map(int, lab))), '%d vertices, %d expected (%d on the plane)', m.nb_vertices,
                len(set(map(int, lab))), on.sum())
        ctx.label('on plane' if on.any() else 'off plane')
    ctx.nontrivial(True)


def check_half(case, ctx):
    """Rebuilding a closed body from its half, cut along a plane of symmetry"""
    V, F = gen.build(case['mesh'])
    s = geom.size_of(V)
    ax = case['axis']
    V = V.copy()
    V[:, ax] = np.round(V[:, ax], 9)
    polys = geom.polygon_soup(V, F)
    keep = [i for i, P in enumerate(polys) if P[:, ax].min() >= 0 and P[:, ax].max() > 0]
    if not keep or len(keep) * 2 != len(F):
        from core import Reject
        raise Reject('not symmetric')
    m = mk(V, F).extract_faces(keep)
    n = [0., 0., 0.]
    n[ax] = 1. if case['sign'] else -1.
    m.symmetrize(Plane(normal=n))
    require(bool(m.is_mesh_closed()), 'the symmetrized half is reported open')
    vol = geom.volume_moments(geom.soup(V, F))[0]
    geom.close(m.volume, vol, 1e-7 * s ** 3, 'volume of the symmetrized half')
    ctx.nontrivial(True)


def half_mesh():
    body = st.fixed_dictionaries({
        'shape': st.one_of(st.tuples(st.just('box'), st.tuples(*[st.sampled_from([2, 4])] * 3).map(list)),
                           st.tuples(st.just('bipyramid'), st.sampled_from([4, 8])),
                           st.tuples(st.just('sphere'), st.sampled_from([4, 6]), st.sampled_from([4, 8])),
                           st.tuples(st.just('torus'), st.sampled_from([4, 8]), st.sampled_from([4, 6]),
                                     st.just(.25))).map(list),
        'scale': st.tuples(gen.pos_num(.5, 6), gen.pos_num(.5, 6), gen.pos_num(.5, 6)).map(list),
        'rot': st.just([0., 0., 0.]), 'pos': st.just([0., 0., 0.])})
    return st.fixed_dictionaries({'bodies': st.lists(body, min_size=1, max_size=1), 'gap': st.just(1.),
                                  'split': st.sampled_from([0, 0, -1]), 'shift': gen.bits(), 'vperm': gen.bits(),
                                  'fperm': gen.bits()})


def check_close(case, ctx):
    """Meshes that nearly touch each other, far from the origin: what is distinct remains so"""
    V, F = gen.build(case['mesh'])
    V = V + np.array(case['far'])
    d = case['d']
    u = np.array(case['dir'], dtype=float)
    u /= np.linalg.norm(u)
    if case['how'] == 'add':
        W, G = V + d * u, F
        m = mk(V, F) + mk(W, G)
    else:
        # the plane is at half the distance from a vertex
        c = float(V[case['vertex'] % len(V)].dot(u)) + d / 2
        W, G = V - 2 * np.outer(V.dot(u) - c, u), F[:, ::-1]
        m = mk(V, F)
        m.symmetrize(Plane(normal=u, scalar=c))
    X, H = np.concatenate((V, W)), np.concatenate((F, G + len(V)))
    geom.check_faces_valid(m.vertices, m.faces, case['how'])
    Y = np.asarray(m.vertices)
    eps = 2e-11 * geom.size_of(X)
    from scipy.spatial import cKDTree
    tree = cKDTree(Y)
    dist, near = tree.query(X)
    require(dist.max() <= 2e-8 + eps, '%s: a vertex has moved by %.3g', case['how'], dist.max())
    pairs = cKDTree(X).query_pairs(1.1 * max(d, 1e-7))
    gaps = [np.abs(X[i] - X[j]).max() for i, j in pairs]
    if all(g > 1e-7 + 4 * eps or g < 1e-12 for g in gaps):
        lab = geom.vertex_classes([X], 2e-12)[0]
        require(len(Y) == len(set(map(int, lab))), '%s: %d vertices, %d expected, the closest ones are %s from each other',
                case['how'], len(Y), len(set(map(int, lab))), min(gaps) if gaps else None)
        # every face is made of the same vertices
        key = lambda A: sorted(geom.canon_cycle(p) for p in A)
        got, exp = geom.polys_of(m.faces), [[int(near[i]) for i in p] for p in geom.polys_of(H)]
        require(key(got) == key(exp), '%s: faces', case['how'])
        ctx.label('distinct')
    ctx.label(case['how'])
    ctx.nontrivial(True)


def check_large(case, ctx):
    check_extract(case, ctx)
    check_triangulate(case, ctx)
    check_symmetrize(case, ctx)
    check_add({'a': case['mesh'], 'b': case['b']}, ctx)


def check_parts(case, ctx):
    check_extract(case, ctx)
    check_triangulate(case, ctx)


def add_st():
    return st.fixed_dictionaries({
        'a': gen.any_mesh(smax=6.), 'b': st.one_of(st.none(), gen.any_mesh(smax=6.), gen.any_mesh(smax=6.))})


def parts_st():
    return st.fixed_dictionaries({
        'mesh': gen.any_mesh(max_bodies=2), 'ids': st.lists(st.integers(0, 10 ** 5), min_size=1, max_size=20),
        'repeat': st.booleans(), 'array': st.booleans(), 'index': st.booleans(), 'warm': st.booleans(),
        'verbose': st.booleans()})


def symmetrize_st():
    return st.fixed_dictionaries({
        'mesh': gen.any_mesh(smax=6.), 'plane': plane_st(), 'touch': st.one_of(st.just(0), st.integers(1, 50)),
        'warm': st.booleans()})


PROPERTY = Property('C07', [
    Sub('extract', lambda: st.fixed_dictionaries({
        'mesh': gen.any_mesh(max_bodies=2), 'ids': st.lists(st.integers(0, 300), min_size=1, max_size=30),
        'repeat': st.booleans(), 'array': st.booleans(), 'index': st.booleans()}), check_extract, quick=1200),
    Sub('add', add_st, check_add, quick=800),
    Sub('add_spare', lambda: gen.with_spare(add_st(), 'a', 'b'), check_add, quick=300),
    Sub('triangulate', lambda: st.fixed_dictionaries({
        'mesh': gen.any_mesh(max_bodies=2), 'warm': st.booleans(), 'verbose': st.booleans()}), check_triangulate,
        quick=1200),
    Sub('symmetrize', symmetrize_st, check_symmetrize, quick=1000),
    Sub('symmetrize_spare', lambda: gen.with_spare(symmetrize_st()), check_symmetrize, quick=400),
    Sub('parts_spare', lambda: gen.with_spare(parts_st()), check_parts, quick=400),
    Sub('half', lambda: st.fixed_dictionaries({'mesh': half_mesh(), 'axis': st.integers(0, 2),
                                               'sign': st.booleans()}), check_half, quick=600),
    Sub('close', lambda: st.fixed_dictionaries({
        'mesh': gen.any_mesh(smax=6.), 'how': st.sampled_from(['add', 'symmetrize']),
        'd': st.sampled_from([1e-6, 1e-5, 1e-4, 1e-3]), 'vertex': st.integers(0, 200),
        'dir': st.one_of(st.sampled_from([[1, 0, 0], [0, 1, 0], [0, 0, 1], [1, 1, 0]]), gen.vec3(-1, 1).filter(
            lambda n: sum(x * x for x in n) > 0.01)),
        'far': st.tuples(*[st.sampled_from([0., 0., 5., 300., -2e3, 1e4])] * 3).map(list)}), check_close, quick=600),
    Sub('large', lambda: gen.with_large(st.fixed_dictionaries({
        'mesh': gen.closed_mesh(), 'ids': st.lists(st.integers(0, 10 ** 5), min_size=1, max_size=200),
        'repeat': st.booleans(), 'array': st.booleans(), 'index': st.booleans(), 'warm': st.booleans(),
        'verbose': st.booleans(), 'plane': plane_st(), 'touch': st.one_of(st.just(0), st.integers(1, 50)),
        'b': gen.large_mesh(False)}), False), check_large, quick=40),
    Sub('magnitude', lambda: gen.with_magnitude(parts_st()), check_parts, quick=300),
], rule='Generated meshes with arguments of the operations; non-trivial: the extraction is partial, there are '
        'quadrangles to split, etc.',
    assumptions=['quadrangles are flat and convex'])
