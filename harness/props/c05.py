"""C05: merging, unused vertices, degenerated faces, description of triangles: complete, exact, geometry preserved"""
import numpy as np
from scipy.spatial import cKDTree
from hypothesis import strategies as st

import gen
import geom
from core import Property, Sub, Reject, require, Violation
from sut import mk, snapshot, outcome
from meshmagick.tools import merge_duplicate_rows


def explode(V, F, mode, jit, atol):
    """Gives faces their own copies of vertices, copies being at most 0.4 atol apart per coordinate.
    Returns vertices, faces and the origin of every vertex"""
    new_v, new_f, origin, first = [], [], [], {}
    k = 0
    for i, f in enumerate(F):
        ids, row = {}, []
        for a in f:
            if a not in ids:
                own = (mode >> (k % 60)) & 1 or a not in first
                k += 1
                if own:
                    ids[a] = len(new_v)
                    first.setdefault(a, ids[a])
                    d = np.array([((jit >> ((7 * k + 3 * j) % 58)) & 3) / 3. * 0.4 * atol - 0.2 * atol
                                  for j in range(3)]) if jit else np.zeros(3)
                    new_v.append(V[a] + d)
                    origin.append(a)
                else:
                    ids[a] = first[a]
            row.append(ids[a])
        new_f.append(row)
    return np.array(new_v), np.array(new_f), np.array(origin)


def separated(V, atol):
    """Distinct points are well separated (whatever their coordinates, one by one)"""
    return len(cKDTree(V).query_pairs(2.5 * atol, p=np.inf)) == 0


def check_merge(case, ctx):
    atol = case['atol']
    V, F = gen.build(case['mesh'])
    if case['unused']:
        V = np.concatenate((V, V[:1] + np.array([[case['unused'], .5, .25]])))
    W, G, origin = explode(V, F, case['mode'], case['jit'], atol)
    if case['vperm']:
        perm = np.random.RandomState(case['vperm'] % 2 ** 32).permutation(len(W))
        X = np.empty_like(W)
        X[perm] = W
        org = np.empty_like(origin)
        org[perm] = origin
        W, G, origin = X, perm[G], org
    if case['api'] == 'tool':
        W0 = W.copy()
        uniq, new_id = merge_duplicate_rows(W, atol=atol, return_index=True)
        require(np.array_equal(W, W0), 'the input array has been modified')
        alone = merge_duplicate_rows(W, atol=atol)
        require(np.array_equal(alone, uniq), 'the result depends on return_index')
        F2 = np.asarray(new_id)[G]
    else:
        m = mk(W, G)
        if case['api'] == 'warm':
            m.faces_areas, m.vv
        if case['api'] == 'default':
            m.merge_duplicates()
            new_id = None
        else:
            new_id = m.merge_duplicates(atol=atol, return_index=True)
        uniq, F2 = np.asarray(m.vertices), np.asarray(m.faces)
    geom.check_faces_valid(uniq, F2, 'after merging')
    require(F2.shape == G.shape, 'the number of faces has changed')
    # nothing moves by more than the tolerance: distinct vertices are never merged
    d = np.abs(uniq[F2] - W[G]).max()
    require(d <= atol * (1 + 1e-6) + 1e-12, 'a vertex of a face moved by %.3g, tolerance %.3g', d, atol)
    if new_id is not None:
        new_id = np.asarray(new_id)
        require(len(new_id) == len(W), 'one new id per initial vertex is expected')
        d = np.abs(uniq[new_id] - W).max()
        require(d <= atol * (1 + 1e-6) + 1e-12, 'new ids: a vertex moved by %.3g, tolerance %.3g', d, atol)
        require(set(map(int, new_id)) == set(range(len(uniq))), 'some vertices do not come from the initial ones')
    # completeness
    if separated(V, atol) or not case['jit']:
        used = sorted(set(map(int, origin)))
        n_expected = len(used)
        if separated(V, atol):
            require(len(uniq) == n_expected, '%d vertices after merging, %d distinct ones', len(uniq), n_expected)
            ctx.label('complete')
        else:
            # exactly equal copies are merged in any case
            require(len(np.unique(uniq, axis=0)) == len(uniq), 'identical vertices remain')
        ctx.nontrivial(len(W) > n_expected)
    ctx.label('jitter' if case['jit'] else 'exact', case['api'])


def check_cloud(case, ctx):
    """Clouds of points whose coordinates are dense with respect to the tolerance, some of them within the tolerance of others
    without being their copies"""
    r = np.random.RandomState(case['seed'])
    n, atol = case['n'], case['atol']
    P = r.uniform(0., case['size'], (n, 3)) * np.array(case['flat'])
    if case['grid']:
        # coordinates that are multiples of a fraction of the tolerance: chains of points
        P = np.round(P / (case['grid'] * atol)) * case['grid'] * atol
    W = P.copy()
    for k in range(case['copies']):
        W = np.concatenate((W, P + r.uniform(-.2, .2, P.shape) * atol * case['jit']))
    W = W[r.permutation(len(W))] + np.array(case['pos'])
    dist = cKDTree(W).query(W, k=2, p=np.inf)[0][:, 1] if len(W) > 1 else np.array([np.inf])
    if case['api'] == 'mesh':
        F = np.arange(len(W) - len(W) % 3).reshape(-1, 3)
        m = mk(W, np.column_stack((F, F[:, 0])))
        new_id = m.merge_duplicates(atol=atol, return_index=True)
        uniq = np.asarray(m.vertices)
    else:
        uniq, new_id = merge_duplicate_rows(W, atol=atol, return_index=True)
        uniq = np.asarray(uniq)
    new_id = np.asarray(new_id)
    require(set(map(int, new_id)) == set(range(len(uniq))), 'new ids are not those of the vertices that remain')
    eps = 1e-12 * (1. + np.abs(W).max())
    d = np.abs(uniq[new_id] - W).max()
    require(d <= atol + eps, 'a vertex moved by %.3g, tolerance %.3g', d, atol)
    if len(uniq) > 1:
        d = cKDTree(uniq).query(uniq, k=2, p=np.inf)[0][:, 1].min()
        require(d >= atol - eps, 'two vertices that are %.3g away from each other remain, tolerance %.3g', d, atol)
    again, ids = merge_duplicate_rows(uniq, atol=atol - 2 * eps, return_index=True)
    require(np.array_equal(again, uniq) and np.array_equal(ids, np.arange(len(uniq))), 'merging twice is not merging once')
    ctx.label('grid' if case['grid'] else 'random', case['api'], 'merged' if len(uniq) < len(W) else 'none')
    ctx.nontrivial(bool((dist <= atol).any()))


def check_collapsed(case, ctx):
    """Sides of faces that are shorter than the tolerance: quadrangles become triangles"""
    V, F = gen.build(case['mesh'])
    atol = case['atol']
    if len(cKDTree(V).query_pairs(8 * atol)):
        raise Reject('details of the size of the tolerance')
    polys = geom.polys_of(F)
    quads = [i for i, p in enumerate(polys) if len(p) == 4]
    if not quads:
        raise Reject('triangles only')
    W = [p for p in V]
    rows = [list(map(int, f)) for f in F]
    expected = [list(map(int, f)) for f in F]
    done = set()
    for k, corner, gap in case['at']:
        i = quads[k % len(quads)]
        if i in done:
            continue
        done.add(i)
        q = polys[i]
        # the vertex that follows is replaced by a copy of this one
        a = q[corner % 4]
        W.append(V[a] + np.array([gap * atol, 0., 0.]))
        rows[i][(corner + 1) % 4] = len(W) - 1
        t = [x for j, x in enumerate(q) if j != (corner + 1) % 4]
        expected[i] = t + t[:1]
    W, rows = np.array(W), np.array(rows)
    m = mk(W, rows)
    if case['warm']:
        m.nb_triangles, m.faces_areas
    m.merge_duplicates(atol=atol)
    geom.check_faces_valid(m.vertices, m.faces, 'after merging')
    nt = sum(len(p) == 3 for p in polys) + len(done)
    require(m.nb_triangles == nt and m.nb_quadrangles == len(F) - nt, '%d triangles and %d quadrangles after merging, %d and %d'
            ' expected', m.nb_triangles, m.nb_quadrangles, nt, len(F) - nt)
    got, exp = np.asarray(m.vertices)[np.asarray(m.faces)], V[np.array(expected)]
    for i in range(len(F)):
        g, e = geom.polys_of(m.faces[i:i + 1])[0], geom.polys_of(np.array(expected[i:i + 1]))[0]
        P, Q = np.asarray(m.vertices)[g], V[e]
        require(len(P) == len(Q) and any(np.abs(np.roll(P, s, axis=0) - Q).max() <= atol * (1 + 1e-6) for s in range(len(Q))),
                'face %d is %s after merging, %s expected', i, P.tolist(), Q.tolist())
    ctx.label('%d collapsed' % len(done), *['corner %d' % (c % 4) for _, c, _ in case['at']])
    ctx.nontrivial(True)


def check_unused(case, ctx):
    V, F = gen.build(case['mesh'])
    n = len(V)
    extra = case['extra']
    pts = [np.array(p) for p in extra]
    perm = np.random.RandomState(case['vperm'] % 2 ** 32).permutation(n + len(pts)) if case['vperm'] else \
        np.arange(n + len(pts))
    W = np.empty((n + len(pts), 3))
    W[perm] = np.concatenate((V, np.array(pts).reshape(-1, 3)))
    G = perm[F]
    keep = [i for i in range(len(G)) if (case['drop'] >> (i % 60)) & 1 == 0] or [0]
    G = G[keep]
    m = mk(W, G)
    if case['warm']:
        m.faces_areas, m.vv, m.nb_triangles
    m.remove_unused_vertices()
    geom.check_faces_valid(m.vertices, m.faces, 'after removal')
    used = set(map(int, G.ravel()))
    require(m.nb_vertices == len(used), '%d vertices remain, %d are used', m.nb_vertices, len(used))
    require(set(map(int, np.asarray(m.faces).ravel())) == set(range(m.nb_vertices)), 'an unused vertex remains')
    require(np.array_equal(np.asarray(m.vertices)[np.asarray(m.faces)], W[G]), 'the geometry of faces has changed')
    ctx.nontrivial(len(used) < len(W))
    ctx.label('%d unused' % min(5, len(W) - len(used)))


def check_degenerated(case, ctx):
    V, F = gen.build(case['mesh'])
    rows, where = [list(f) for f in F], []
    W = [list(p) for p in V]
    for k, (pos, kind, eps) in enumerate(case['bad']):
        f = F[pos % len(F)]
        a, b, c = int(f[0]), int(f[1]), int(f[2])
        if kind == 'point':
            row = [a, b, b, a]
        elif kind == 'same':
            row = [a, a, a, a]
        else:
            # sliver of relative height eps
            mid = (V[a] + V[b]) / 2
            W.append(list(mid + eps * (V[c] - mid)))
            row = [a, b, len(W) - 1, a]
        at = pos % (len(rows) + 1)
        rows.insert(at, row)
    W, G = np.array(W), np.array(rows)
    areas = np.array([np.linalg.norm(geom.tri_vec(np.array([[P[0], P[i], P[i + 1]] for i in range(1, len(P) - 1)])),
                                     axis=1).sum() for P in geom.polygon_soup(W, G)])
    rtol = case['rtol']
    thr = areas.mean() * rtol
    if np.any(np.abs(areas - thr) < 1e-6 * thr):
        raise Reject('area at the threshold')
    m = mk(W, G)
    if case['warm']:
        m.faces_areas, m.nb_triangles
        # slivers may lead to edges shared by 3 faces, on which connectivities are not defined
        outcome(lambda: m.vv)
    if rtol == 1e-5 and case['default']:
        m.remove_degenerated_faces()
    else:
        m.remove_degenerated_faces(rtol=rtol)
    keep = G[areas >= thr]
    geom.check_faces_valid(m.vertices, m.faces, 'after removal')
    got = np.asarray(m.vertices)[np.asarray(m.faces)]
    exp = W[keep]
    key = lambda A: sorted(map(tuple, np.asarray(A).reshape(len(A), 12).tolist()))
    require(len(got) == len(exp), '%d faces remain, %d expected', len(got), len(exp))
    require(key(got) == key(exp), 'the faces that remain are not the non degenerated ones')
    ctx.nontrivial(len(keep) < len(G))
    ctx.label('removed %d' % min(5, len(G) - len(keep)))


def check_threshold(case, ctx):
    """Only faces whose area is lower than the threshold are removed: all the values are exactly represented"""
    W, G, areas = [], [], []
    x = case['at']
    for a, b, quad in case['sides']:
        k = len(W)
        W += [[x, 0, 0], [x + a, 0, 0], [x + a, b, 0], [x, b, 0]]
        G.append([k, k + 1, k + 2, k + 3 if quad else k])
        areas.append(a * b if quad else a * b / 2.)
        x += a
    W, G, areas = np.roll(np.array(W, dtype=float), case['axis'], axis=1), np.array(G), np.array(areas)
    thr = areas.mean() * case['rtol']
    m = mk(W, G)
    if case['warm']:
        m.faces_areas, m.nb_triangles
    m.remove_degenerated_faces(rtol=case['rtol'])
    got = np.asarray(m.vertices)[np.asarray(m.faces, dtype=int).reshape((-1, 4))]
    exp = W[G[areas >= thr]]
    key = lambda A: sorted(map(tuple, np.asarray(A).reshape(len(A), 12).tolist()))
    require(key(got) == key(exp), 'areas are %s, the threshold is %g: %d faces remain, %d expected', areas.tolist(), thr,
            len(got), len(exp))
    ctx.nontrivial(bool(np.any(areas == thr)))
    ctx.label('%d of %d removed' % (np.sum(areas < thr), len(areas)))


def check_triangles(case, ctx):
    V, F = gen.build(case['mesh'])
    G = F.copy()
    nb = 0
    for i in np.where(F[:, 0] == F[:, 3])[0]:
        a, b, c = F[i, :3]
        kind = (case['how'] >> (2 * (i % 30))) & 3
        G[i] = [[a, b, c, a], [a, a, b, c], [a, b, b, c], [a, b, c, c]][kind]
        nb += kind != 0
    m = mk(V, G)
    if case['warm']:
        m.faces_areas, m.nb_triangles
    m.heal_triangles()
    F2 = np.asarray(m.faces)
    require(F2.shape == F.shape, 'the number of faces has changed')
    require(np.array_equal(m.vertices, V), 'vertices have been modified')
    t = F2[:, 0] == F2[:, 3]
    require(t.sum() == (F[:, 0] == F[:, 3]).sum(), '%d triangles after healing, %d expected', t.sum(),
            (F[:, 0] == F[:, 3]).sum())
    require(m.nb_triangles == t.sum(), 'number of triangles')
    require(sorted(geom.canon_cycle(p) for p in geom.polys_of(F2)) ==
            sorted(geom.canon_cycle(p) for p in geom.polys_of(F)), 'faces are not the ones described')
    ctx.nontrivial(nb > 0)
    ctx.label('%d bad' % min(nb, 4))


def merge_st():
    return st.fixed_dictionaries({
        'mesh': gen.any_mesh(max_bodies=2, smax=6.), 'atol': st.sampled_from([0., 1e-8, 1e-8, 1e-6, 1e-4, 1e-3, 1e-2, 4e-2]),
        'mode': st.one_of(st.just(-1), st.just(0), gen.bits()), 'jit': gen.bits(), 'vperm': gen.bits(),
        'unused': st.sampled_from([0, 0, 50.]), 'api': st.sampled_from(['tool', 'mesh', 'warm'])})


def unused_st():
    return {'mesh': gen.any_mesh(smax=6.), 'extra': st.lists(gen.vec3(-5, 5), max_size=6), 'vperm': gen.bits(),
            'drop': st.one_of(st.just(0), gen.bits()), 'warm': st.booleans()}


def degenerated_st():
    return {'mesh': gen.any_mesh(smax=6.), 'rtol': st.sampled_from([1e-5, 1e-5, 1e-3, 1e-2, .1, .5, .9, 1.1, 1.5]),
            'bad': st.lists(st.tuples(st.integers(0, 200), st.sampled_from(['point', 'same', 'sliver', 'sliver']),
                                      st.sampled_from([0., 1e-12, 1e-8, 1e-6, 1e-4, 1e-2])).map(list), max_size=6),
            'warm': st.booleans(), 'default': st.booleans()}


def check_cleaning(case, ctx):
    check_unused(case, ctx)
    check_degenerated(case, ctx)


PROPERTY = Property('C05', [
    Sub('merge', merge_st, check_merge, quick=1500),
    Sub('merge_default', lambda: st.fixed_dictionaries({
        'mesh': gen.any_mesh(max_bodies=2, smax=6.), 'atol': st.just(1e-8),
        'mode': st.one_of(st.just(-1), st.just(0), gen.bits()), 'jit': gen.bits(), 'vperm': gen.bits(),
        'unused': st.just(0), 'api': st.just('default')}), check_merge, quick=300),
    Sub('cloud', lambda: st.fixed_dictionaries({
        'seed': st.integers(0, 10 ** 6), 'n': st.sampled_from([1, 2, 3, 5, 8, 20, 60, 200, 500]),
        'atol': st.sampled_from([1e-2, 1e-2, 3e-2, 1e-3, 1e-8]), 'size': st.sampled_from([.02, .1, 1., 10.]),
        'flat': st.sampled_from([[1., 1., 1.], [1., 1., 0.], [0., 1., 0.], [1., .01, 1.]]),
        'grid': st.sampled_from([0, 0, .3, .45, .9, 1.1]), 'copies': st.integers(0, 3), 'jit': st.sampled_from([0., 1., 1.]),
        'pos': st.one_of(st.just([0., 0., 0.]), gen.vec3(-50, 50)), 'api': st.sampled_from(['tool', 'tool', 'mesh'])}),
        check_cloud, quick=800),
    Sub('collapsed', lambda: st.fixed_dictionaries({
        'mesh': gen.any_mesh(smax=6.), 'atol': st.sampled_from([1e-8, 1e-5, 1e-3, 1e-2]), 'warm': st.booleans(),
        'at': st.lists(st.tuples(st.integers(0, 200), st.integers(0, 3), st.sampled_from([0., .5, -.9])).map(list),
                       min_size=1, max_size=3)}), check_collapsed, quick=600),
    Sub('unused', lambda: st.fixed_dictionaries(unused_st()), check_unused, quick=1000),
    Sub('degenerated', lambda: st.fixed_dictionaries(degenerated_st()), check_degenerated, quick=1000),
    Sub('triangles', lambda: st.fixed_dictionaries({
        'mesh': gen.any_mesh(smax=6.), 'how': gen.bits(), 'warm': st.booleans()}), check_triangles, quick=1000),
    Sub('threshold', lambda: st.fixed_dictionaries({
        'sides': st.sampled_from([1, 2, 4, 8]).flatmap(lambda n: st.lists(
            st.tuples(st.sampled_from([1, 1, 1, 2, 3, 4]), st.sampled_from([1, 1, 2, 4]), st.booleans()).map(list),
            min_size=n, max_size=n)),
        'rtol': st.sampled_from([1., 1., .5, .25, 2.]), 'axis': st.integers(0, 2), 'warm': st.booleans(),
        'at': st.integers(-8, 8)}), check_threshold, quick=400),
    Sub('large', lambda: gen.with_large(merge_st(), False), check_merge, quick=40),
    Sub('large_cleaning', lambda: gen.with_large(st.fixed_dictionaries(dict(unused_st(), **degenerated_st())), False),
        check_cleaning, quick=40),
], rule='Meshes altered on purpose (duplicated vertices within the tolerance, unused vertices, slivers and collapsed '
        'faces, triangles described in the four ways); non-trivial: the alteration is effective.',
    assumptions=['the distance between vertices is the greatest difference of their coordinates'])
