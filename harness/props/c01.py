"""C01: whatever the history of a mesh, its derived quantities are those of a fresh mesh with the same data"""
import numpy as np
from hypothesis import strategies as st

import gen
import geom
from core import Property, Sub, Violation, require
from sut import Mesh, Plane, mk, mesh_of, snapshot, require_unchanged, outcome, rbi_tuple, as_given, forget

QUERIES = ['areas', 'normals', 'centers', 'ids', 'counts', 'vv', 'vf', 'ff', 'boundaries', 'closed', 'integrals',
           'volume', 'bbox', 'edges', 'plain', 'shell', 'faces', 'str']


def q_value(m, q):
    if q == 'areas':
        return np.array(m.faces_areas)
    if q == 'normals':
        return np.array(m.faces_normals)
    if q == 'centers':
        return np.array(m.faces_centers)
    if q == 'ids':
        return list(map(int, m.triangles_ids)), list(map(int, m.quadrangles_ids))
    if q == 'counts':
        return m.nb_triangles, m.nb_quadrangles, m.nb_faces, m.nb_vertices
    if q in ('vv', 'vf', 'ff'):
        return dict((int(k), sorted(map(int, v))) for k, v in getattr(m, q).items())
    if q == 'boundaries':
        return m.nb_boundaries, sorted(geom.canon_cycle(b[:-1]) for b in m.boundaries)
    if q == 'closed':
        return bool(m.is_mesh_closed())
    if q == 'integrals':
        return np.array(m.get_surface_integrals())
    if q == 'volume':
        return np.array(m.volume)
    if q == 'bbox':
        return np.array(list(m.axis_aligned_bbox) + list(m.squared_axis_aligned_bbox))
    if q == 'edges':
        return np.array([m.min_edge_length, m.max_edge_length, m.mean_edge_length])
    if q in ('plain', 'shell'):
        i = m.eval_plain_mesh_inertias() if q == 'plain' else m.eval_shell_mesh_inertias()
        mass, cog, mat = rbi_tuple(i)
        return np.concatenate(([mass], cog, mat.ravel()))
    if q == 'faces':
        return [(bool(m.is_triangle(i)), list(map(int, m.get_face(i)))) for i in range(m.nb_faces)]
    if q == 'str':
        return [l for l in str(m).splitlines() if 'NAME' not in l]


def tol_of(q, V):
    s = max(geom.size_of(V), 1.)
    return 1e-7 * {'areas': s ** 2, 'normals': 10., 'centers': s, 'integrals': s ** 5, 'volume': s ** 3, 'bbox': s,
                   'edges': s}.get(q, 1.)


def pinched(F):
    """Some vertex has several outgoing (or no matching) boundary edges: the chaining of boundaries is ambiguous"""
    und = geom.undirected(F)
    out = {}
    ends = {}
    for (a, b), faces in geom.edge_map(F).items():
        if len(und[(min(a, b), max(a, b))]) == 1:
            out[b] = out.get(b, 0) + 1
            ends[a] = ends.get(a, 0) + 1
    return any(v > 1 for v in out.values()) or any(v > 1 for v in ends.values()) or set(out) != set(ends)


def compare(m, fresh, q, when):
    a = outcome(lambda: q_value(m, q))
    b = outcome(lambda: q_value(fresh, q))
    require(a[0] == b[0] and (a[0] == 'ok' or a[1] == b[1]), "%s: '%s' gives %s where a fresh mesh gives %s", when, q,
            a[1] if a[0] == 'exc' else 'a value', b[1] if b[0] == 'exc' else 'a value')
    if a[0] == 'exc':
        return
    x, y = a[1], b[1]
    if isinstance(x, np.ndarray):
        require(x.shape == y.shape, "%s: '%s' has shape %s, %s for a fresh mesh", when, q, x.shape, y.shape)
        if q in ('plain', 'shell'):
            scale = max(1e-30, float(np.nanmax(np.abs(y))))
            if not np.isfinite(y).all():
                return
            ok = np.abs(x - y) <= 1e-7 * scale
            if q == 'plain' and abs(float(fresh.volume)) < 1e-6 * geom.size_of(fresh.vertices) ** 3:
                return      # division by a null volume
        else:
            ok = (np.abs(x - y) <= tol_of(q, fresh.vertices)) | (np.isnan(x) & np.isnan(y))
        require(np.all(ok), "%s: '%s' is %s where a fresh mesh gives %s", when, q, geom.short(x), geom.short(y))
    elif q == 'str':
        require(len(x) == len(y), "%s: different string representation", when)
        for l1, l2 in zip(x, y):
            if 'Number' in l1:
                require(l1 == l2, "%s: representation '%s' where a fresh mesh gives '%s'", when, l1.strip(),
                        l2.strip())
    elif q == 'boundaries' and pinched(fresh.faces):
        return
    else:
        require(x == y, "%s: '%s' is %s where a fresh mesh gives %s", when, q, str(x)[:300], str(y)[:300])


def plane_of(p):
    return Plane(normal=p[0], scalar=p[1])


def apply_op(m, op):
    """Applies an operation, returns the mesh to go on with"""
    name, args = op[0], op[1:]
    if name in ('rotate_x', 'rotate_y', 'rotate_z', 'translate_x', 'translate_y', 'translate_z', 'scale', 'scalex',
                'scaley', 'scalez', 'rotate', 'translate'):
        getattr(m, name)(args[0])
    elif name == 'rotate_matrix':
        m.rotate_matrix(gen.rotmat(args[0]))
    elif name in ('flip_normals', 'merge_duplicates', 'heal_normals', 'remove_unused_vertices', 'heal_triangles',
                  'remove_degenerated_faces', 'heal_mesh', 'triangulate_quadrangles'):
        getattr(m, name)()
    elif name == 'merge_tol':
        m.merge_duplicates(atol=args[0])
    elif name in ('mirror', 'symmetrize'):
        getattr(m, name)(plane_of(args[0]))
    elif name == 'set_vertices':
        v = np.array(m.vertices) * np.array(args[0])
        if len(args) > 1 and args[1] > 0:
            # additional vertices
            v = np.concatenate((v, [[k + .5, 1., -2.] for k in range(args[1])]))
        elif len(args) > 1 and args[1] < 0:
            # without the last vertices that no face uses
            used = int(m.faces.max()) + 1 if m.nb_faces else len(v)
            v = v[:max(used, len(v) + args[1])]
        v = as_given(v, m.faces)[0]
        m.vertices = v
        forget(v)
    elif name == 'bend':
        # quadrangles become warped
        v = np.array(m.vertices)
        v = v + args[0] * (v * v[:, [1, 2, 0]])
        m.vertices = v
        forget(v)
    elif name == 'set_faces':
        f = np.array(m.faces)
        if args[0] == 'reverse':
            f = f[::-1].copy()
        elif args[0] == 'flip':
            f = f[:, ::-1].copy()
        elif args[0] == 'more':
            f = np.concatenate((f, f[:2, ::-1] if len(f) > 2 else f[:1]))
        elif args[0] == 'split':
            # a quadrangle (if any) is replaced by one of its halves
            for face in f:
                if len(set(face.tolist())) == 4:
                    face[3] = face[0]
                    break
        elif args[0] == 'other' and m.nb_vertices > 3:
            # another vertex for a corner of a triangle or a quadrangle
            free = [k for k in range(m.nb_vertices) if k not in f[0]]
            if free:
                f[0][1] = free[0]
        elif len(f) > 1:
            f = f[1:].copy()
        f = as_given(m.vertices, f)[1]
        m.faces = f
        forget(f)
    elif name == 'copy':
        m = m.copy()
    elif name == 'extract':
        ids = [i for i in range(m.nb_faces) if (args[0] >> (i % 50)) & 1] or [0]
        m = m.extract_faces(ids)
    elif name == 'add':
        other = m.copy()
        other.translate([args[0] * geom.extent(m.vertices) * 1.5 + 1., 0., 0.])
        m = m + other
    elif name == 'verbose':
        m.verbose_on()
    else:
        raise ValueError(name)
    return m


def plane_st():
    return st.tuples(st.one_of(st.sampled_from([[1., 0., 0.], [0., 1., 0.], [0., 0., 1.], [0., 0., -1.]]),
                               gen.vec3(-1, 1).filter(lambda n: sum(x * x for x in n) > 0.01)),
                     gen.num(-8, 8)).map(list)


def op_st():
    ang = gen.angle()
    three = st.tuples(ang, ang, ang).map(list)
    some = st.builds(lambda a, k: [a if i == k else 0. for i in range(3)], ang, st.integers(0, 2))
    op = lambda name, *s: st.tuples(st.just(name), *s).map(list)
    return st.one_of(
        op('rotate_x', ang), op('rotate_y', ang), op('rotate_z', ang),
        op('rotate', st.one_of(three, some)), op('rotate_matrix', st.one_of(three, some)),
        op('translate_x', gen.num(-9, 9)), op('translate_y', gen.num(-9, 9)), op('translate_z', gen.num(-9, 9)),
        op('translate', st.one_of(gen.vec3(-9, 9), gen.along(-9, 9))),
        op('scale', gen.pos_num(.3, 3)), op('scalex', gen.pos_num(.3, 3)), op('scaley', gen.pos_num(.3, 3)),
        op('scalez', gen.pos_num(.3, 3)),
        op('flip_normals'), op('merge_duplicates'), op('heal_normals'), op('remove_unused_vertices'),
        op('heal_triangles'), op('remove_degenerated_faces'), op('heal_mesh'), op('triangulate_quadrangles'),
        op('merge_tol', st.sampled_from([1e-8, 1e-6, 1e-3])),
        op('mirror', plane_st()), op('symmetrize', plane_st()),
        op('set_vertices', st.tuples(gen.pos_num(.5, 2), gen.pos_num(.5, 2), gen.pos_num(.5, 2)).map(list)),
        op('set_vertices', st.just([1., 1., 1.]), st.sampled_from([1, 2, 5, -1, -3])),
        op('set_faces', st.sampled_from(['reverse', 'flip', 'drop', 'more', 'split', 'other'])),
        op('bend', st.sampled_from([.01, .05, -.03])),
        op('copy'), op('extract', st.integers(1, 2 ** 50 - 1)), op('add', st.sampled_from([0., 1.])),
        op('verbose'),
    )


def tiny_st():
    """Motions so small that the mesh hardly changes, alone or many times"""
    eps = st.tuples(st.sampled_from([1., -1.]), st.sampled_from([3e-3, 1e-3, 1e-4, 1e-5, 1e-6, 1e-9])).map(lambda t: t[0] * t[1])
    op = lambda name, *s: st.tuples(st.just(name), *s).map(list)
    three = st.tuples(eps, eps, eps).map(list)
    near = eps.map(lambda e: 1. + e)
    return st.one_of(*[op(n, eps) for n in ('rotate_x', 'rotate_y', 'rotate_z', 'translate_x', 'translate_y', 'translate_z')] +
                     [op(n, three) for n in ('rotate', 'rotate_matrix', 'rotate_matrix', 'translate')] +
                     [op(n, near) for n in ('scale', 'scalex', 'scaley', 'scalez')] +
                     [op('set_vertices', st.tuples(near, near, near).map(list))])


def healing_st():
    """Operations that keep most of the mesh"""
    op = lambda name, *s: st.tuples(st.just(name), *s).map(list)
    return st.one_of(op('remove_unused_vertices'), op('remove_unused_vertices'), op('merge_duplicates'), op('heal_triangles'),
                     op('heal_normals'), op('remove_degenerated_faces'), op('flip_normals'), op('set_faces', st.sampled_from(['drop', 'more', 'other'])), op('bend', st.sampled_from([.01, -.03])),
                     op('set_vertices', st.just([1., 1., 1.]), st.sampled_from([1, 2, 5, -1, -3])),
                     op('translate_x', gen.num(-9, 9)), op('verbose'), op('copy'))


def spare_st():
    """Conformal meshes having unused vertices, of which everything is known"""
    spare = {'dup': False, 'flip': 0, 'badtri': False, 'degen': 0, 'islands': 0}
    return st.fixed_dictionaries({
        'mesh': gen.any_mesh(smax=6.), 'messy': st.sampled_from([1, 1, 2, 3]).map(lambda k: dict(spare, unused=k)),
        'first': st.lists(st.sampled_from(QUERIES), max_size=5).map(lambda q: q + ['vv', 'volume', 'areas']),
        'steps': st.lists(st.tuples(healing_st(), st.lists(st.sampled_from(QUERIES), max_size=4)).map(list), min_size=1,
                          max_size=5)})


def messy():
    """Alterations of the initial data: unmerged vertices, unused vertices, reversed faces, badly described triangles,
    degenerated faces"""
    return st.fixed_dictionaries({
        'dup': st.booleans(), 'unused': st.integers(0, 3), 'flip': st.one_of(st.just(0), gen.bits()),
        'badtri': st.booleans(), 'degen': st.integers(0, 2), 'islands': st.sampled_from([0, 0, 1, 2])})


def build_messy(case):
    V, F = gen.build(case['mesh'])
    x = case['messy']
    F = F.copy()
    if x['dup']:
        new_v, new_f = [], []
        for f in F:
            ids = {}
            row = []
            for i in f:
                if i not in ids:
                    ids[i] = len(new_v)
                    new_v.append(V[i])
                row.append(ids[i])
            new_f.append(row)
        V, F = np.array(new_v), np.array(new_f)
    for i in range(len(F)):
        if (x['flip'] >> (i % 60)) & 1:
            F[i] = F[i][::-1]
    if x['degen']:
        f = F[:x['degen']].copy()
        f[:, 2] = f[:, 1]
        f[:, 3] = f[:, 0]
        F = np.concatenate((F, f))
    if x['islands']:
        # tiny faces having their own vertices
        h = 1e-4 * np.sqrt(np.linalg.norm(geom.tri_vec(geom.soup(V, F)), axis=1).sum() / len(F))
        for k in range(x['islands']):
            o = V.max(axis=0) + .5 + k
            n = len(V)
            V = np.concatenate((V, o + h * np.array([[0., 0., 0.], [1., 0., 0.], [1., 1., 0.], [0., 1., 0.]])[:4 - k]))
            F = np.concatenate((F, [[n, n + 1, n + 2, n + 3 if k == 0 else n]]))
    if x['badtri']:
        for i in np.where(F[:, 0] == F[:, 3])[0]:
            a, b, c = F[i, :3]
            F[i] = [a, a, b, c] if i % 3 == 0 else [a, b, b, c] if i % 3 == 1 else [a, b, c, c]
    if x['unused']:
        V = np.concatenate((V, V[:1] + np.arange(1, x['unused'] + 1)[:, None] * 0.37))
    return V, F


def case_st(clean, ops=op_st):
    clean_messy = {'dup': False, 'unused': 0, 'flip': 0, 'badtri': False, 'degen': 0, 'islands': 0}
    return st.fixed_dictionaries({
        'mesh': gen.any_mesh(smax=6.),
        'messy': st.just(clean_messy) if clean else messy(),
        'first': st.lists(st.sampled_from(QUERIES), max_size=5),
        'steps': st.lists(st.tuples(ops(), st.lists(st.sampled_from(QUERIES), max_size=4)).map(list), min_size=1,
                          max_size=6),
    })


def check_faces(m, fresh, when):
    require(m.nb_faces == fresh.nb_faces, '%s: %d faces, %d if applied on a fresh mesh', when, m.nb_faces,
            fresh.nb_faces)
    tol = 1e-9 * max(1., geom.size_of(fresh.vertices))
    if m.vertices.shape == fresh.vertices.shape and np.array_equal(m.faces, fresh.faces) \
            and np.abs(m.vertices - fresh.vertices).max() <= tol:
        return
    geom.require_same_surface(m.vertices, m.faces, fresh.vertices, fresh.faces, tol,
                              '%s: not the mesh obtained from a fresh mesh' % when)


def check(case, ctx):
    V, F = build_messy(case)
    m = mk(V, F)
    cached = set()
    for q in case['first']:
        snap = snapshot(m)
        compare(m, mk(*snap), q, 'initially')
        require_unchanged(m, snap, "query '%s'" % q)
        cached.add(q)
    hot = False
    done = []
    for op, queries in case['steps']:
        if m.nb_faces > 400 and op[0] in ('symmetrize', 'add', 'triangulate_quadrangles'):
            continue
        done.append(op[0])
        when = 'after ' + ','.join(done)
        hot = hot or bool(cached)
        pre = snapshot(m)
        res = outcome(lambda: apply_op(m, op))
        # whether an operation has to succeed is the matter of other properties: it does what it does on a fresh mesh
        ref = outcome(lambda: apply_op(mk(*pre), op))
        require(res[0] == ref[0], '%s: gives %s whereas it gives %s on a fresh mesh', when, res, ref)
        if res[0] == 'exc':
            ctx.label('operation refused')
            return
        m = res[1]
        check_faces(m, ref[1], when)
        ctx.label('op:' + op[0])
        if m.nb_faces == 0:
            ctx.label('emptied')
            return
        for q in queries:
            snap = snapshot(m)
            compare(m, mk(*snap), q, when)
            require_unchanged(m, snap, "%s, query '%s'" % (when, q))
            cached.add(q)
    snap = snapshot(m)
    fresh = mk(*snap)
    for q in QUERIES:
        compare(m, fresh, q, 'after ' + ','.join(done))
        require_unchanged(m, snap, "query '%s'" % q)
    ctx.nontrivial(hot)
    ctx.label('cached before' if hot else 'cold')


PROPERTY = Property('C01', [
    Sub('history', lambda: case_st(True), check, quick=4000),
    Sub('history_messy', lambda: case_st(False), check, quick=1500),
    Sub('tiny', lambda: case_st(True, tiny_st), check, quick=800),
    Sub('spare', spare_st, check, quick=400),
    Sub('large', lambda: gen.with_large(st.one_of(case_st(True), case_st(False)), False), check, quick=40),
], rule='A case is a generated mesh, the queries made first and up to 6 operations with the queries made in between; it'
        ' is non-trivial when some derived quantity had been computed (hence possibly stored) before an operation.',
    assumptions=['the reference is a mesh newly built from the current vertices and faces; its absolute correctness is '
                 'the matter of C03 and C04', 'quadrangles are flat'])
