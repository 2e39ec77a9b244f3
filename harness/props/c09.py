"""C09: intersection polygons, clippers reused with other planes, isolation of clippers"""
import numpy as np
from hypothesis import strategies as st

import clip
import gen
import geom
from core import Property, Sub, Reject, Violation, require, harness
from sut import Plane, mk, snapshot, require_unchanged, outcome, quiet
from meshmagick.mesh_clipper import MeshClipper


def loops_of(clipper):
    """Checks the two forms of the polygons and lines are the same; returns coordinates"""
    cv = np.asarray(clipper.clipped_crown_mesh.vertices)
    out = []
    for ids, coords, nb in ((clipper.closed_polygons, clipper.closed_polygons_vertices, clipper.nb_closed_polygons),
                            (clipper.open_lines, clipper.open_lines_vertices, clipper.nb_open_lines)):
        require(len(ids) == nb == len(coords), 'number of lines')
        res = []
        for line, pts in zip(ids, coords):
            line = list(map(int, line))
            require(len(line) >= 2 and min(line) >= 0 and max(line) < len(cv), 'ids of the vertices of a line: %s', line)
            require(np.array_equal(cv[line], np.asarray(pts)), 'coordinates of the vertices of a line')
            res.append(cv[line])
        out.append((list(map(lambda l: list(map(int, l)), ids)), res))
    return out


def check_polygons(case, ctx):
    V, F = gen.build(case['mesh'])
    m = mk(V, F)
    n, c = clip.resolve(case['plane'], V, F)
    tol = case['tol']
    cut = clip.Cut(V, F, n, c, tol)
    if cut.tie or not cut.crossing:
        raise Reject('tie or no crossing')
    s = cut.size
    kw = {} if tol == 1e-3 else {'vicinity_tol': tol}
    # a watertight mesh must be accepted when the boundaries are asserted to be closed
    clipper = MeshClipper(m, plane=Plane(n, c), assert_closed_boundaries=case['strict'], verbose=case['verbose'], **kw)
    (ids, loops), (oids, lines) = loops_of(clipper)
    require(len(lines) == 0, 'open lines on a watertight mesh')
    eps = (1e-10 * s if cut.exact else tol * (1 + 1e-9)) + 1.74e-5 * (not cut.separated)
    for line, P in zip(ids, loops):
        require(line[0] == line[-1], 'a closed polygon is not closed')
        require(len(set(line)) == len(line) - 1, 'a polygon runs twice through a vertex')
        require(np.abs(P.dot(n) - c).max() <= eps, 'a polygon is %.3g away from the plane', np.abs(P.dot(n) - c).max())
        require(all(a != b for a, b in zip(line, line[1:])), 'an edge of a polygon has a null length')
    # the polygons delimit the section of the body
    a0, x0, q0 = cut.lid()
    proj = [P - np.outer(P.dot(n) - c, n) for P in loops]
    a1, x1, q1 = clip.polygon_moments(proj, n, c)
    if cut.exact and cut.separated:
        ta = 1e-8 * s ** 2
    else:
        ta = cut.tol_area()
    geom.close(a1, a0, ta, 'area of the section')
    geom.close(x1, x0, ta * s * 4, 'first moments of the section')
    geom.close(q1, q0, ta * s * s * 12, 'second moments of the section')
    if cut.generic and cut.separated and cut.chains() is not None:
        n_closed, n_open = cut.chains()
        require(len(loops) == n_closed, '%d polygons, %d expected', len(loops), n_closed)
        require(sum(len(l) - 1 for l in ids) == len(cut.cross), '%d polygon edges for %d crossed edges',
                sum(len(l) - 1 for l in ids), len(cut.cross))
        ctx.label('polygons:%d' % min(4, n_closed))
    if cut.separated:
        # the polygons are the boundary of the clipped mesh
        W, G = np.asarray(clipper.clipped_mesh.vertices), np.asarray(clipper.clipped_mesh.faces)
        cv = np.asarray(clipper.clipped_crown_mesh.vertices)
        la, lb = geom.vertex_classes([W, cv], 1e-9 * s)
        count = {}
        for (i, j), faces in geom.edge_map(G).items():
            a, b = la[i], la[j]
            count[(a, b)] = count.get((a, b), 0) + len(faces)
        bound = {}
        for (a, b), k in count.items():
            r = k - count.get((b, a), 0)
            if r > 0:
                bound[(a, b)] = r
        # an edge of a polygon and the one of the face it bounds are opposite when the polygon is seen from above
        poly = {}
        for line in ids:
            for i, j in zip(line, line[1:]):
                poly[(lb[i], lb[j])] = poly.get((lb[i], lb[j]), 0) + 1
        net = {}
        for (a, b), k in poly.items():
            r = k - poly.get((b, a), 0)
            if r > 0:
                net[(a, b)] = r
        same = net == bound
        opposite = net == dict(((b, a), k) for (a, b), k in bound.items())
        require(same or opposite, 'polygons are not the boundary of the clipped mesh: %d edges against %d', len(net),
                len(bound))
    # reading the data twice
    require(loops_of(clipper)[0][0] == ids, 'polygons change when read twice')
    ctx.label('generic' if cut.generic else 'exact on' if cut.exact else 'vicinity', *gen.mesh_labels(case['mesh'], F))
    ctx.nontrivial(len(loops) > 0)


def check_open(case, ctx):
    V, F = gen.build(case['mesh'])
    n, c = clip.resolve(case['plane'], V)
    cut = clip.Cut(V, F, n, c, 1e-3)
    if not cut.generic or not cut.separated or not cut.crossing or not cut.cross:
        raise Reject('not generic')
    ch = cut.chains()
    m = mk(V, F)
    clipper = MeshClipper(m, plane=Plane(n, c))
    (ids, loops), (oids, lines) = loops_of(clipper)
    require(len(loops) == ch[0], '%d closed polygons, %d expected', len(loops), ch[0])
    require(len(lines) == ch[1], '%d open lines, %d expected', len(lines), ch[1])
    require(all(l[0] == l[-1] for l in ids) and all(l[0] != l[-1] for l in oids), 'closed / open lines')
    s = cut.size
    for P in loops + lines:
        require(np.abs(P.dot(n) - c).max() <= 1e-10 * s, 'a line is away from the plane')
    require(sum(len(l) for l in oids) + sum(len(l) - 1 for l in ids) == len(cut.cross),
            'the lines do not go through every crossed edge')
    # every intersection point of the crossed edges is on a line
    pts = np.array(list(cut.cross.values()))
    got = np.concatenate(loops + lines)
    from scipy.spatial import cKDTree
    d, _ = cKDTree(got).query(pts)
    require(d.max() <= 1e-8 * s, 'an intersection is missing in the lines')
    d, _ = cKDTree(pts).query(got)
    require(d.max() <= 1e-8 * s, 'a point of the lines is not an intersection')
    # assertion of closed boundaries
    res = outcome(lambda: MeshClipper(mk(V, F), plane=Plane(n, c), assert_closed_boundaries=True))
    if ch[1]:
        require(res[0] == 'exc' and res[1] == 'RuntimeError', 'an open intersection curve is not refused: %s', res[0])
    else:
        require(res[0] == 'ok', 'closed boundaries are refused: %s', res[1])
    ctx.label('open lines:%d' % min(3, ch[1]), 'closed:%d' % min(3, ch[0]))
    ctx.nontrivial(ch[1] > 0)


def net_of(pairs):
    count = {}
    for a, b in pairs:
        count[(a, b)] = count.get((a, b), 0) + 1
    return dict(((a, b), k - count.get((b, a), 0)) for (a, b), k in count.items() if k > count.get((b, a), 0))


@harness
def flags(x):
    """Faces around a vertical line: vertices, faces"""
    V, F = [], []
    pole = {}

    def at(z, shared):
        if not shared or z not in pole:
            pole[z] = len(V)
            V.append([0., 0., z])
            return len(V) - 1
        return pole[z]
    for i, (kind, flip, r, h, k) in enumerate(x['flags']):
        t = 2 * np.pi * (i + .3) / len(x['flags'])
        d = np.array([np.cos(t), np.sin(t), 0.]) * r

        def out(a, z):
            V.append(list(a * d + [0., 0., z]))
            return len(V) - 1
        if kind == 'diamond':
            # one vertex on the line
            f = [[at(0., True), out(.5, -h), out(1., x['tip'] * h), out(.5, h)]]
        elif kind == 'rect':
            f = [[at(-1., True), out(1., -h), out(1., h), at(1., True)]]
        elif kind == 'two':
            a, b = at(0., True), out(1., 0.)
            f = [[at(-1., True), out(1., -h), b, a], [a, b, out(1., h), at(1., True)]]
        elif kind == 'below':
            f = [[at(-1., True), out(1., -h), out(1., 0.), at(0., True)]]
        elif kind == 'above':
            f = [[at(0., True), out(1., 0.), out(1., h), at(1., True)]]
        else:
            # triangle, one vertex on the line
            a = at(0., True)
            f = [[a, out(1., -h), out(1., h), a]]
        for g in f:
            g = g[::-1] if flip else g
            if len(set(g)) == 3:
                g = [j for n, j in enumerate(g) if j not in g[:n]]
                g = g[k % 3:] + g[:k % 3]
                F.append(g + g[:1])
            else:
                F.append(g[k % 4:] + g[:k % 4])
    return np.array(V), np.array(F)


def check_lines(case, ctx):
    """Any number of lines through the same vertices, in any direction; planes that go exactly through vertices"""
    if 'flags' in case:
        V, F = flags(case)
        R = gen.rotmat(case['rot'])
        n, c = R.dot([0., 0., 1.]), case['c']
        V = V.dot(R.T)
    else:
        V, F = gen.build(case['mesh'])
        n, c = clip.resolve(case['plane'], V)
    cut = clip.Cut(V, F, n, c, 1e-3)
    if cut.tie or not (cut.generic or cut.exact) or not cut.separated or not cut.crossing:
        raise Reject('vicinity')
    crossed = any(cut.below[p].any() and not cut.below[p].all() for p in geom.polys_of(F))
    if not crossed:
        raise Reject('no face crosses the plane')
    s = cut.size
    clipper = MeshClipper(mk(V, F), plane=Plane(n, c))
    (ids, loops), (oids, lines) = loops_of(clipper)
    for P in loops + lines:
        require(np.abs(P.dot(n) - c).max() <= 1e-10 * s, 'a line is away from the plane')
    require(all(l[0] == l[-1] and len(l) > 2 for l in ids) and all(l[0] != l[-1] for l in oids), 'closed / open lines')
    require(all(len(set(l)) == len(l) - 1 for l in ids) and all(len(set(l)) == len(l) for l in oids),
            'a line runs twice through a vertex')
    # the lines are the edges of the clipped mesh that are on the plane
    W, G = np.asarray(clipper.clipped_mesh.vertices), np.asarray(clipper.clipped_mesh.faces)
    cv = np.asarray(clipper.clipped_crown_mesh.vertices)
    la, lb = geom.vertex_classes([W, cv], 1e-9 * s)
    on = np.abs(W.dot(n) - c) <= 1e-10 * s
    edges = []
    for p in geom.polys_of(G):
        if on[p].all():
            continue
        edges += [(la[i], la[j]) for i, j in zip(p, p[1:] + p[:1]) if on[i] and on[j]]
    exp = net_of(edges)
    got = net_of([(lb[i], lb[j]) for l in ids + oids for i, j in zip(l, l[1:])])
    require(got == dict(((b, a), k) for (a, b), k in exp.items()) or got == exp,
            'the lines are not the edges of the clipped mesh that are on the plane: %d edges against %d', len(got), len(exp))
    # there are no more lines than needed
    excess = {}
    for (a, b), k in exp.items():
        excess[a] = excess.get(a, 0) + k
        excess[b] = excess.get(b, 0) - k
    nb = sum(k for k in excess.values() if k > 0)
    require(len(oids) == nb, '%d open lines, %d expected', len(oids), nb)
    res = outcome(lambda: MeshClipper(mk(V, F), plane=Plane(n, c), assert_closed_boundaries=True))
    if nb:
        require(res[0] == 'exc' and res[1] == 'RuntimeError', 'an open intersection curve is not refused: %s', res[0])
    else:
        require(res[0] == 'ok', 'closed boundaries are refused: %s', res[1])
    ctx.label('open lines:%d' % min(4, nb), 'closed:%d' % min(3, len(ids)), 'exact' if cut.on.any() else 'generic',
              'excess:%d' % max([0] + list(excess.values())))
    ctx.nontrivial(nb > 0)


def flags_st():
    return st.fixed_dictionaries({
        'flags': st.lists(st.tuples(st.sampled_from(['diamond', 'diamond', 'rect', 'two', 'below', 'above', 'triangle']),
                                    st.booleans(), st.sampled_from([1., 2.5]), st.sampled_from([.6, 1.7]),
                                    st.integers(0, 3)).map(list), min_size=1, max_size=6),
        'tip': st.sampled_from([0., 0., .3, -.2]), 'c': st.sampled_from([0., 0., .21, -.13]),
        'rot': st.one_of(st.just([0., 0., 0.]), st.tuples(gen.angle(), gen.angle(), gen.angle()).map(list))})


def view(clipper):
    def mesh(x):
        return np.array(x.vertices), np.array(x.faces)
    data = {}
    for k in ('clipped_mesh', 'lower_mesh', 'upper_mesh', 'crown_mesh', 'clipped_crown_mesh'):
        data[k] = mesh(getattr(clipper, k))
    data['closed'] = [list(map(int, l)) for l in clipper.closed_polygons]
    data['open'] = [list(map(int, l)) for l in clipper.open_lines]
    return data


def same(a, b, when):
    for k in a:
        if k in ('closed', 'open'):
            require(a[k] == b[k], '%s: %s lines differ from those of a new clipper', when, k)
        else:
            require(a[k][0].shape == b[k][0].shape and np.array_equal(a[k][0], b[k][0])
                    and np.array_equal(a[k][1], b[k][1]), '%s: the %s differs from the one of a new clipper', when, k)


def check_reuse(case, ctx):
    """A clipper whose plane and tolerance are changed gives the same thing as a new one"""
    V, F = gen.build(case['mesh'])
    m = mk(V, F)
    snap = snapshot(m)
    tol = 1e-3
    clipper = None
    nb = 0
    n = c = None
    flags = {'assert_closed_boundaries': False, 'verbose': False}
    for i, (kind, p, t) in enumerate(case['steps']):
        when = 'step %d (%s)' % (i, kind)
        if clipper is None or kind in ('plane', 'far'):
            n, c = clip.resolve(p, V)
            if kind == 'far' and clipper is not None:
                c += 1e3
            plane = Plane(n, c)
        if clipper is None:
            res = outcome(lambda: MeshClipper(m, plane=plane))
            ref = outcome(lambda: view(MeshClipper(mk(V, F), plane=Plane(n, c))))
            require(res[0] == ref[0], 'different outcomes')
            if res[0] == 'exc':
                continue
            clipper = res[1]
            got = outcome(lambda: view(clipper))
        else:
            if kind in flags:
                # takes effect when the plane or the tolerance are changed
                flags[kind] = t > 1e-3
                getattr(clipper, kind + ('_on' if flags[kind] else '_off'))()
                for k, v in flags.items():
                    require(bool(getattr(clipper, k)) == v, '%s: the flag %s is %s', when, k, getattr(clipper, k))
                got = outcome(lambda: (setattr(clipper, 'vicinity_tol', tol), view(clipper))[1])
            elif kind == 'tol':
                tol = t
                got = outcome(lambda: (setattr(clipper, 'vicinity_tol', tol), view(clipper))[1])
            elif kind == 'inplace' and t >= 1e-3:
                # same plane object, modified then set again
                q = clipper.plane
                q.c = q.c + t
                c = q.c
                got = outcome(lambda: (setattr(clipper, 'plane', q), view(clipper))[1])
            else:
                got = outcome(lambda: (setattr(clipper, 'plane', Plane(n, c)), view(clipper))[1])
            ref = outcome(lambda: view(MeshClipper(mk(V, F), plane=Plane(n, c), vicinity_tol=tol, **flags)))
        require(got[0] == ref[0], '%s: %s, but %s with a new clipper', when, got[0], ref[0])
        require_unchanged(m, snap, 'source mesh')
        if got[0] == 'ok':
            same(got[1], ref[1], when)
            require(clipper.vicinity_tol == tol, 'vicinity tolerance')
            require(clipper.source_mesh is m, 'source mesh')
            nb += 1
        else:
            ctx.label('step refused')
        ctx.label(kind)
    ctx.nontrivial(nb > 1)


def check_isolation(case, ctx):
    """Clippers share nothing: neither their planes, nor their results with the source mesh"""
    V, F = gen.build(case['mesh'])
    z = V[:, 2]
    V = V - [0, 0, z.min() + case['frac'] * (z.max() - z.min())]
    ref = outcome(lambda: view(MeshClipper(mk(V, F))))
    m = mk(V, F)
    snap = snapshot(m)
    a = outcome(lambda: MeshClipper(m))
    require(a[0] == ref[0], 'different outcomes')
    if a[0] == 'exc':
        raise Reject('no crossing')
    a = a[1]
    same(view(a), ref[1], 'default plane')
    plane = a.plane
    if case['how'] == 'c':
        plane.c = 0.1 * (z.max() - z.min())
    elif case['how'] == 'rotate':
        plane.rotate_normal(.3, .2)
    else:
        plane.flip_normal()
    # another clipper with the default plane is not concerned
    b = MeshClipper(mk(V, F))
    same(view(b), ref[1], 'default plane of another clipper')
    # modifying what is returned changes neither the source nor what a new clipper gives
    for k in ('clipped_mesh', 'lower_mesh', 'upper_mesh', 'crown_mesh', 'clipped_crown_mesh'):
        x = getattr(b, k)
        if x.nb_vertices:
            x.translate([1., 2., 3.])
            x.vertices[:] = 0.
            x.faces[:] = 0
    b2 = MeshClipper(m)
    require_unchanged(m, snap, 'source mesh')
    same(view(b2), ref[1], 'after modification of the results of another clipper')
    clipped = view(b2)
    # modifying the source afterwards does not alter results already obtained
    m.translate([5., 0., 0.])
    m.vertices[:] = 0.
    now = view(b2)
    same(now, clipped, 'after modification of the source mesh')
    ctx.nontrivial(True)
    ctx.label(case['how'])


def step_st():
    return st.tuples(st.sampled_from(['plane', 'plane', 'tol', 'far', 'inplace', 'assert_closed_boundaries',
                                       'verbose']), clip.plane_st(),
                     st.sampled_from([1e-3, 1e-8, 1e-2, .05, .2])).map(list)


PROPERTY = Property('C09', [
    Sub('polygons', lambda: st.fixed_dictionaries({
        'mesh': gen.closed_mesh(max_bodies=3, big=True, smax=8.), 'plane': clip.plane_st(),
        'tol': st.sampled_from([1e-3, 1e-3, 1e-3, 1e-6, 5e-3]), 'strict': st.booleans(), 'verbose': st.booleans()}),
        check_polygons, quick=2400),
    Sub('flat', lambda: st.fixed_dictionaries({
        'mesh': gen.closed_mesh(smax=8.), 'plane': clip.flat_plane_st(),
        'tol': st.sampled_from([1e-3, 1e-3, 5e-3]), 'strict': st.booleans(), 'verbose': st.booleans()}),
        check_polygons, quick=1000),
    Sub('touching', lambda: st.fixed_dictionaries({
        'mesh': gen.closed_mesh(kinds=['voxels'], max_bodies=2, smax=6.), 'plane': clip.plane_st(),
        'tol': st.sampled_from([1e-3, 1e-3, 1e-6]), 'strict': st.booleans(), 'verbose': st.booleans()}),
        check_polygons, quick=800),
    Sub('open', lambda: st.fixed_dictionaries({
        'mesh': gen.open_mesh(max_bodies=2, smax=8.), 'plane': clip.plane_st()}), check_open, quick=1200),
    Sub('lines', lambda: st.fixed_dictionaries({
        'mesh': gen.open_mesh(max_bodies=2, smax=8.), 'plane': clip.plane_st()}), check_lines, quick=800),
    Sub('flags', flags_st, check_lines, quick=1200),
    Sub('reuse', lambda: st.fixed_dictionaries({
        'mesh': gen.any_mesh(max_bodies=2, smax=8.), 'steps': st.lists(step_st(), min_size=2, max_size=5)}),
        check_reuse, quick=600),
    Sub('isolation', lambda: st.fixed_dictionaries({
        'mesh': gen.any_mesh(smax=8.), 'frac': st.integers(5, 95).map(lambda k: k / 100.),
        'how': st.sampled_from(['c', 'rotate', 'flip'])}), check_isolation, quick=500),
    Sub('large', lambda: st.fixed_dictionaries({
        'mesh': gen.large_mesh(), 'plane': clip.plane_st(),
        'tol': st.sampled_from([1e-3, 1e-6]), 'strict': st.booleans(), 'verbose': st.booleans()}),
        check_polygons, quick=60),
    Sub('magnitude', lambda: gen.with_magnitude(st.fixed_dictionaries({
        'mesh': gen.closed_mesh(max_bodies=2, smax=8.), 'plane': clip.plane_st(),
        'tol': st.sampled_from([1e-3, 1e-6]), 'strict': st.booleans(), 'verbose': st.booleans()}), magnitudes=(10., 100.)),
        check_polygons, quick=300),
], rule='Generated meshes and planes; non-trivial: at least one polygon / one open line / two successful clippings by the '
        'same clipper.', assumptions=['quadrangles are flat and convex'])
