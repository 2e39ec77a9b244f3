"""C08: the clipped mesh is exactly the part of the surface lying under the plane"""
import numpy as np
from hypothesis import strategies as st

import clip
import gen
import geom
from core import Property, Sub, Reject, Violation, harness, require
from sut import Plane, mk, mesh_of, snapshot, require_unchanged
from meshmagick.mesh_clipper import MeshClipper


def clipper_of(case, m, n, c, tol):
    kw = {}
    if case.get('strict'):
        kw['assert_closed_boundaries'] = True
    if tol != 1e-3:
        kw['vicinity_tol'] = tol
    # the plane may be given by a non unit normal
    s = case.get('nscale', 1.)
    return MeshClipper(m, plane=Plane(normal=n * s, scalar=c), **kw)


def require_raises(case, m, n, c, cut, tol):
    try:
        clipper_of(case, m, n, c, tol)
    except RuntimeError as exc:
        side = 'below' if cut.below.all() else 'above'
        require(len(exc.args) > 1 and exc.args[1] == side, "a mesh lying %s the plane is not reported as such: %s",
                side, exc.args)
        return
    raise Violation('a mesh that does not cross the plane is clipped without notice')


def check(case, ctx):
    V, F = gen.build(case['mesh'])
    n, c = clip.resolve(case['plane'], V, F)
    compare(case, ctx, V, F, n, c)
    ctx.label('mode:' + case['plane']['mode'], *gen.mesh_labels(case['mesh'], F))


def check_slab(case, ctx):
    """Prisms and frustums whose upper side is a quadrangle nearly parallel to the plane, close to it"""
    V, F, d = clip.slab(case)
    polys = geom.polys_of(F)
    compare(case, ctx, V, F, np.array([0., 0., 1.]), 0.)
    kinds = lambda p: ''.join('+' if d[i] > case['tol'] else '-' if d[i] < -case['tol'] else '0' for i in p)
    ctx.label(*set('around %s' % max(k[i:] + k[:i] for i in range(4)) for k in map(kinds, polys)
                   if len(k) == 4 and '-' in k and '0' in k and '+' in k))


def compare(case, ctx, V, F, n, c):
    m = mk(V, F)
    tol = case['tol']
    cut = clip.Cut(V, F, n, c, tol)
    if cut.tie:
        raise Reject('tie')
    if case['warm']:
        m.faces_areas, m.get_surface_integrals(), m.vv, m.is_mesh_closed()
    snap = snapshot(m)
    if not cut.crossing:
        ctx.label('no crossing')
        require_raises(case, m, n, c, cut, tol)
        require_unchanged(m, snap, 'source mesh')
        return
    clipper = clipper_of(case, m, n, c, tol)
    require_unchanged(m, snap, 'source mesh')
    out = clipper.clipped_mesh
    W, G = np.asarray(out.vertices), np.asarray(out.faces)
    geom.check_faces_valid(W, G, 'clipped mesh')
    s = cut.size
    require(np.all(np.isfinite(W)), 'not finite vertices')

    # nothing is left above the plane, nothing new appears anywhere else
    if len(W):
        top = float((W.dot(n) - c).max())
        require(top <= (tol if not cut.exact else 0.) + 1.74e-5 * (not cut.separated) + 1e-10 * s,
                'a vertex of the clipped mesh is %.3g above the plane', top)

    # surface moments
    T = geom.soup(W, G)
    a0, x0, q0 = geom.surface_moments(cut.soup)
    a1, x1, q1 = geom.surface_moments(T)
    ta = cut.tol_area()
    geom.close(a1, a0, ta, 'area of the clipped mesh')
    geom.close(x1, x0, ta * s * 4, 'first moments of the surface of the clipped mesh')
    geom.close(q1, q0, ta * s * s * 12, 'second moments of the surface of the clipped mesh')
    # oriented area
    geom.close(geom.tri_vec(T).sum(axis=0), geom.tri_vec(cut.soup).sum(axis=0), ta, 'oriented area of the clipped mesh')

    # volume delimited by the plane (cones whose apex is on the plane)
    apex = c * n
    tv = cut.tol_volume()
    va, v1, v2 = geom.volume_moments(cut.soup, apex)
    wa, w1, w2 = geom.volume_moments(T, apex)
    geom.close(wa, va, tv, 'volume under the plane')
    geom.close(w1, v1, tv * s * 4, 'first moments of the volume under the plane')
    geom.close(w2, v2, tv * s * s * 12, 'second moments of the volume under the plane')

    # no crack: the edges that belong to one face only are those of the source or lie on the plane
    if cut.separated:
        lim = 1e-9 * s + (0. if cut.exact else tol)
        und = geom.undirected(F)
        closed = all(len(f) % 2 == 0 for f in und.values())
        simple = all(len(f) <= 2 for f in und.values())
        em = geom.undirected(G)
        if closed:
            dW = np.abs(W.dot(n) - c)
            for (i, j), faces in em.items():
                if i == j:
                    raise Violation('a face of the clipped mesh has an edge of null length')
                require(len(faces) <= 2 or not cut.generic or not simple, 'an edge of the clipped mesh has %d faces', len(faces))
                if len(faces) % 2:
                    require(dW[i] <= lim and dW[j] <= lim,
                            'crack in the clipped mesh: an edge that is not on the plane has one face only')
            require(geom.consistent(G) or not cut.generic or not simple, 'the faces of the clipped mesh are not consistently oriented')
            ctx.label('no crack')

    # partition of the source faces
    polys = geom.polys_of(F)
    low = [i for i, p in enumerate(polys) if cut.below[p].all()]
    up = [i for i, p in enumerate(polys) if cut.above[p].all()]
    mid = sorted(set(range(len(F))) - set(low) - set(up))
    for ids, part, name in ((low, clipper.lower_mesh, 'lower'), (up, clipper.upper_mesh, 'upper'),
                            (mid, clipper.crown_mesh, 'crown')):
        require(part.nb_faces == len(ids), '%s mesh: %d faces, %d expected', name, part.nb_faces, len(ids))
        if ids:
            geom.require_same_surface(part.vertices, part.faces, V, F[ids], 1e-12 * s, name + ' mesh')
    # the clipped mesh is made of the lower mesh and of the clipped crown
    cr = clipper.clipped_crown_mesh
    require(out.nb_faces == len(low) + cr.nb_faces, 'number of faces of the clipped mesh')
    for fi in range(cr.nb_faces):
        require(np.linalg.norm(cr.faces_normals[fi]) < 1.5 or True, '')
    ctx.label('generic' if cut.generic else 'exact on' if cut.exact else 'vicinity',
              'faces>50' if len(F) > 50 else 'faces<=50')
    if cut.exact and not cut.generic:
        ctx.label('on vertices %s' % min(3, int(cut.on.sum())))
    ctx.nontrivial(len(mid) > 0 and len(cut.soup) > 0)


def check_both(case, ctx):
    """Clipping by both sides of a plane splits the surface and the volume in two parts"""
    V, F = gen.build(case['mesh'])
    n, c = clip.resolve(case['plane'], V)
    tol = case['tol']
    cut = clip.Cut(V, F, n, c, tol)
    if cut.tie:
        raise Reject('tie')
    rot = gen.rotmat(case['rot'])
    t = np.array(case['shift'])
    V2, n2 = V.dot(rot.T) + t, rot.dot(n)
    c2 = c + float(n2.dot(t))
    cut2 = clip.Cut(V2, F, -n2, -c2, tol)
    if cut2.tie or not cut.crossing or not cut2.crossing:
        raise Reject('does not cross')
    if cut.exact != cut2.exact or not np.array_equal(cut.on, cut2.on):
        raise Reject('tie')
    m1, m2 = mk(V, F), mk(V2, F)
    a = MeshClipper(m1, plane=Plane(n, c), vicinity_tol=tol).clipped_mesh
    b = MeshClipper(m2, plane=Plane(-n2, -c2), vicinity_tol=tol).clipped_mesh
    va = geom.volume_moments(geom.soup(a.vertices, a.faces), c * n)[0]
    vb = geom.volume_moments(geom.soup(b.vertices, b.faces), c2 * n2)[0]
    full = geom.volume_moments(geom.soup(V, F), c * n)[0]
    geom.close(va + vb, full, 2 * cut.tol_volume() + 2 * cut2.tol_volume(), 'volumes of both sides of the plane')
    lying = [i for i, p in enumerate(geom.polys_of(F)) if cut.on[p].all()]
    area = cut.area - np.linalg.norm(geom.tri_vec(geom.soup(V, F[lying])), axis=1).sum() if lying else cut.area
    if cut.exact and cut2.exact:
        geom.close(a.faces_areas.sum() + b.faces_areas.sum(), area, cut.tol_area() + cut2.tol_area(),
                   'areas of both sides of the plane')
    ctx.nontrivial(True)
    ctx.label('generic' if cut.generic else 'exact on' if cut.exact else 'vicinity')


@harness
def warped(case):
    """A closed mesh whose quadrangles are warped, and a plane"""
    V, F = gen.build(case['mesh'])
    V = V + np.random.RandomState(case['seed']).uniform(-1., 1., V.shape) * case['warp'] * geom.extent(V)
    p = case['plane']
    if p['mode'] != 'center':
        return (V, F) + clip.resolve(p, V)
    quads = [q for q in geom.polys_of(F) if len(q) == 4] or [q for q in geom.polys_of(F)]
    q = V[quads[p['face'] % len(quads)]]
    n = np.cross(q[2] - q[0], q[-1] - q[1])
    if np.linalg.norm(n) < 1e-6:
        raise Reject('null face')
    n /= np.linalg.norm(n) * (-1. if p['flip'] else 1.)
    # through the middle of the face, or (nearly) through one of its vertices
    c = q.mean(axis=0).dot(n) if p['through'] < 0 else q[p['through'] % len(q)].dot(n)
    return V, F, n, float(c + p['delta'])


def check_warped(case, ctx):
    """Quadrangles of real hulls are not flat: vertices of a face that are under the plane may not be next to one another.
    The clipped surface lies between both triangulations of each face"""
    V, F, n, c = warped(case)
    tol = case['tol']
    T02 = np.array([t + t[:1] for p in geom.polys_of(F) for t in ([p] if len(p) == 3 else [p[:3], [p[0], p[2], p[3]]])])
    cut = clip.Cut(V, T02, n, c, tol)
    if cut.tie or not cut.separated:
        raise Reject('tie')
    m = mk(V, F)
    snap = snapshot(m)
    if not cut.crossing:
        require_raises(case, m, n, c, cut, tol)
        return
    clipper = MeshClipper(m, plane=Plane(n, c), vicinity_tol=tol, assert_closed_boundaries=case['strict'])
    require_unchanged(m, snap, 'source mesh')
    s = cut.size
    out, crown = clipper.clipped_mesh, clipper.clipped_crown_mesh
    W, G = np.asarray(out.vertices), np.asarray(out.faces)
    geom.check_faces_valid(W, G, 'clipped mesh')
    require(np.all(np.isfinite(W)), 'not finite vertices')
    if len(W):
        top = float((W.dot(n) - c).max())
        require(top <= (0. if cut.exact else tol) + 1e-10 * s, 'a vertex of the clipped mesh is %.3g above the plane', top)
    dW = np.abs(W.dot(n) - c)
    lim = 1e-9 * s + (0. if cut.exact else tol)
    for (i, j), faces in geom.undirected(G).items():
        require(i != j, 'a face of the clipped mesh has an edge of null length')
        if len(faces) % 2:
            require(dW[i] <= lim and dW[j] <= lim, 'crack in the clipped mesh: an edge that is not on the plane has '
                    'one face only')
    require(clipper.nb_open_lines == 0, '%d open lines in the section of a closed mesh', clipper.nb_open_lines)
    polys = geom.polys_of(F)
    mid = [p for p in polys if not cut.below[p].all() and not cut.above[p].all()]
    if cut.exact:
        T = geom.soup(W, G)
        tets = sum(abs(np.linalg.det(V[p[1:]] - V[p[0]])) / 6. for p in mid if len(p) == 4)
        apex = c * n
        va, v1, _ = geom.volume_moments(cut.soup, apex)
        wa, w1, _ = geom.volume_moments(T, apex)
        geom.close(wa, va, cut.tol_volume() + tets, 'volume under the plane')
        geom.close(w1, v1, (cut.tol_volume() + tets) * s * 4, 'first moments of the volume under the plane')
        proj = np.eye(3) - np.outer(n, n)
        vec = lambda t: proj.dot(geom.tri_vec(t).sum(axis=0))
        geom.close(vec(T), vec(cut.soup), cut.tol_area(), 'oriented area of the clipped mesh')
        # the boundary of what is left is made of the polygons
        dc = np.abs(crown.vertices.dot(n) - c)
        em = geom.edge_map(np.asarray(crown.faces))
        free = sorted((int(i), int(j)) for (i, j) in em if dc[i] <= lim and dc[j] <= lim and (j, i) not in em)
        edges = sorted((int(j), int(i)) for poly in clipper.closed_polygons for i, j in zip(poly[:-1], poly[1:]))
        if cut.generic:
            same = free == sorted((j, i) for i, j in edges) or free == edges
            require(same, 'the closed polygons are not the boundary of the clipped mesh')
    saddle = False
    for p in mid:
        if len(p) == 4:
            g = np.where(cut.above[p], 1, 0) - np.where(cut.below[p], 1, 0)
            if min(g[0], g[2]) > max(g[1], g[3]) or min(g[1], g[3]) > max(g[0], g[2]):
                saddle = True
                k = ''.join('-0+'[x + 1] for x in g)
                ctx.label('saddle %s' % max(k[i:] + k[:i] for i in range(4)))
    ctx.label('generic' if cut.generic else 'exact on' if cut.exact else 'vicinity', 'mode:' + case['plane']['mode'])
    ctx.nontrivial(len(mid) > 0 and any(len(p) == 4 for p in mid))


def warped_st():
    return st.fixed_dictionaries({
        'mesh': gen.closed_mesh(max_bodies=1, smax=8.), 'warp': st.sampled_from([.003, .02, .1]),
        'seed': st.integers(0, 10 ** 6), 'tol': tol_st(), 'strict': st.booleans(),
        'plane': st.one_of(clip.plane_st(), st.fixed_dictionaries({
            'mode': st.just('center'), 'face': st.integers(0, 500), 'flip': st.booleans(),
            'through': st.integers(-1, 3), 'delta': st.sampled_from([0., 0., 3e-4, -3e-4, 2e-3, -2e-3])}))})


def tol_st():
    return st.one_of(st.just(1e-3), st.just(1e-3), st.sampled_from([0., 1e-8, 1e-6, 1e-4, 5e-3, 1e-2]))


def case_st(mesh, plane=None):
    return st.fixed_dictionaries({'mesh': mesh, 'plane': clip.plane_st() if plane is None else plane, 'tol': tol_st(),
                                  'warm': st.booleans(), 'nscale': st.sampled_from([1., 1., 3., .01])})


PROPERTY = Property('C08', [
    Sub('closed', lambda: case_st(gen.closed_mesh(max_bodies=3, big=True, smax=8.)), check, quick=2400),
    Sub('open', lambda: case_st(gen.open_mesh(max_bodies=2, smax=8.)), check, quick=800),
    Sub('touching', lambda: case_st(gen.closed_mesh(kinds=['voxels'], max_bodies=2, smax=6.)).map(lambda c: dict(c, warm=False)), check,
        quick=600),
    Sub('flat', lambda: case_st(gen.closed_mesh(max_bodies=1, smax=8.), clip.flat_plane_st()), check, quick=1200),
    Sub('slab', clip.slab_st, check_slab, quick=1200),
    Sub('warped', warped_st, check_warped, quick=1200),
    Sub('both_sides', lambda: st.fixed_dictionaries({
        'mesh': gen.closed_mesh(max_bodies=2, smax=8.), 'plane': clip.plane_st(), 'tol': tol_st(),
        'rot': st.tuples(gen.angle(), gen.angle(False), gen.angle()).map(list), 'shift': gen.vec3(-9, 9)}),
        check_both, quick=800),
    Sub('large', lambda: case_st(gen.large_mesh(False)), check, quick=60),
    Sub('magnitude', lambda: gen.with_magnitude(case_st(gen.any_mesh(max_bodies=2, smax=8.)), magnitudes=(.05, 10., 100.)), check,
        quick=300),
], rule='A case is a generated mesh and a plane (anywhere, through a vertex, or within a few vicinity tolerances of '
        'it); non-trivial: some faces cross or touch the plane and something is left.',
    assumptions=['quadrangles are flat and convex, except in warped where bounds given by both of their triangulations are required'])
