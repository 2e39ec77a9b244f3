"""C03: geometric quantities (faces, volume, inertias, boxes, edges) are the integrals they stand for"""
import numpy as np
from hypothesis import strategies as st

import gen
import geom
from core import Property, Sub, require
from sut import mk, mesh_of, rbi_tuple


def face_oracle(V, F):
    areas, normals, centers = [], [], []
    for P in geom.polygon_soup(V, F):
        T = np.array([[P[0], P[i], P[i + 1]] for i in range(1, len(P) - 1)])
        vec = geom.tri_vec(T).sum(axis=0)
        a = np.linalg.norm(geom.tri_vec(T), axis=1)
        areas.append(a.sum())
        normals.append(vec / np.linalg.norm(vec))
        centers.append((a[:, None] * T.mean(axis=1)).sum(axis=0) / a.sum())
    return np.array(areas), np.array(normals), np.array(centers)


def check_faces(case, ctx):
    m, V, F = mesh_of(case)
    s = geom.size_of(V)
    a, n, c = face_oracle(V, F)
    geom.close(m.faces_areas, a, 1e-10 * s ** 2, 'areas')
    geom.close(m.faces_normals, n, 1e-7, 'normals')
    geom.close(m.faces_centers, c, 1e-9 * s, 'centers')
    tri = F[:, 0] == F[:, 3]
    require(sorted(map(int, m.triangles_ids)) == list(np.where(tri)[0]), 'ids of triangles')
    require(sorted(map(int, m.quadrangles_ids)) == list(np.where(~tri)[0]), 'ids of quadrangles')
    require(m.nb_triangles == tri.sum() and m.nb_quadrangles == (~tri).sum(), 'number of triangles and quadrangles')
    require(m.nb_faces == len(F) and m.nb_vertices == len(V), 'number of faces and vertices')
    polys = geom.polys_of(F)
    for i in range(len(F)):
        require(bool(m.is_triangle(i)) == bool(tri[i]), 'is_triangle(%d)', i)
        require(geom.canon_cycle(m.get_face(i)) == geom.canon_cycle(polys[i]), 'get_face(%d)', i)
    lo, hi = V.min(axis=0), V.max(axis=0)
    geom.close(m.axis_aligned_bbox, [lo[0], hi[0], lo[1], hi[1], lo[2], hi[2]], 1e-12 * s, 'bounding box')
    mid, d = (lo + hi) / 2, (hi - lo).max() / 2
    geom.close(m.squared_axis_aligned_bbox, [mid[0] - d, mid[0] + d, mid[1] - d, mid[1] + d, mid[2] - d, mid[2] + d],
               1e-11 * s, 'squared bounding box')
    lengths = [np.linalg.norm(V[p[i]] - V[p[i - 1]]) for p in polys for i in range(len(p))]
    geom.close([m.min_edge_length, m.max_edge_length, m.mean_edge_length],
               [min(lengths), max(lengths), np.mean(lengths)], 1e-10 * s, 'min, max, mean edge lengths')
    ctx.label(*gen.mesh_labels(case, F))
    ctx.nontrivial(True)


def check_volume(case, ctx):
    m, V, F = mesh_of(case['mesh'])
    s = geom.size_of(V)
    rho = case['rho']
    if case['inward']:
        F = F[:, ::-1]
        m.flip_normals()
    T = geom.soup(V, F)
    vol, m1, m2 = geom.volume_moments(T, apex=V.mean(axis=0))
    geom.close(m.volume, vol, 1e-10 * s ** 3, 'volume')
    inertia = m.eval_plain_mesh_inertias(rho_medium=rho)
    mass, cog, mat = rbi_tuple(inertia)
    geom.close(mass, rho * vol, 1e-10 * rho * s ** 3, 'mass of the filled mesh')
    geom.close(cog, m1 / vol, 1e-9 * s ** 4 / abs(vol), 'center of gravity of the filled mesh')
    geom.close(inertia.reduction_point, [0., 0., 0.], 0., 'reduction point of the inertia of the filled mesh')
    geom.close(mat / (rho * s ** 5), geom.inertia_from_m2(m2) / s ** 5, 1e-9, 'inertia matrix of the filled mesh')
    geom.close(np.array([inertia.xx, inertia.yy, inertia.zz]) / (rho * s ** 5),
               np.diag(geom.inertia_from_m2(m2)) / s ** 5, 1e-9, 'moments of inertia of the filled mesh')
    geom.close(np.array([inertia.yz, inertia.xz, inertia.xy]) / (rho * s ** 5),
               np.array([m2[1, 2], m2[0, 2], m2[0, 1]]) / s ** 5, 1e-9, 'products of inertia of the filled mesh')
    ctx.label(*gen.mesh_labels(case['mesh'], F))
    ctx.nontrivial(True)


def check_shell(case, ctx):
    m, V, F = mesh_of(case['mesh'])
    s = geom.size_of(V)
    rho, thick = case['rho'], case['thickness']
    area, m1, m2 = geom.surface_moments(geom.soup(V, F))
    inertia = m.eval_shell_mesh_inertias(rho_medium=rho, thickness=thick)
    mass, cog, mat = rbi_tuple(inertia)
    k = rho * thick
    geom.close(mass, k * area, 1e-10 * k * s ** 2, 'mass of the shell')
    geom.close(cog, m1 / area, 1e-9 * s ** 3 / area, 'center of gravity of the shell')
    geom.close(inertia.reduction_point, [0., 0., 0.], 0., 'reduction point of the inertia of the shell')
    geom.close(mat / (k * s ** 4), geom.inertia_from_m2(m2) / s ** 4, 1e-9, 'inertia matrix of the shell')
    geom.close(np.array([inertia.yz, inertia.xz, inertia.xy]) / (k * s ** 4),
               np.array([m2[1, 2], m2[0, 2], m2[0, 1]]) / s ** 4, 1e-9, 'products of inertia of the shell')
    ctx.label(*gen.mesh_labels(case['mesh'], F))
    ctx.nontrivial(True)


def check_defaults(case, ctx):
    """Default densities: salt water (filled), steel of 2 cm (shell)"""
    m, V, F = mesh_of(case['mesh'])
    area, _, _ = geom.surface_moments(geom.soup(V, F))
    vol = geom.volume_moments(geom.soup(V, F))[0]
    geom.close(m.eval_plain_mesh_inertias().mass, 1023. * vol, 1e-8 * 1023. * abs(vol), 'default mass, filled')
    geom.close(m.eval_shell_mesh_inertias().mass, 7850. * .02 * area, 1e-8 * 157. * area, 'default mass, shell')
    ctx.nontrivial(True)


def check_edges(case, ctx):
    """Lengths of edges, some vertices of the faces being distinct at the same place (or nearly)"""
    V, F = gen.build(case['mesh'])
    s = geom.size_of(V)
    F = F.copy()
    for i, a, b, d in case['pinch']:
        i %= len(F)
        k = 3 if F[i, 0] == F[i, 3] else 4
        V = np.vstack((V, V[F[i, a % k]] + d * s * np.array([1., 0., 0.])))
        j = (a % k + 1 + b % (k - 1)) % k
        F[i, j] = len(V) - 1
        if k == 3 and j == 0:
            F[i, 3] = F[i, 0]
    m = mk(V, F)
    lengths = np.array([np.linalg.norm(V[p[i]] - V[p[i - 1]]) for p in geom.polys_of(F) for i in range(len(p))])
    geom.close([m.min_edge_length, m.max_edge_length, m.mean_edge_length],
               [lengths.min(), lengths.max(), np.mean(lengths)], 1e-10 * s, 'min, max, mean edge lengths')
    if lengths.min() > 0.:
        geom.close(m.min_edge_length / lengths.min(), 1., 1e-2, 'min edge length / expected one')
    ctx.label('null edges' if lengths.min() == 0. else 'short edges')
    ctx.nontrivial(True)


RHO = gen.pos_num(.5, 9000.)


def check_large(case, ctx):
    check_faces(case['mesh'], ctx)
    check_volume(case, ctx)
    check_shell(case, ctx)


PROPERTY = Property('C03', [
    Sub('faces', lambda: gen.any_mesh(max_bodies=2), check_faces, quick=1500),
    Sub('filled', lambda: st.fixed_dictionaries({'mesh': gen.closed_mesh(max_bodies=2), 'rho': RHO,
                                                 'inward': st.sampled_from([False, False, True])}),
        check_volume, quick=1500),
    Sub('shell', lambda: st.fixed_dictionaries({'mesh': gen.any_mesh(max_bodies=2), 'rho': RHO,
                                                'thickness': gen.pos_num(.001, .1)}), check_shell, quick=1500),
    Sub('defaults', lambda: st.fixed_dictionaries({'mesh': gen.closed_mesh()}), check_defaults, quick=100),
    Sub('edges', lambda: st.fixed_dictionaries({
        'mesh': gen.any_mesh(max_bodies=2), 'pinch': st.lists(st.tuples(
            st.integers(0, 200), st.integers(0, 3), st.integers(0, 3), st.sampled_from([0., 0., 1e-3, 1e-6, 1e-9])).map(list),
            min_size=1, max_size=4)}), check_edges, quick=300),
    Sub('large', lambda: st.fixed_dictionaries({'mesh': gen.large_mesh(), 'rho': RHO, 'thickness': gen.pos_num(.001, .1),
                                                'inward': st.booleans()}), check_large, quick=160),
    Sub('touching', lambda: st.fixed_dictionaries({
        'mesh': gen.closed_mesh(kinds=['voxels'], max_bodies=2), 'rho': RHO, 'thickness': gen.pos_num(.001, .1),
        'inward': st.booleans()}), check_large, quick=200),
    Sub('magnitude', lambda: gen.with_magnitude(st.fixed_dictionaries({
        'mesh': gen.closed_mesh(max_bodies=2), 'rho': RHO, 'thickness': gen.pos_num(.001, .1),
        'inward': st.booleans()})), check_large, quick=500),
], rule='Generated surfaces (8 families of shapes, rotated, stretched, moved, triangles and quadrangles, renumbered, '
        'open or closed, several bodies); all are non-trivial (distinct ones are counted).',
    assumptions=['quadrangles are flat and convex'])
