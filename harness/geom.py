"""Independent geometric oracles (no code under test in here)."""
import math
from collections import defaultdict

import numpy as np

from core import harness, require, Violation, HarnessError


def polys_of(F):
    """List of polygons (3 or 4 indices) of a (nf x 4) connectivity array, first == last for triangles"""
    return [list(map(int, f[:3])) if f[0] == f[3] else list(map(int, f)) for f in np.asarray(F)]


@harness
def soup(V, F):
    """Triangle soup (n x 3 x 3)"""
    V = np.asarray(V, dtype=float)
    tri = []
    for p in polys_of(F):
        for i in range(1, len(p) - 1):
            tri.append((p[0], p[i], p[i + 1]))
    if not tri:
        return np.zeros((0, 3, 3))
    return V[np.array(tri)]


@harness
def polygon_soup(V, F):
    """List of arrays of polygon coordinates"""
    V = np.asarray(V, dtype=float)
    return [V[p] for p in polys_of(F)]


def tri_vec(T):
    return 0.5 * np.cross(T[:, 1] - T[:, 0], T[:, 2] - T[:, 0])


# Degree-5 quadrature on triangles (Radon, 7 points)
_s15 = math.sqrt(15.)
_Q = [(1. / 3, 1. / 3, 9. / 40)]
for _a, _w in (((6 - _s15) / 21, (155 - _s15) / 1200), ((6 + _s15) / 21, (155 + _s15) / 1200)):
    _Q += [(_a, _a, _w), (1 - 2 * _a, _a, _w), (_a, 1 - 2 * _a, _w)]


def tri_integrate(T, func):
    """Per triangle integral of func(points (n x 3)) -> (n,) or (n, k); exact up to degree 5"""
    area = np.linalg.norm(tri_vec(T), axis=1)
    res = 0.
    for a, b, w in _Q:
        p = T[:, 0] * (1 - a - b) + T[:, 1] * a + T[:, 2] * b
        val = np.asarray(func(p))
        res = res + w * (val * (area if val.ndim == 1 else area[:, None]))
    return res


@harness
def surface_moments(T):
    """area, integral of x (3), integral of x x^T (3x3) on the surface"""
    area = np.linalg.norm(tri_vec(T), axis=1).sum()
    m1 = tri_integrate(T, lambda p: p).sum(axis=0) if len(T) else np.zeros(3)
    m2 = np.zeros((3, 3))
    if len(T):
        for i in range(3):
            for j in range(3):
                m2[i, j] = tri_integrate(T, lambda p: p[:, i] * p[:, j]).sum()
    return area, m1, m2


@harness
def volume_moments(T, apex=(0., 0., 0.)):
    """volume, integral of x (3), integral of x x^T (3x3) on the signed cones joining an apex to the triangles"""
    o = np.asarray(apex, dtype=float)
    A, B, C = T[:, 0] - o, T[:, 1] - o, T[:, 2] - o
    v = np.einsum('ij,ij->i', A, np.cross(B, C)) / 6.
    s = A + B + C
    vol = v.sum()
    m1 = (v[:, None] * s).sum(axis=0) / 4.
    m2 = np.zeros((3, 3))
    for i in range(3):
        for j in range(3):
            m2[i, j] = (v / 20. * (A[:, i] * A[:, j] + B[:, i] * B[:, j] + C[:, i] * C[:, j] + s[:, i] * s[:, j])).sum()
    # shifting back
    m2 = m2 + np.outer(o, m1) + np.outer(m1, o) + vol * np.outer(o, o)
    m1 = m1 + vol * o
    return vol, m1, m2


def inertia_from_m2(m2):
    """Inertia matrix from the second moments"""
    return np.trace(m2) * np.eye(3) - m2


def size_of(V):
    V = np.asarray(V, dtype=float)
    if len(V) == 0:
        return 1.
    return max(float(np.abs(V).max()), float((V.max(axis=0) - V.min(axis=0)).max()), 1e-300)


def extent(V):
    V = np.asarray(V, dtype=float)
    return float(np.linalg.norm(V.max(axis=0) - V.min(axis=0)))


# --------------------------------------------------------------------------------------------------------------------
# Clipping (Sutherland-Hodgman on convex polygons), part n.x <= c
# --------------------------------------------------------------------------------------------------------------------

def clip_polygon(P, d):
    """Part of a convex polygon whose (signed) distances d are negative"""
    out = []
    m = len(P)
    for i in range(m):
        j = (i + 1) % m
        if d[i] <= 0:
            out.append(P[i])
        if (d[i] < 0 < d[j]) or (d[j] < 0 < d[i]):
            t = d[i] / (d[i] - d[j])
            out.append(P[i] + t * (P[j] - P[i]))
    return np.array(out) if len(out) >= 3 else None


@harness
def clip_soup_d(polys, dists):
    """Triangle soup of the part below the plane of convex polygons, given the distances of their vertices"""
    tri = []
    for P, d in zip(polys, dists):
        Q = clip_polygon(P, d)
        if Q is not None:
            for i in range(1, len(Q) - 1):
                tri.append((Q[0], Q[i], Q[i + 1]))
    return np.array(tri) if tri else np.zeros((0, 3, 3))


# --------------------------------------------------------------------------------------------------------------------
# Topology
# --------------------------------------------------------------------------------------------------------------------

@harness
def edge_map(F):
    """(a, b) directed edge -> list of faces"""
    out = defaultdict(list)
    for i, p in enumerate(polys_of(F)):
        for a, b in zip(p, p[1:] + p[:1]):
            out[(a, b)].append(i)
    return out


@harness
def undirected(F):
    out = defaultdict(list)
    for i, p in enumerate(polys_of(F)):
        for a, b in zip(p, p[1:] + p[:1]):
            out[(min(a, b), max(a, b))].append(i)
    return out


def is_closed(F):
    return all(len(f) == 2 for f in undirected(F).values())


def consistent(F):
    """Every shared edge is run through in opposite directions by its two faces"""
    return all(len(f) == 1 for f in edge_map(F).values())


def components(F):
    """Face ids of the edge-connected components"""
    nf = len(F)
    parent = list(range(nf))

    def find(i):
        while parent[i] != i:
            parent[i] = parent[parent[i]]
            i = parent[i]
        return i
    for faces in undirected(F).values():
        for f in faces[1:]:
            parent[find(f)] = find(faces[0])
    comp = defaultdict(list)
    for i in range(nf):
        comp[find(i)].append(i)
    return list(comp.values())


# --------------------------------------------------------------------------------------------------------------------
# Comparing surfaces independently of the numbering
# --------------------------------------------------------------------------------------------------------------------

def close(a, b, tol, msg, *args):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        raise Violation((msg % args if args else msg) + ': shapes %s and %s' % (a.shape, b.shape))
    if a.size == 0:
        return
    if not np.all(np.isfinite(a)):
        raise Violation((msg % args if args else msg) + ': not finite: %s' % (a,))
    err = float(np.abs(a - b).max())
    if not err <= tol:
        raise Violation((msg % args if args else msg) + ': got %s, expected %s (difference %.3g > %.3g)'
                        % (short(a), short(b), err, tol))


def short(a):
    s = np.array2string(np.asarray(a), threshold=24, precision=10)
    return s if len(s) < 400 else s[:400] + '...'


def vertex_classes(arrays, tol):
    """Numbers points that agree within tol the same way. Returns a list of index arrays (cell snapping with merge)"""
    pts = np.concatenate([np.asarray(a, dtype=float).reshape(-1, 3) for a in arrays])
    n = len(pts)
    if n == 0:
        return [np.zeros(0, dtype=int) for _ in arrays]
    from scipy.spatial import cKDTree
    tree = cKDTree(pts)
    parent = np.arange(n)

    def find(i):
        while parent[i] != i:
            parent[i] = parent[parent[i]]
            i = parent[i]
        return i
    for i, j in sorted(tree.query_pairs(tol)):
        a, b = find(i), find(j)
        if a != b:
            parent[max(a, b)] = min(a, b)
    lab = np.array([find(i) for i in range(n)])
    out, off = [], 0
    for a in arrays:
        k = np.asarray(a).reshape(-1, 3).shape[0]
        out.append(lab[off:off + k])
        off += k
    return out


def canon_cycle(ids):
    """Smallest rotation of a cycle (orientation kept)"""
    ids = list(map(int, ids))
    return min(tuple(ids[i:] + ids[:i]) for i in range(len(ids)))


def canon_unoriented(ids):
    return min(canon_cycle(ids), canon_cycle(list(ids)[::-1]))


def face_multiset(F, lab, oriented=True):
    """Sorted list of canonical faces of a connectivity array in terms of labels of the vertices"""
    can = canon_cycle if oriented else canon_unoriented
    return sorted(can([lab[i] for i in p]) for p in polys_of(F))


def require_same_surface(V1, F1, V2, F2, tol, msg, oriented=True):
    """Both meshes are made of the same faces (as sets of oriented polygons of the space)"""
    l1, l2 = vertex_classes([V1, V2], tol)
    a = face_multiset(F1, l1, oriented)
    b = face_multiset(F2, l2, oriented)
    if a != b:
        from collections import Counter
        ca, cb = Counter(a), Counter(b)
        more, less = list((ca - cb).elements()), list((cb - ca).elements())
        raise Violation('%s: faces differ, %d in excess, %d missing (%d / %d faces)' % (msg, len(more), len(less),
                                                                                       len(a), len(b)))


def check_faces_valid(V, F, msg):
    F = np.asarray(F)
    V = np.asarray(V)
    require(V.ndim == 2 and V.shape[1] == 3, '%s: vertices have shape %s', msg, V.shape)
    require(F.ndim == 2 and F.shape[1] == 4, '%s: faces have shape %s', msg, F.shape)
    if F.size:
        require(F.min() >= 0 and F.max() < len(V), '%s: vertex ids out of range [%s, %s] for %d vertices', msg,
                F.min(), F.max(), len(V))
