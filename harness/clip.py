"""Clipping planes and oracles of the clipped surface (no code under test in here)"""
import numpy as np
from hypothesis import strategies as st

import gen
import geom
from core import harness, Reject


def normal_st():
    return st.one_of(
        st.sampled_from([[0., 0., 1.], [0., 0., 1.], [0., 0., -1.], [1., 0., 0.], [0., -1., 0.]]),
        gen.vec3(-1, 1).filter(lambda n: sum(x * x for x in n) > 0.01),
        # slightly tilted
        st.tuples(gen.num(-.2, .2), gen.num(-.2, .2), st.just(1.)).map(list))


def plane_st():
    """mode: 'frac' somewhere between the extreme vertices, 'vertex' through a vertex, 'near' close to a vertex"""
    return st.fixed_dictionaries({
        'normal': normal_st(),
        'mode': st.sampled_from(['frac', 'frac', 'frac', 'vertex', 'vertex', 'near']),
        'frac': st.one_of(st.integers(2, 98).map(lambda k: k / 100.), st.just(.5)),
        'vertex': st.integers(0, 200),
        'delta': st.tuples(st.sampled_from([2e-4, 5e-4, 9e-4, 1.1e-3, 2e-3, 5e-3]), st.sampled_from([-1., 1.])).map(
            lambda t: t[0] * t[1]),
    })


def flat_plane_st():
    """Planes that are nearly parallel to a face and close to it, within a few tolerances"""
    return st.fixed_dictionaries({
        'mode': st.just('face'), 'face': st.integers(0, 500), 'vertex': st.integers(0, 200),
        'tilt': st.tuples(st.integers(-8, 8), st.integers(-8, 8)).map(lambda t: [x / 2000. for x in t]),
        'flip': st.booleans(), 'delta': st.integers(-12, 12).map(lambda k: k * 1.7e-4)})


def slab_st():
    return st.fixed_dictionaries({
        'quad': st.sampled_from(['trapezium', 'trapezium', 'rectangle', 'kite', 'triangle']),
        'a': st.integers(0, 10).map(lambda k: k / 10.), 'w': st.sampled_from([.05, .2, .5]),
        'h': st.sampled_from([.5, 1., 3.]), 'L': st.sampled_from([1., 4.]), 'down': st.sampled_from([2., .7]),
        'base': st.sampled_from([1., 1.5]), 'turn': st.integers(0, 3), 'mirror': st.booleans(), 'top': st.booleans(),
        # distances of three vertices, in tolerances
        'd': st.one_of(st.tuples(*([st.sampled_from([-3.2, -1.6, -1.1, -.7, -.2, 0., .3, .8, 1.2, 1.7, 2.9])] * 3)).map(list),
                       st.tuples(st.sampled_from([-3.2, -1.6, -1.1]), st.sampled_from([1.2, 1.7, 2.9]), st.booleans(),
                                 st.sampled_from([-.4, -.2, 0., .3])).map(
                           lambda t: (list(t[:2]) if t[2] else [t[1], t[0]]) + [t[3]])),
        'tol': st.sampled_from([1e-3, 1e-3, 1e-4, 5e-3]), 'warm': st.booleans(), 'nscale': st.sampled_from([1., 3.]),
        'strict': st.booleans()})


@harness
def slab(x):
    """V, F, heights of a closed body that has a face nearly parallel to z = 0"""
    L, h, a, w = x['L'], x['h'], x['a'], x['w']
    Q = {'trapezium': [[0, 0], [L, 0], [(a * (1 - w) + w) * L, h], [a * (1 - w) * L, h]],
         'rectangle': [[0, 0], [L, 0], [L, h], [0, h]],
         'kite': [[0, 0], [w * L, -h], [L, 0], [w * L, h]],
         'triangle': [[0, 0], [L, 0], [a * L, h]]}[x['quad']]
    Q = np.array(Q, dtype=float)
    k = len(Q)
    if x['mirror']:
        Q = (Q * [-1., 1.])[::-1]
    d = np.array(x['d']) * x['tol']
    # heights are affine
    co = np.linalg.solve(np.column_stack((Q[:3], np.ones(3))), d)
    z = Q.dot(co[:2]) + co[2]
    sg = 1. if x['top'] else -1.
    V = np.concatenate((np.column_stack((Q, z)), np.column_stack(((Q - Q.mean(axis=0)) * x['base'] + Q.mean(axis=0),
                                                                  np.full(k, -sg * x['down'])))))
    polys = [list(range(k)), list(range(2 * k - 1, k - 1, -1))] + [[i, k + i, k + (i + 1) % k, (i + 1) % k] for i in range(k)]
    # sides may be warped: these are split
    polys = polys[:2] + [t for q in polys[2:] for t in (q[:3], [q[0], q[2], q[3]])]
    if sg < 0:
        polys = [p[::-1] for p in polys]
    t = x['turn']
    polys = [p[t % len(p):] + p[:t % len(p)] for p in polys]
    return V, np.array([p + p[:1] if len(p) == 3 else p for p in polys]), V[:, 2].copy()


@harness
def resolve(p, V, F=None):
    """unit normal, scalar"""
    if p['mode'] == 'face':
        f = F[p['face'] % len(F)]
        n = np.cross(V[f[1]] - V[f[0]], V[f[2]] - V[f[0]])
        if np.linalg.norm(n) < 1e-9:
            raise Reject('null face')
        n /= np.linalg.norm(n)
        a = np.array([1., 0., 0.]) if abs(n[0]) < .8 else np.array([0., 1., 0.])
        u = np.cross(n, a)
        u /= np.linalg.norm(u)
        k = p.get('per', 1.) / max(1., geom.extent(V[f]))
        n = n + k * (p['tilt'][0] * u + p['tilt'][1] * np.cross(n, u))
        n /= np.linalg.norm(n) * (-1. if p['flip'] else 1.)
        return n, float(V[f[p['vertex'] % 4]].dot(n) + p['delta'])
    n = np.array(p['normal'], dtype=float)
    n = n / np.linalg.norm(n)
    d = V.dot(n)
    lo, hi = d.min(), d.max()
    if p['mode'] == 'frac':
        c = lo + p['frac'] * (hi - lo)
    else:
        # a vertex in the middle of the range whenever there is one
        inside = np.where((d > lo + 1e-2) & (d < hi - 1e-2))[0]
        ids = inside if len(inside) else np.arange(len(V))
        c = d[ids[p['vertex'] % len(ids)]]
        if p['mode'] == 'near':
            c += p['delta']
    return n, float(c)


class Cut(object):
    """What is expected out of the clipping of (V, F) by n.x <= c, vertices within tol being on the plane"""

    @harness
    def __init__(self, V, F, n, c, tol):
        self.V, self.F, self.n, self.c, self.tol = V, F, n, c, tol
        d = self.d = V.dot(n) - c
        self.size = geom.size_of(V)
        a = np.abs(d)
        self.below = d < -tol
        self.above = d > tol
        self.on = ~self.below & ~self.above
        eps = 1e-12 * self.size
        # ties: the classification depends on rounding errors
        if tol > eps:
            self.tie = bool(np.any((a > tol - eps) & (a < tol + eps)))
        else:
            axis = np.abs(n).max() == 1.
            self.tie = bool(np.any((a < eps) & ((a > 0.) | (not axis))))
        self.exact = bool(np.all((a <= eps) | self.below | self.above))
        self.generic = not self.on.any()
        self.crossing = bool(self.below.any()) and not bool(self.below.all())
        polys = geom.polys_of(F)
        # faces lying on the plane belong to none of the sides
        self.faces = [p for p in polys if not self.on[p].all()]
        # vertices being on the plane up to rounding errors make no sliver
        snapped = np.where(a <= eps, 0., d)
        self.soup = geom.clip_soup_d([V[p] for p in self.faces], [snapped[p] for p in self.faces])
        if len(self.soup):
            area = np.linalg.norm(geom.tri_vec(self.soup), axis=1)
            self.soup = self.soup[area > 0.]
        # crossed edges
        cross = {}
        for p in polys:
            for i, j in zip(p, p[1:] + p[:1]):
                if (self.below[i] and self.above[j]) or (self.above[i] and self.below[j]):
                    k = (min(i, j), max(i, j))
                    if k not in cross:
                        u, v = k
                        t = d[u] / (d[u] - d[v])
                        cross[k] = V[u] + t * (V[v] - V[u])
        self.cross = cross
        pts = [x for x in cross.values()] + [V[i] for i in np.where(self.on | self.below)[0]]
        self.points = np.array(pts).reshape(-1, 3)
        self.min_gap = np.inf
        if len(self.points) > 1:
            from scipy.spatial import cKDTree
            # the vertices above the plane may also be merged with intersections
            pts = np.concatenate([self.points, V[self.above]])
            dist, _ = cKDTree(pts).query(pts, k=2)
            self.min_gap = float(dist[:, 1].min())
        self.separated = self.min_gap > 5e-5
        # a coordinate that sits on the border of a class of coordinates within 1e-5 may prevent merging
        self.area = np.linalg.norm(geom.tri_vec(geom.soup(V, F)), axis=1).sum()
        # tolerance on positions
        self.slack = 1e-11 * self.size if (self.exact and self.separated) else \
            (2e-5 if not self.separated else 0.) + (2 * tol if not self.exact else 0.) + 1e-11 * self.size

    def tol_area(self):
        per = sum(np.linalg.norm(self.V[p] - self.V[p[1:] + p[:1]], axis=1).sum() for p in geom.polys_of(self.F))
        if self.slack < 1e-9 * self.size:
            return 1e-9 * self.size ** 2
        # a face that is nearly parallel to the plane may be changed from one side to the other
        flat = 0.
        if not self.exact:
            for p in geom.polys_of(self.F):
                if self.on[p].any() and np.abs(self.d[p]).max() < 50 * self.tol:
                    flat += np.linalg.norm(geom.tri_vec(self.V[[p[:3], p[-2:] + p[:1]]]), axis=1).sum()
        return flat + 4 * self.slack * per + 1e-9 * self.size ** 2

    def tol_volume(self):
        return 2 * self.slack * self.area + 1e-9 * self.size ** 3

    @harness
    def chains(self):
        """Number of closed and open lines made by the intersections of the faces with the plane (generic planes,
        consistently oriented meshes)"""
        nodes = dict((k, i) for i, k in enumerate(self.cross))
        parent = list(range(len(nodes)))
        deg = [0] * len(nodes)

        def find(i):
            while parent[i] != i:
                parent[i] = parent[parent[i]]
                i = parent[i]
            return i
        for p in geom.polys_of(self.F):
            ks = []
            for i, j in zip(p, p[1:] + p[:1]):
                k = (min(i, j), max(i, j))
                if k in nodes:
                    ks.append(nodes[k])
            if ks:
                assert len(ks) == 2, ks
                for k in ks:
                    deg[k] += 1
                parent[find(ks[0])] = find(ks[1])
        groups = {}
        for i in range(len(nodes)):
            groups.setdefault(find(i), []).append(i)
        closed = open_ = 0
        for g in groups.values():
            ends = sum(1 for i in g if deg[i] == 1)
            if any(deg[i] > 2 for i in g):
                return None
            if ends:
                open_ += 1
            else:
                closed += 1
        return closed, open_

    @harness
    def lid(self):
        """Moments of the section of a closed body by a plane of unit normal n: integrals of 1, x (3) and x x^T (3x3)
        over the section, by the divergence theorem on the clipped surface (generalised: any watertight surface)"""
        T = self.soup
        vec = geom.tri_vec(T)
        area = np.linalg.norm(vec, axis=1)
        N = np.where(area[:, None] > 0, vec / np.where(area > 0, area, 1.)[:, None], 0.)
        w = -(N.dot(self.n))
        # projections of the surface points on the plane
        proj = lambda p: p - np.outer(p.dot(self.n) - self.c, self.n)
        a = float((w * area).sum())
        m1 = (w[:, None] * geom.tri_integrate(T, proj)).sum(axis=0)
        m2 = np.zeros((3, 3))
        for i in range(3):
            for j in range(3):
                m2[i, j] = (w * geom.tri_integrate(T, lambda p: proj(p)[:, i] * proj(p)[:, j])).sum()
        return a, m1, m2


def polygon_moments(loops, n, c):
    """Signed integrals of 1, x, x x^T over closed polygons of a plane of normal n (fans of triangles)"""
    n = np.asarray(n, dtype=float)
    a, m1, m2 = 0., np.zeros(3), np.zeros((3, 3))
    for P in loops:
        P = np.asarray(P, dtype=float)
        o = P.mean(axis=0)
        T = np.array([[o, P[i], P[i + 1]] for i in range(len(P) - 1)])
        if not len(T):
            continue
        s = np.sign(geom.tri_vec(T).dot(n))
        area = np.linalg.norm(geom.tri_vec(T), axis=1)
        a += (s * area).sum()
        m1 += (s[:, None] * geom.tri_integrate(T, lambda p: p)).sum(axis=0)
        for i in range(3):
            for j in range(3):
                m2[i, j] += (s * geom.tri_integrate(T, lambda p: p[:, i] * p[:, j])).sum()
    return a, m1, m2
