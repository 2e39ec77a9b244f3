"""Generators of inputs.  Strategies give JSON-serialisable recipes; ``build*`` turn them into arrays.

Nothing in this module uses the code under test.
"""
import math

import numpy as np
from hypothesis import strategies as st

from core import harness, HarnessError


# --------------------------------------------------------------------------------------------------------------------
# Numbers
# --------------------------------------------------------------------------------------------------------------------

def num(lo, hi, dec=3):
    """Numbers with few decimals, coarse ones being frequent"""
    return st.one_of(
        st.integers(math.ceil(lo * 4), math.floor(hi * 4)).map(lambda k: k / 4.),
        st.integers(math.ceil(lo * 10 ** dec), math.floor(hi * 10 ** dec)).map(lambda k: k / 10. ** dec),
    )


def pos_num(lo, hi, dec=3):
    assert lo > 0
    return st.integers(math.ceil(lo * 10 ** dec), math.floor(hi * 10 ** dec)).map(lambda k: k / 10. ** dec)


def angle(full=True):
    lim = math.pi if full else math.pi / 2
    return st.one_of(
        st.just(0.),
        st.sampled_from([math.pi / 2, -math.pi / 2, math.pi / 4, math.pi / 6, -math.pi / 3]),
        num(-lim, lim),
    )


def bits():
    return st.one_of(st.just(0), st.integers(0, 2 ** 60 - 1),
                     st.integers(1, 2 ** 32).map(lambda k: (k * 0x9E3779B97F4A7C15) % 2 ** 60))


def along(lo, hi):
    """Vectors along one of the axes"""
    return st.builds(lambda x, k: [x if i == k else 0. for i in range(3)], num(lo, hi), st.integers(0, 2))


def vec3(lo, hi):
    full = st.tuples(num(lo, hi), num(lo, hi), num(lo, hi)).map(list)
    if lo > 0 or hi < 0:
        return full
    # one vector out of four is along one of the axes, or in one of their planes
    mask = st.sampled_from([(1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 0), (0, 1, 1), (1, 0, 1)])
    sparse = st.builds(lambda v, m: [x if k else 0. for x, k in zip(v, m)], full, mask)
    return st.one_of(full, full, full, sparse)


# --------------------------------------------------------------------------------------------------------------------
# Unit shapes: (vertices, list of polygons counterclockwise seen from outside)
# --------------------------------------------------------------------------------------------------------------------

def _index(pts):
    """Merges identical points (exact keys)"""
    ids, out = {}, []

    def get(key, p):
        if key not in ids:
            ids[key] = len(out)
            out.append(p)
        return ids[key]
    return get, out


def shape_box(n):
    ni, nj, nk = n
    get, pts = _index(None)

    def v(i, j, k):
        return get((i, j, k), [-1 + 2. * i / ni, -1 + 2. * j / nj, -1 + 2. * k / nk])
    polys = []
    for i in range(ni):
        for j in range(nj):
            polys.append([v(i, j, nk), v(i + 1, j, nk), v(i + 1, j + 1, nk), v(i, j + 1, nk)])
            polys.append([v(i, j, 0), v(i, j + 1, 0), v(i + 1, j + 1, 0), v(i + 1, j, 0)])
    for i in range(ni):
        for k in range(nk):
            polys.append([v(i, 0, k), v(i + 1, 0, k), v(i + 1, 0, k + 1), v(i, 0, k + 1)])
            polys.append([v(i, nj, k), v(i, nj, k + 1), v(i + 1, nj, k + 1), v(i + 1, nj, k)])
    for j in range(nj):
        for k in range(nk):
            polys.append([v(ni, j, k), v(ni, j + 1, k), v(ni, j + 1, k + 1), v(ni, j, k + 1)])
            polys.append([v(0, j, k), v(0, j, k + 1), v(0, j + 1, k + 1), v(0, j + 1, k)])
    return pts, polys


def shape_prism(m, layers, taper):
    """m-sided frustum whose lateral faces are trapezia"""
    pts, polys = [], []
    for l in range(layers + 1):
        s = float(l) / layers
        r = 1. + (taper - 1.) * s
        for a in range(m):
            t = 2 * math.pi * a / m
            pts.append([r * math.cos(t), r * math.sin(t), -1. + 2. * s])
    for l in range(layers):
        for a in range(m):
            b = (a + 1) % m
            polys.append([l * m + a, l * m + b, (l + 1) * m + b, (l + 1) * m + a])
    bot, top = len(pts), len(pts) + 1
    pts += [[0., 0., -1.], [0., 0., 1.]]
    for a in range(m):
        b = (a + 1) % m
        polys.append([b, a, bot])
        polys.append([layers * m + a, layers * m + b, top])
    return pts, polys


def shape_bipyramid(m):
    pts = [[math.cos(2 * math.pi * a / m), math.sin(2 * math.pi * a / m), 0.] for a in range(m)]
    pts += [[0., 0., -1.], [0., 0., 1.]]
    polys = []
    for a in range(m):
        b = (a + 1) % m
        polys.append([b, a, m])
        polys.append([a, b, m + 1])
    return pts, polys


def shape_sphere(nlat, nlon):
    pts, polys = [], []
    for i in range(1, nlat):
        t = math.pi * i / nlat - math.pi / 2
        for j in range(nlon):
            p = 2 * math.pi * j / nlon
            pts.append([math.cos(t) * math.cos(p), math.cos(t) * math.sin(p), math.sin(t)])
    south, north = len(pts), len(pts) + 1
    pts += [[0., 0., -1.], [0., 0., 1.]]
    for i in range(nlat - 2):
        for j in range(nlon):
            k = (j + 1) % nlon
            polys.append([i * nlon + j, i * nlon + k, (i + 1) * nlon + k, (i + 1) * nlon + j])
    for j in range(nlon):
        k = (j + 1) % nlon
        polys.append([k, j, south])
        polys.append([(nlat - 2) * nlon + j, (nlat - 2) * nlon + k, north])
    return pts, polys


def shape_torus(nu, nv, r):
    pts, polys = [], []
    for i in range(nu):
        u = 2 * math.pi * i / nu
        for j in range(nv):
            v = 2 * math.pi * j / nv
            d = 1. + r * math.cos(v)
            pts.append([d * math.cos(u), d * math.sin(u), r * math.sin(v)])
    for i in range(nu):
        i2 = (i + 1) % nu
        for j in range(nv):
            j2 = (j + 1) % nv
            polys.append([i * nv + j, i2 * nv + j, i2 * nv + j2, i * nv + j2])
    return pts, polys


_DIRS = [(1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0), (0, 0, 1), (0, 0, -1)]


def _cube_faces(c):
    x, y, z = c
    v = lambda i, j, k: (x + i, y + j, z + k)
    return {
        (1, 0, 0): [v(1, 0, 0), v(1, 1, 0), v(1, 1, 1), v(1, 0, 1)],
        (-1, 0, 0): [v(0, 0, 0), v(0, 0, 1), v(0, 1, 1), v(0, 1, 0)],
        (0, 1, 0): [v(0, 1, 0), v(0, 1, 1), v(1, 1, 1), v(1, 1, 0)],
        (0, -1, 0): [v(0, 0, 0), v(1, 0, 0), v(1, 0, 1), v(0, 0, 1)],
        (0, 0, 1): [v(0, 0, 1), v(1, 0, 1), v(1, 1, 1), v(0, 1, 1)],
        (0, 0, -1): [v(0, 0, 0), v(0, 1, 0), v(1, 1, 0), v(1, 0, 0)],
    }


def _polycube_surface(cells):
    cells = set(cells)
    polys = []
    for c in sorted(cells):
        faces = _cube_faces(c)
        for d in _DIRS:
            if (c[0] + d[0], c[1] + d[1], c[2] + d[2]) not in cells:
                polys.append(faces[d])
    return polys


def _polycube_manifold(polys):
    edges, fans = {}, {}
    for ip, p in enumerate(polys):
        for a, b in zip(p, p[1:] + p[:1]):
            if (a, b) in edges:
                return False
            edges[(a, b)] = ip
        for i, a in enumerate(p):
            fans.setdefault(a, []).append((p[i - 1], p[(i + 1) % 4]))
    for a, fan in fans.items():
        nxt = dict((q, p) for p, q in fan)      # next vertex -> previous vertex, one cycle around a manifold vertex
        start = fan[0][1]
        cur, n = nxt[start], 1
        while cur != start:
            cur = nxt[cur]
            n += 1
        if n != len(fan):
            return False
    return True


def shape_poly(steps):
    """Polycube grown from successive (cell number, direction); additions that break the manifoldness are skipped"""
    cells = [(0, 0, 0)]
    for k, d in steps:
        base = cells[k % len(cells)]
        new = tuple(b + e for b, e in zip(base, _DIRS[d]))
        if new in cells:
            continue
        if _polycube_manifold(_polycube_surface(cells + [new])):
            cells.append(new)
    get, pts = _index(None)
    polys = [[get(p, [float(x) for x in p]) for p in poly] for poly in _polycube_surface(cells)]
    return pts, polys


def shape_voxels(bits, ni, nj, nk):
    """Any set of cubes, sharing their vertices: some may touch each other by an edge or by a corner only"""
    grid = [(i, j, k) for k in range(nk) for j in range(nj) for i in range(ni)]
    cells = [c for b, c in enumerate(grid) if (bits >> b) & 1] or grid[:1]
    get, pts = _index(None)
    polys = [[get(p, [float(x) for x in p]) for p in poly] for poly in _polycube_surface(cells)]
    return pts, polys


def shape_hull(points):
    from scipy.spatial import ConvexHull
    p = np.array(points, dtype=float).reshape(-1, 3)
    p = np.concatenate((p, [[7., 1., 2.], [-6., 2., -1.], [1., 7., -3.], [-1., -6., 2.], [2., -1., 7.],
                            [1., 2., -7.]]))
    p = p[np.linalg.norm(p, axis=1) > 0.5]
    p /= np.linalg.norm(p, axis=1)[:, None]
    keep = []
    for q in p:
        if all(np.linalg.norm(q - r) > 0.15 for r in keep):
            keep.append(q)
    p = np.array(keep)
    hull = ConvexHull(p)
    tri = hull.simplices.copy()
    for t in tri:
        a, b, c = p[t]
        if np.dot(np.cross(b - a, c - a), a + b + c) < 0:
            t[:] = t[::-1]
    used = np.unique(tri)
    new = -np.ones(len(p), dtype=int)
    new[used] = np.arange(len(used))
    return p[used].tolist(), [list(map(int, new[t])) for t in tri]


def _icosphere(level):
    g = (1 + 5 ** .5) / 2
    pts = [[-1, g, 0], [1, g, 0], [-1, -g, 0], [1, -g, 0], [0, -1, g], [0, 1, g], [0, -1, -g], [0, 1, -g],
           [g, 0, -1], [g, 0, 1], [-g, 0, -1], [-g, 0, 1]]
    tri = [[0, 11, 5], [0, 5, 1], [0, 1, 7], [0, 7, 10], [0, 10, 11], [1, 5, 9], [5, 11, 4], [11, 10, 2], [10, 7, 6],
           [7, 1, 8], [3, 9, 4], [3, 4, 2], [3, 2, 6], [3, 6, 8], [3, 8, 9], [4, 9, 5], [2, 4, 11], [6, 2, 10],
           [8, 6, 7], [9, 8, 1]]
    pts = [list(np.array(p) / np.linalg.norm(p)) for p in pts]
    for _ in range(level):
        cache, new = {}, []

        def mid(a, b):
            key = (min(a, b), max(a, b))
            if key not in cache:
                m = (np.array(pts[a]) + np.array(pts[b]))
                cache[key] = len(pts)
                pts.append(list(m / np.linalg.norm(m)))
            return cache[key]
        for a, b, c in tri:
            ab, bc, ca = mid(a, b), mid(b, c), mid(c, a)
            new += [[a, ab, ca], [b, bc, ab], [c, ca, bc], [ab, bc, ca]]
        tri = new
    return pts, tri


def shape_star(level, radii):
    """Triangulated star-shaped (generally not convex) body"""
    pts, tri = _icosphere(level)
    pts = [[x * radii[i % len(radii)] for x in p] for i, p in enumerate(pts)]
    return pts, tri


SHAPES = {'box': shape_box, 'prism': shape_prism, 'bipyramid': shape_bipyramid, 'sphere': shape_sphere,
          'torus': shape_torus, 'poly': shape_poly, 'voxels': shape_voxels, 'hull': shape_hull, 'star': shape_star}


def unit_shape(kinds=None, big=False):
    k = 4 if big else 3
    table = {
        'box': st.tuples(st.just('box'), st.tuples(st.integers(1, k), st.integers(1, k), st.integers(1, k)).map(list)),
        'prism': st.tuples(st.just('prism'), st.integers(3, 8), st.integers(1, k),
                           st.sampled_from([1., 0.5, 0.75, 1.5, 1.25])),
        'bipyramid': st.tuples(st.just('bipyramid'), st.integers(3, 8)),
        'sphere': st.tuples(st.just('sphere'), st.integers(2, 6), st.integers(3, 8)),
        'torus': st.tuples(st.just('torus'), st.integers(3, 7), st.integers(3, 6), st.sampled_from([0.25, 0.5, 0.375])),
        'poly': st.tuples(st.just('poly'), st.lists(st.tuples(st.integers(0, 9), st.integers(0, 5)).map(list),
                                                    max_size=10)),
        'hull': st.tuples(st.just('hull'), st.lists(st.tuples(st.integers(-9, 9), st.integers(-9, 9),
                                                              st.integers(-9, 9)).map(list), max_size=24)),
        'star': st.tuples(st.just('star'), st.integers(0, 1), st.lists(st.integers(10, 24).map(lambda i: i / 16.),
                                                                       min_size=1, max_size=12)),
    }
    kinds = kinds or sorted(table)
    table['voxels'] = st.tuples(st.just('voxels'), st.one_of(
        st.sampled_from([0b101010101, 0b11110101010101010, 0b10010110, 0b01101001]), st.integers(1, 2 ** 18 - 1),
        st.integers(1, 2 ** 60 - 1)), st.integers(2, 4), st.integers(2, 4), st.integers(1, 3))
    return st.one_of(*[table[k] for k in kinds]).map(list)


# --------------------------------------------------------------------------------------------------------------------
# Mesh recipes
# --------------------------------------------------------------------------------------------------------------------

def body(kinds=None, rotated=None, big=False, smax=12.):
    ang = {None: st.one_of(st.just([0., 0., 0.]), st.tuples(angle(), angle(False), angle()).map(list)),
           False: st.just([0., 0., 0.]),
           'z': st.tuples(st.just(0.), st.just(0.), angle()).map(list)}[rotated]
    return st.fixed_dictionaries({
        'shape': unit_shape(kinds, big),
        'scale': st.one_of(pos_num(.5, smax).map(lambda s: [s, s, s]),
                           st.tuples(pos_num(.5, smax), pos_num(.5, smax), pos_num(.5, smax)).map(list)),
        'rot': ang,
        'pos': st.one_of(st.just([0., 0., 0.]), vec3(-10, 10)),
    })


def closed_mesh(kinds=None, max_bodies=1, rotated=None, big=False, smax=12.):
    """Closed conformal manifold surfaces with outward normals, flat convex cells"""
    return st.fixed_dictionaries({
        'bodies': st.lists(body(kinds, rotated, big, smax), min_size=1, max_size=max_bodies),
        'gap': pos_num(0.25, 3.),
        'split': st.one_of(st.just(0), st.just(-1), bits()),
        'shift': bits(),
        'vperm': bits(),
        'fperm': bits(),
        'spare': st.sampled_from([0, 0, 0, 0, 0, 0, 0, 1, 2])
    })


def open_mesh(**kw):
    """A closed mesh out of which some faces are removed ('drop': list of integers, modulo the number of faces)"""
    return st.tuples(closed_mesh(**kw), st.lists(st.integers(0, 10 ** 6), min_size=1, max_size=6)).map(
        lambda t: dict(t[0], drop=t[1]))


def any_mesh(**kw):
    return st.one_of(closed_mesh(**kw), closed_mesh(**kw), open_mesh(**kw))


def rotmat(angles):
    """Rz Ry Rx (rotations about fixed axes x, then y, then z)"""
    a, b, c = angles
    rx = np.array([[1, 0, 0], [0, math.cos(a), -math.sin(a)], [0, math.sin(a), math.cos(a)]])
    ry = np.array([[math.cos(b), 0, math.sin(b)], [0, 1, 0], [-math.sin(b), 0, math.cos(b)]])
    rz = np.array([[math.cos(c), -math.sin(c), 0], [math.sin(c), math.cos(c), 0], [0, 0, 1]])
    return rz.dot(ry).dot(rx)


def rod(axis, theta):
    """Rotation of theta about a unit axis (Rodrigues' formula)"""
    a = np.asarray(axis, dtype=float)
    k = np.array([[0, -a[2], a[1]], [a[2], 0, -a[0]], [-a[1], a[0], 0]])
    return np.eye(3) + math.sin(theta) * k + (1 - math.cos(theta)) * k.dot(k)


@harness
def build_body(b):
    name = b['shape'][0]
    pts, polys = SHAPES[name](*b['shape'][1:])
    v = np.array(pts, dtype=float)
    if 'center' in b and b['center']:
        v = v - (v.max(axis=0) + v.min(axis=0)) / 2
    v = (v * np.array(b['scale'])).dot(rotmat(b['rot']).T) + np.array(b['pos'])
    return v, [list(map(int, p)) for p in polys]


def number_of_splits(P, kind, block, r):
    """Quadrangles to split so that the number of faces of some kind is a multiple of a block, plus r"""
    quads = [i for i, p in enumerate(P) if len(p) == 4]
    nq, nt = len(quads), len(P) - len(quads)
    if kind == 'quads':
        k = [k for k in range(nq + 1) if (nq - k) % block == r % block]
    elif kind == 'faces':
        k = [k for k in range(nq + 1) if (nq + nt + k) % block == r % block]
    else:
        k = [k for k in range(nq + 1) if (nt + 2 * k) % block == r % block] or \
            [k for k in range(nq + 1) if (nt + 2 * k) % block in (0, 1)]
    # as few faces that are split as possible, or as many
    return quads[:(k[0] if kind == 'quads' else k[-1])] if k else []


@harness
def build(recipe):
    """Returns (vertices, faces) following the conventions of the code base (triangles: first index == last one)"""
    V, P = [], []
    off, xend = 0, None
    for b in recipe['bodies']:
        v, polys = build_body(b)
        if xend is not None:
            v = v + np.array([xend + recipe['gap'] - v[:, 0].min(), 0., 0.])
        xend = v[:, 0].max()
        V.append(v)
        P += [[i + off for i in p] for p in polys]
        off += len(v)
    V = np.concatenate(V)
    split = recipe.get('split', 0)
    cut = set(number_of_splits(P, *recipe['count'])) if recipe.get('count') else None
    faces = []
    for i, p in enumerate(P):
        if len(p) == 3:
            faces.append(p)
            continue
        if cut is not None:
            faces += [p] if i not in cut else [[p[0], p[1], p[2]], [p[0], p[2], p[3]]]
            continue
        bit = (split >> ((2 * i) % 60)) & 3 if split >= 0 else 1 + i % 2
        if bit in (0, 3) and split >= 0:
            faces.append(p)
        elif bit == 1:
            faces += [[p[0], p[1], p[2]], [p[0], p[2], p[3]]]
        else:
            faces += [[p[1], p[2], p[3]], [p[1], p[3], p[0]]]
    drop = recipe.get('drop')
    if drop:
        gone = set(d % len(faces) for d in drop)
        if len(gone) < len(faces):
            faces = [f for i, f in enumerate(faces) if i not in gone]
    shift = recipe.get('shift', 0)
    out = []
    for i, f in enumerate(faces):
        s = ((shift >> (2 * (i % 30))) & 3) % len(f)
        f = f[s:] + f[:s]
        out.append(f if len(f) == 4 else f + f[:1])
    F = np.array(out, dtype=int)
    if recipe.get('spare'):
        # vertices that no face refers to, inside the box
        lo, hi = V.min(axis=0), V.max(axis=0)
        at = np.array([[.3171, .4139, .5713]]) + .0379 * np.arange(recipe['spare'])[:, None]
        V = np.concatenate((V, lo + at * (hi - lo)))
    if recipe.get('fperm'):
        F = F[np.random.RandomState(recipe['fperm'] % (2 ** 32)).permutation(len(F))]
    if recipe.get('vperm'):
        perm = np.random.RandomState(recipe['vperm'] % (2 ** 32)).permutation(len(V))
        W = np.empty_like(V)
        W[perm] = V
        V, F = W, perm[F]
    return V, F


@harness
def add_darts(V, F, darts):
    """Splits some faces in two from a vertex that is inside them: both have three vertices and two edges in common, one of
    them being generally a quadrangle that is not convex"""
    if not darts:
        return V, F
    P = [list(map(int, f[:3])) if f[0] == f[3] else list(map(int, f)) for f in F]
    n = len(P)
    new, pts = {}, []
    for k in darts:
        i, t, r = k % n, 0.1 if k & 1 else -0.1, (k >> 1) % 4
        if i in new:
            continue
        q = P[i]
        a, b, c = q[0], q[1], q[2]
        m = len(V) + len(pts)
        mid = .5 * (V[a] + V[c])
        if len(q) == 3:
            pts.append(mid + .1 * (V[b] - mid))
            parts = [[a, b, c, m], [c, a, m]]
        else:
            pts.append(mid + .1 * (V[b if t > 0 else q[3]] - mid))
            parts = [[a, b, c, m], [m, c, q[3], a]]
        new[i] = [x[r % len(x):] + x[:r % len(x)] for x in parts]
    out = [x for i in range(n) for x in ([P[i]] if i not in new else new[i])]
    return np.concatenate((V, pts)), np.array([x + x[:1] if len(x) == 3 else x for x in out])


def large_mesh(closed=True, max_bodies=2):
    """Closed bodies of hundreds to thousands of faces (some of which are removed if not closed)"""
    body = st.fixed_dictionaries({
        'shape': st.one_of(
            st.tuples(st.just('box'), st.tuples(st.integers(3, 18), st.integers(3, 18), st.integers(3, 18)).map(list)),
            st.tuples(st.just('sphere'), st.integers(8, 24), st.integers(12, 60)),
            st.tuples(st.just('torus'), st.integers(12, 50), st.integers(8, 24), st.sampled_from([0.25, 0.5])),
            st.tuples(st.just('prism'), st.integers(12, 80), st.integers(3, 12), st.sampled_from([1., 1.25]))).map(list),
        'scale': st.one_of(pos_num(2., 30.).map(lambda s: [s, s, s]),
                           st.tuples(pos_num(5., 30.), pos_num(5., 30.), pos_num(5., 30.)).map(list)),
        'rot': st.one_of(st.just([0., 0., 0.]), st.tuples(angle(), angle(False), angle()).map(list)),
        'pos': st.one_of(st.just([0., 0., 0.]), vec3(-10, 10))})
    mesh = st.fixed_dictionaries({
        'bodies': st.lists(body, min_size=1, max_size=max_bodies), 'gap': pos_num(0.25, 3.),
        'split': st.one_of(st.just(0), st.just(-1), bits()), 'shift': bits(), 'vperm': bits(), 'fperm': bits(),
        'spare': st.sampled_from([0, 0, 0, 0, 0, 1, 2]),
        # numbers of faces at the border of blocks of usual sizes
        'count': st.one_of(st.none(), st.tuples(
            st.sampled_from(['quads', 'tris', 'faces']), st.sampled_from([64, 100, 128, 256, 500, 512, 1000, 1024, 2048]),
            st.sampled_from([-1, 0, 1, 1])).map(list))})
    if closed:
        return mesh
    return st.tuples(mesh, st.lists(st.integers(0, 10 ** 6), max_size=6)).map(
        lambda t: dict(t[0], drop=t[1]) if t[1] else t[0])


def with_large(strategy, closed=True, max_bodies=2):
    """The cases of a strategy, on large meshes"""
    return st.builds(lambda c, m: dict(c, mesh=m), strategy, large_mesh(closed, max_bodies))


def with_spare(strategy, *keys):
    """The cases of a strategy with meshes that have unused vertices"""
    def spare(c, *n):
        return dict(c, **{key: dict(c[key], spare=k) for key, k in zip(keys or ('mesh',), n) if c.get(key) and k})
    return st.builds(spare, strategy, *[st.sampled_from([1, 2, 1, 3])] * max(1, len(keys)))


def with_magnitude(strategy, key='mesh', magnitudes=(1e-6, 1e-4, 1e-2, 1e2, 1e4, 1e6)):
    """The cases of a strategy with meshes of another order of magnitude (key=None: the case is the mesh)"""
    def scaled(c, k):
        m = dict(c if key is None else c[key])
        m['bodies'] = [dict(b, scale=[k * x for x in b['scale']], pos=[k * x for x in b['pos']]) for b in m['bodies']]
        m['gap'] = k * m['gap']
        return m if key is None else dict(c, **{key: m})
    return st.builds(scaled, strategy, st.sampled_from(list(magnitudes)))


def mesh_labels(recipe, F=None):
    labs = ['shape:' + b['shape'][0] for b in recipe['bodies']]
    if len(recipe['bodies']) > 1:
        labs.append('multi-body')
    if recipe.get('drop'):
        labs.append('open')
    if F is not None:
        t = F[:, 0] == F[:, 3]
        labs.append('tri only' if t.all() else 'quad only' if not t.any() else 'mixed')
    return labs
