"""C22: closed-form inertias of the shapes are the integrals over these shapes"""
import numpy as np
from hypothesis import strategies as st

import gen
from core import Property, Sub, require, harness
from sut import expect_raise, some_form
from meshmagick import densities, inertia

GX, GW = np.polynomial.legendre.leggauss(12)
GX, GW = (GX + 1) / 2, GW / 2
NT = 24
TH = 2 * np.pi * np.arange(NT) / NT


@harness
def moments(points, weights):
    m = weights.sum()
    g = weights.dot(points) / m
    d = points - g
    m2 = np.einsum('i,ij,ik->jk', weights, d, d)
    return m, g, np.trace(m2) * np.eye(3) - m2


def boxes(lo, hi):
    """Quadrature of a box"""
    X = [l + (h - l) * GX for l, h in zip(lo, hi)]
    W = [(h - l) * GW for l, h in zip(lo, hi)]
    p = np.array(np.meshgrid(*X, indexing='ij')).reshape(3, -1).T
    w = np.einsum('i,j,k->ijk', *W).reshape(-1)
    return p, w


def solid(func, radial):
    """Solid of revolution around z: s, t in [0, 1] -> (r, z, jacobian), or points in the half plane"""
    s, t = [a.reshape(-1) for a in np.meshgrid(GX, GX, indexing='ij')]
    w = np.outer(GW, GW).reshape(-1)
    r, z, j = func(s, t)
    w = w * j * r
    P = np.stack([np.outer(r, np.cos(TH)), np.outer(r, np.sin(TH)), np.outer(z, np.ones(NT))], axis=-1).reshape(-1, 3)
    return P, np.outer(w, np.full(NT, 2 * np.pi / NT)).reshape(-1)


def shell(func):
    """Surface of revolution: s in [0, 1] -> (r, z, length element)"""
    r, z, ds = func(GX)
    w = GW * r * ds
    P = np.stack([np.outer(r, np.cos(TH)), np.outer(r, np.sin(TH)), np.outer(z, np.ones(NT))], axis=-1).reshape(-1, 3)
    return P, np.outer(w, np.full(NT, 2 * np.pi / NT)).reshape(-1)


def join(*parts):
    return np.concatenate([p for p, _ in parts]), np.concatenate([w for _, w in parts])


def ball(r0, r1, half=False):
    a0, a1 = (np.pi / 2, np.pi) if half else (0., np.pi)

    def f(s, t):
        rho = r0 + (r1 - r0) * s
        a = a0 + (a1 - a0) * t
        return rho * np.sin(a), -rho * np.cos(a), rho * (r1 - r0) * (a1 - a0)
    return solid(f, None)


def cyl(r0, r1, h):
    return solid(lambda s, t: (r0 + (r1 - r0) * s, h * (t - .5), (r1 - r0) * h), None)


def cone(r, h):
    return solid(lambda s, t: (r * (1 - t) * s, h * t, r * (1 - t) * h), None)


def ellip(a, b, c):
    """Semi axes along x, y, z"""
    P, w = ball(0., 1.)
    return P * [a, b, c], w * a * b * c


def ecyl(a, b, h):
    P, w = cyl(0., 1., h)
    return P * [a, b, 1.], w * a * b


def torus(R, r):
    # around y
    s, t = [x.reshape(-1) for x in np.meshgrid(GX, TH, indexing='ij')]
    w = np.outer(GW, np.full(NT, 2 * np.pi / NT)).reshape(-1) * s * r * r
    rad, z = R + r * s * np.cos(t), r * s * np.sin(t)
    w = w * rad
    P = np.stack([np.outer(rad, np.cos(TH)), np.outer(z, np.ones(NT)), np.outer(rad, np.sin(TH))], axis=-1).reshape(-1, 3)
    return P, np.outer(w, np.full(NT, 2 * np.pi / NT)).reshape(-1)


def wedge(b, h, l, iso):
    """Triangular section in Oxz (base along x), length along y"""
    s, t, u = [x.reshape(-1) for x in np.meshgrid(GX, GX, GX, indexing='ij')]
    w = np.einsum('i,j,k->ijk', GW, GW, GW).reshape(-1) * (1 - t) * b * h * l
    x = (s - .5) * b * (1 - t) if iso else s * b * (1 - t)
    return np.stack([x, l * (u - .5), h * t], axis=-1), w


def pyramid(a, b, h):
    s, t, u = [x.reshape(-1) for x in np.meshgrid(GX, GX, GX, indexing='ij')]
    w = np.einsum('i,j,k->ijk', GW, GW, GW).reshape(-1) * (1 - u) ** 2 * a * b * h
    return np.stack([(s - .5) * a * (1 - u), (t - .5) * b * (1 - u), h * u], axis=-1), w


def disc(r, z):
    return shell(lambda s: (r * s, z + 0 * s, r + 0 * s))


def frustum(R, r, h):
    """Radius R at z=0, r at z=h"""
    return shell(lambda s: (R + (r - R) * s, h * s, np.hypot(h, R - r) + 0 * s))


def sphere_shell(R, half=False):
    a0, a1 = (np.pi / 2, np.pi) if half else (0., np.pi)
    return shell(lambda s: (R * np.sin(a0 + (a1 - a0) * s), -R * np.cos(a0 + (a1 - a0) * s), R * (a1 - a0) + 0 * s))


# name: (number of dimensions, quadrature, is a shell, documented altitude of the center of gravity)
SHAPES = {
    'right_circular_cylinder': (2, lambda r, l: cyl(0., r, l), False),
    'hollow_right_circular_cylinder': (3, lambda r, e, l: cyl(r, r + e, l), False),
    'right_circular_cone': (2, cone, False),
    'sphere': (1, lambda r: ball(0., r), False),
    'hollow_sphere': (2, lambda r, e: ball(r, r + e), False),
    'hemisphere': (1, lambda r: ball(0., r, True), False),
    'elliptical_cylinder': (3, ecyl, False),
    'ellipsoid': (3, lambda a, b, c: ellip(b, c, a), False),
    'torus': (2, lambda e, r: torus(r + e, r), False),
    'right_angle_wedge': (3, lambda b, h, l: wedge(b, h, l, False), False),
    'isoceles_wedge': (3, lambda b, h, l: wedge(b, h, l, True), False),
    'right_rectangular_pyramid': (3, pyramid, False),
    'cube': (1, lambda a: boxes([0.] * 3, [a] * 3), False),
    'rectangular_prism': (3, lambda a, b, h: boxes([0.] * 3, [a, b, h]), False),
    'circular_cone_shell': (2, lambda R, h: frustum(R, 0., h), True),
    'frustrum_of_circular_cone_shell': (3, lambda r, R, h: frustum(R, r, h), True),
    'lateral_cylindrical_shell': (2, lambda R, h: frustum(R, R, h), True),
    'total_cylindrical_shell': (2, lambda R, h: join(frustum(R, R, h), disc(R, 0.), disc(R, h)), True),
    'spherical_shell': (1, sphere_shell, True),
    'hemispherical_shell': (1, lambda R: sphere_shell(R, True), True),
}


def call_args(name, d):
    """Arguments of the function out of positive dimensions"""
    if name in ('hollow_right_circular_cylinder', 'hollow_sphere'):
        return [d[0], d[0] + d[1]] + d[2:]
    if name == 'torus':
        return [d[1] + d[0], d[1]]
    return list(d)


def check(case, ctx):
    name = case['shape']
    n, quad, is_shell = SHAPES[name]
    d = case['dims'][:n]
    P, w = quad(*d)
    kw = {}
    rho, e = 1., .02
    if is_shell:
        rho = 7850.
    if case['density'] is not None:
        rho = kw['density'] = case['density']
    if is_shell and case['thickness'] is not None:
        e = kw['thickness'] = case['thickness']
    f = getattr(inertia, name)
    a = call_args(name, d)
    if case['ints']:
        if all(float(x).is_integer() for x in a):
            a = [int(x) for x in a]
            ctx.label('integers')
    i = f(*a, **kw)
    k = rho * e if is_shell else rho
    m, g, I = moments(P, w * k)
    require(abs(i.mass - m) < 1e-9 * m, '%s(%s): mass is %.12g, %.12g expected', name, a, i.mass, m)
    M = np.asarray(i.inertia_matrix)
    tol = 1e-9 * np.abs(I).max()
    require(np.abs(np.diag(M) - np.diag(I)).max() < tol, '%s(%s): moments of inertia are %s, %s expected', name, a,
            np.diag(M), np.diag(I))
    require(np.abs(M - M.T).max() == 0, '%s: the matrix is not symmetric', name)
    if name != 'right_angle_wedge' or case.get('products'):
        require(np.abs(M - I).max() < tol, '%s(%s): products of inertia are\n%s\nexpected\n%s', name, a, M, I)
    require(bool(i.is_at_cog()), '%s: inertia is not expressed at the center of gravity', name)
    require(np.array_equal(np.asarray(i.gravity_center, dtype=float), np.zeros(3)), '%s: the center of gravity is not the '
            'origin of the axes of the shape: %s', name, i.gravity_center)
    # transport: inertia elsewhere
    p = np.array(case['point'])
    r = p - np.asarray(i.gravity_center)
    before = np.array(M)
    i.reduction_point = some_form(p)
    want = before + i.mass * (r.dot(r) * np.eye(3) - np.outer(r, r))
    require(np.abs(np.asarray(i.inertia_matrix) - want).max() < 1e-9 * np.abs(want).max(), '%s: transport', name)
    # a new one does not depend on what has been done with the first one
    j = f(*a, **kw)
    require(np.array_equal(np.asarray(j.inertia_matrix), before) and bool(j.is_at_cog()), '%s: second call', name)
    ctx.label(name)
    ctx.nontrivial(len(set(d)) == len(d))


def check_density(case, ctx):
    table = {n: inertia.densities.get_density(n) for n in densities.list_medium()}
    names = sorted(table)
    name = names[case['k'] % len(names)]
    want = DENSITIES.get(name)
    require(want is None or table[name] == want, 'density of %s is %s', name, table[name])
    require(all(np.isfinite(v) and v > 0 for v in table.values()), 'densities')
    require(len(names) == len(set(n.upper() for n in names)), 'names of media')
    text = ''.join(c.upper() if b else c.lower() for c, b in zip(name, case['bits'] * len(name)))
    require(densities.get_density(text) == table[name], 'density of %s', text)
    bad = name + 'X' if case['bad'] == 0 else ' ' + name if case['bad'] == 1 else ''
    expect_raise(lambda: densities.get_density(bad), 'density of %r' % bad, KeyError)
    lst = densities.list_medium()
    lst.append('NOTHING')
    lst.pop(0)
    require(sorted(densities.list_medium()) == names, 'the list of media is shared')
    ctx.nontrivial(text not in (name, name.lower()))


# kg/m3, at usual conditions
DENSITIES = {'CONCRETE': 2300., 'REINFORCED_CONCRETE': 2400., 'FRESH_WATER': 1000., 'SALT_WATER': 1025., 'STEEL': 7850.,
             'ALUMINUM': 2700., 'LEAD': 11350., 'SAND': 1600., 'TITANIUM': 4500., 'POLYSTYRENE': 1050., 'GASOLINE': 750.,
             'DIESEL_FUEL': 850., 'ETHANOL': 789., 'AIR_20DEGC': 1.204, 'BUTANE': 2.7, 'PROPANE': 2.01,
             'HYDROGEN_-252DEGC': 70., 'NITROGEN_-195DEGC': 810.}


def dim():
    return st.one_of(gen.pos_num(.1, 20), st.integers(1, 12).map(float))


PROPERTY = Property('C22', [
    Sub('shapes', lambda: st.fixed_dictionaries({
        'shape': st.sampled_from(sorted(SHAPES)), 'dims': st.tuples(dim(), dim(), dim()).map(list),
        'density': st.one_of(st.none(), gen.pos_num(.5, 9000)), 'thickness': st.one_of(st.none(), gen.pos_num(.001, .2)),
        'ints': st.booleans(), 'point': gen.vec3(-10, 10)}), check, quick=5000),
    Sub('densities', lambda: st.fixed_dictionaries({
        'k': st.integers(0, 40), 'bits': st.lists(st.booleans(), min_size=1, max_size=5), 'bad': st.integers(0, 2)}),
        check_density, quick=500),
], rule='The 20 shapes with generated dimensions, densities and thicknesses are compared to a numerical quadrature of their '
        'parametrization; non-trivial: all dimensions are different.',
    assumptions=['axes are those documented, or for wedges those that the moments of inertia imply',
                 'products of inertia of the right angle wedge are a known finding'])
