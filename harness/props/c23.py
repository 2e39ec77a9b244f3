"""C23: the Hydrostatics object describes its body at every moment of its history"""
import contextlib
import io
import os

import numpy as np
from hypothesis import strategies as st

import gen
import geom
import hydro
import report
from core import Property, Sub, Reject, Violation, require
from sut import mk, snapshot, require_unchanged, some_form
from meshmagick.hydrostatics_old import Hydrostatics, Force
from props.c13 import rigid

EX = {'g': 9.81, 'rho_water': 1023.}


class Model(object):
    """What the object should be: the body (V, F) moved by R, t, its gravity center and forces in the frame of the body"""

    def __init__(self, V, F, cog, g, rho):
        self.V, self.F, self.g, self.rho = V, F, g, rho
        self.R, self.t = np.eye(3), np.zeros(3)
        self.cog = cog.copy()            # in the frame of the body
        self.reset_cog = cog.copy()
        self.zg_set = False
        self.mass = None                 # kg
        self.forces = []                 # (Force, point in body, value, mode, rotation at the time it was added)
        self.s = geom.size_of(V)
        self.full = geom.volume_moments(geom.soup(V, F))[0]

    def world(self, p):
        return self.R.dot(p) + self.t

    def body(self, p):
        return self.R.T.dot(np.asarray(p, dtype=float) - self.t)

    def follow(self, hs):
        """Finds the motion of the body"""
        W = np.asarray(hs.mesh.vertices)
        require(np.array_equal(np.asarray(hs.mesh.faces), self.F), 'faces have been modified')
        require(W.shape == self.V.shape, 'the number of vertices has changed')
        R, t = rigid(self.V, W)
        require(np.abs(self.V.dot(R.T) + t - W).max() < 1e-9 * (self.s + np.abs(W).max()), 'the body is deformed')
        self.R, self.t = R, t


def force_terms(m):
    """Vertical force, moments around x and y of the additional forces"""
    r = np.zeros(3)
    for _, p, v, mode, R0 in m.forces:
        x = m.world(p)
        f = m.R.dot(R0.T).dot(v) if mode == 'relative' else v
        r += np.array([f[2], x[1] * f[2] - x[2] * f[1], x[2] * f[0] - x[0] * f[2]])
    return r


def verify(hs, m, ctx):
    """Everything the object tells is compared to the oracle. Returns the oracle or None"""
    m.follow(hs)
    t = 1e-8
    wcog = m.world(m.cog)
    big = m.s + np.abs(np.asarray(hs.mesh.vertices)).max() + np.abs(wcog).max()
    geom.close(hs.gravity_center, wcog, 1e-8 * big, 'the gravity center does not follow the body')
    geom.close(hs.zg, wcog[2], 1e-8 * big, 'zg')
    require(hs.gravity == m.g and hs.rho_water == m.rho, 'gravity or density')
    if m.mass is not None:
        geom.close(hs.mass, m.mass / 1000., 1e-12 * m.mass / 1000., 'mass (tons)')
    for f, p, v, mode, R0 in m.forces:
        geom.close(f.point, m.world(p), 1e-8 * big, 'the application point of a force does not follow the body')
        geom.close(f.value, m.R.dot(R0.T).dot(v) if mode == 'relative' else v, 1e-8 * np.linalg.norm(v) + 1e-12,
                   'the direction of a force (%s)' % mode)
    W = np.asarray(hs.mesh.vertices, dtype=float)
    h = hydro.Hydro(W, m.F)
    if not h.ok or h.cut.slack > 1e-9 * h.cut.size or h.volume < 1e-4 * m.s ** 3 or h.wp_area < 1e-4 * m.s ** 2:
        ctx.label('not compared')
        return None
    s = h.cut.size
    rho, g = m.rho, m.g
    geom.close(hs.displacement_volume, h.volume, t * s ** 3, 'displacement volume')
    geom.close(hs.displacement, rho * h.volume / 1000., t * rho * s ** 3 / 1000., 'displacement (tons)')
    if m.mass is None:
        m.mass = rho * h.volume
        geom.close(hs.mass, m.mass / 1000., t * rho * s ** 3 / 1000., 'the mass is by default the displacement')
        m.mass = hs.mass * 1000.
    geom.close(hs.wet_surface_area, h.wet_area, t * s ** 2, 'wetted surface')
    geom.close(hs.flotation_surface_area, h.wp_area, t * s ** 2, 'flotation area')
    k, ka = s ** 3 / h.volume, s ** 2 / h.wp_area
    geom.close(hs.buoyancy_center, h.B, t * s * k, 'buoyancy center')
    F0 = np.append(h.wp[1][:2] / h.wp[0], 0.)
    geom.close(hs.flotation_center, F0, t * s * ka + 2e-4 / (rho * g * h.wp_area), 'flotation center')
    K, sxx, syy = hydro.stiffness(h, rho, g, wcog[2], np.zeros(2))
    sg = max(s, float(np.abs(wcog).max()))
    geom.close(hs.hydrostatic_stiffness_matrix, K, t * rho * g * sg ** 4 + 1.1e-4, 'stiffness matrix')
    for name, (i, j) in {'S33': (0, 0), 'S34': (0, 1), 'S35': (0, 2), 'S44': (1, 1), 'S45': (1, 2), 'S55': (2, 2)}.items():
        require(getattr(hs, name) == hs.hydrostatic_stiffness_matrix[i, j], name)
    geom.close(hs.transversal_metacentric_radius, syy / h.volume, t * s * k, 'transversal metacentric radius')
    geom.close(hs.longitudinal_metacentric_radius, sxx / h.volume, t * s * k, 'longitudinal metacentric radius')
    gb = h.B[2] - wcog[2]
    gmt, gml = syy / h.volume + gb, sxx / h.volume + gb
    geom.close(hs.transversal_metacentric_height, gmt, t * sg * k, 'GMt')
    geom.close(hs.longitudinal_metacentric_height, gml, t * sg * k, 'GMl')
    for gm, told, what in ((gmt, hs.is_stable_in_roll(), 'roll'), (gml, hs.is_stable_in_pitch(), 'pitch')):
        if abs(gm) > 2 * t * sg * k:
            require(bool(told) == (gm > 0), 'stable in %s: %s, metacentric height %g', what, told, gm)
    require(bool(hs.isstable()) == (bool(hs.is_stable_in_roll()) and bool(hs.is_stable_in_pitch())), 'isstable')
    # the underwater mesh
    um = hs.hydrostatic_mesh
    T = geom.soup(np.asarray(um.vertices), np.asarray(um.faces))
    geom.close(np.linalg.norm(geom.tri_vec(T), axis=1).sum(), h.wet_area, 1e-8 * s ** 2, 'area of the underwater mesh')
    vz = np.asarray(um.vertices)[:, 2]
    require(vz.max() < 1e-6 * s, 'the underwater mesh is above the free surface')
    low = h.cut.soup.reshape(-1, 3)
    geom.close(np.asarray(um.vertices).min(axis=0), low.min(axis=0), 1e-8 * s, 'extents of the underwater mesh')
    geom.close(np.asarray(um.vertices).max(axis=0), low.max(axis=0), 1e-8 * s, 'extents of the underwater mesh')
    # balance
    mg = m.mass * g
    r = np.array([rho * g * h.volume - mg, rho * g * h.volume * h.B[1] - mg * wcog[1],
                  -rho * g * h.volume * h.B[0] + mg * wcog[0]]) + force_terms(m)
    scale = rho * g * s ** 3 + mg
    got = np.asarray(hs.residual)
    geom.close(got[0], r[0], t * scale, 'vertical balance')
    geom.close(got[1:], r[1:], t * scale * max(sg, big), 'balance of moments')
    require([hs.delta_fz, hs.delta_mx, hs.delta_my] == got.tolist(), 'delta_fz, delta_mx, delta_my')
    P = np.array(list(h.cut.cross.values()) + list(h.W[h.cut.on]))
    lwl, bwl = np.ptp(P[:, 0]), np.ptp(P[:, 1])
    if h.cut.generic:
        rel = np.abs(r) / np.array([mg, mg * bwl, mg * lwl])
        e = t * scale * max(sg, big) / (mg * min(1., bwl, lwl))
        if np.abs(rel - hs.reltol).min() > 2 * e:
            require(bool(hs.is_at_equilibrium()) == bool(np.all(rel < hs.reltol)), 'is_at_equilibrium: %s, relative '
                    'residuals are %s for a tolerance of %g', hs.is_at_equilibrium(), rel, hs.reltol)
    gf, bf = hs.get_gravity_force(), hs.get_buoyancy_force()
    geom.close(gf.point, wcog, 1e-8 * big, 'gravity force: point')
    geom.close(gf.value, [0., 0., -mg], 1e-9 * mg, 'gravity force')
    geom.close(bf.point, h.B, t * s * k, 'buoyancy force: point')
    geom.close(bf.value, [0., 0., rho * g * h.volume], t * scale, 'buoyancy force')
    m.P, m.wcog, m.K, m.gm = P, wcog, K, (gmt, gml, syy / h.volume, sxx / h.volume)
    m.r, m.F0 = r, F0
    return h


def check_report(hs, m, h):
    s = h.cut.size
    rho, g, wcog = m.rho, m.g, m.wcog
    sg = max(s, float(np.abs(wcog).max()))
    k = s ** 3 / h.volume
    low = h.cut.soup.reshape(-1, 3)
    lo, hi = low.min(axis=0), low.max(axis=0)
    I = h.inertia_at(rho, h.B)
    e4 = rho * g * sg ** 4
    es = rho * s ** 5
    lwl, bwl = np.ptp(m.P[:, 0]), np.ptp(m.P[:, 1])
    mg = m.mass * g
    exp = [
        ('Gravity acceleration (M/S**2)', [g], 'f2', 0.), ('Density of water (kg/M**3)', [rho], 'f1', 0.),
        ('Waterplane area (M**2)', [h.wp_area], 'f1', s ** 2),
        ('Waterplane center (M)', m.F0[:2], 'f3', s * s ** 2 / h.wp_area + 2e4 / (rho * g * h.wp_area)),
        ('Wet area (M**2)', [h.wet_area], 'f1', s ** 2), ('Displacement volume (M**3)', [h.volume], 'f3', s ** 3),
        ('Displacement mass (tons)', [rho * h.volume / 1000.], 'f3', rho * s ** 3 / 1000.),
        ('Buoyancy center (M)', h.B, 'f3', s * k), ('Center of gravity (M)', wcog, 'f3', sg),
        ('Draught (M)', [-lo[2]], 'f3', s), ('Length overall submerged (M)', [hi[0] - lo[0]], 'f2', s),
        ('Breadth overall submerged (M)', [hi[1] - lo[1]], 'f2', s), ('Length at Waterline LWL (M)', [lwl], 'f2', s),
        ('Forward perpendicular (M)', [m.P[:, 0].max()], 'f2', s),
        ('Transversal metacentric radius (M)', [m.gm[2]], 'f3', s * k),
        ('Transversal metacentric height GMt (M)', [m.gm[0]], 'f3', sg * k),
        ('Longitudinal metacentric radius (M)', [m.gm[3]], 'f3', s * k),
        ('Longitudinal metacentric height GMl (M)', [m.gm[1]], 'f3', sg * k),
        ('K33 (N/M)', [m.K[0, 0]], 'E4', e4), ('K34 (N)', [m.K[0, 1]], 'E4', e4), ('K35 (N)', [m.K[0, 2]], 'E4', e4),
        ('K44 (N.M)', [m.K[1, 1]], 'E4', e4), ('K45 (N.M)', [m.K[1, 2]], 'E4', e4), ('K55 (N.M)', [m.K[2, 2]], 'E4', e4),
        ('Ixx', [I[0, 0]], 'E3', es), ('Ixy', [-I[0, 1]], 'E3', es), ('Ixz', [-I[0, 2]], 'E3', es),
        ('Iyy', [I[1, 1]], 'E3', es), ('Iyz', [-I[1, 2]], 'E3', es), ('Izz', [I[2, 2]], 'E3', es),
        ('Absolute', m.r, 'E3', (rho * g * s ** 3 + mg) * sg),
        ('Relative', m.r / np.array([mg, mg * bwl, mg * lwl]), 'E3', (rho * g * s ** 3 + mg) * sg / (mg * min(1., bwl, lwl))),
        ('Relative tolerance', [hs.reltol], 'E1', 0.)]
    got = report.parse(hs.get_hydrostatic_report())
    require([l for l, _ in got] == [l.upper() for l, _, _, _ in exp], 'lines of the report are %s', [l for l, _ in got])
    for (label, x), (_, want, digits, scale) in zip(got, exp):
        want = np.asarray(want, dtype=float)
        require(len(x) == len(want), '%s: %s', label, x)
        n = int(digits[1])
        r = .5 * 10. ** -n if digits[0] == 'f' else .5 * 10. ** -n * np.abs(x) * 1.0001
        if digits == 'E1':
            r = .5 * 10. ** -1 * np.abs(x) * 1.0001
        err = np.abs(np.asarray(x) - want)
        require(np.all(err <= r * 1.0001 + 1e-8 * scale + (1.1e-4 if label.startswith('K') else 0.) + 1e-9),
                '%s is %s in the report, %s expected', label, x, want.tolist())


@contextlib.contextmanager
def silent():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


def next_to_plane(start, m, itermax, init):
    """The search ends with vertices in the vicinity of the waterplane when it is not restarted elsewhere"""
    W, cog, mass, tol, forces = start
    with silent():
        hs = Hydrostatics(mk(W, m.F), cog=cog, mass=mass, rho_water=m.rho, grav=m.g)
        hs.max_iterations, hs.max_restart, hs.reltol = itermax, 1, tol
        for p, v, mode in forces:
            hs.add_force(Force(point=p, value=v, name='f', mode=mode))
        hs.equilibrate(init_disp=init)
    return np.abs(np.asarray(hs.mesh.vertices)[:, 2]).min() < 5e-3


def check(case, ctx):
    V, F = gen.build(case['mesh'])
    ship = case['kind'] == 'ship'
    V = V.dot(gen.rotmat(case['angles']).T)
    lo, hi = V.min(axis=0), V.max(axis=0)
    V = V + [case['xy'][0], case['xy'][1], -(lo[2] + case['start'] * (hi[2] - lo[2]))]
    lo, hi = V.min(axis=0), V.max(axis=0)
    ext, mid = hi - lo, (lo + hi) / 2
    full = geom.volume_moments(geom.soup(V, F))[0]
    if full < 1e-3 * geom.size_of(V) ** 3:
        raise Reject('flat body')
    h0 = hydro.Hydro(V, F)
    if not h0.ok or h0.cut.slack > 1e-9 * h0.cut.size or h0.volume < 1e-3 * full or h0.wp_area < 1e-4 * geom.size_of(V) ** 2:
        raise Reject('no clear waterline')

    def place_cog(c):
        if ship:
            return np.array([mid[0] + c[0] * ext[0] * .04, mid[1] + c[1] * ext[1] * .03, lo[2] + ext[2] * (.2 + .1 * c[2])])
        return mid + .6 * ext * np.array(c)

    cog = place_cog(case['cog'])
    rho, g = case['rho'], case['g']
    mesh = mk(V, F)
    snap = snapshot(mesh)
    kw = dict(rho_water=rho, grav=g, cog=cog if case['array'] else some_form(cog))
    cog0 = cog.copy()
    m = Model(V, F, cog, g, rho)
    if case['mass']:
        m.mass = case['mass'] * full * rho
        kw['mass'] = m.mass / 1000.
    with silent():
        hs = Hydrostatics(mesh, **kw)
    require_unchanged(mesh, snap, 'mesh')
    hs.max_iterations = 150 if ship else 80
    hs.max_restart = case['restarts']
    if case['verbose']:
        hs.verbose_on()
    h = verify(hs, m, ctx)
    if m.mass is None:
        m.mass = hs.mass * 1000.
    if h is not None:
        check_report(hs, m, h)
    given = [(cog, cog0)]
    nmove = 0
    for op in case['ops']:
        kind, x = op
        try:
            with silent():
                if kind == 'g':
                    hs.gravity = m.g = x
                elif kind == 'rho':
                    if m.mass is not None and m.mass > .7 * x * full:
                        continue
                    hs.rho_water = m.rho = x
                elif kind == 'cog':
                    c = m.world(place_cog(x))
                    m.cog, m.reset_cog, m.zg_set = m.body(c), c.copy(), False
                    arg = some_form(c)
                    given.append((arg, c.copy()))
                    hs.gravity_center = arg
                elif kind == 'zg':
                    c = m.world(place_cog(x))
                    w = m.world(m.cog)
                    m.cog, m.zg_set = m.body([w[0], w[1], c[2]]), True
                    hs.zg = c[2]
                elif kind == 'mass':
                    m.mass = x * full * m.rho
                    hs.mass = m.mass / 1000.
                elif kind == 'heavy':
                    old = hs.mass
                    try:
                        hs.mass = x * full * m.rho / 1000.
                    except ValueError:
                        require(hs.is_sinking() or hs.mass == old, 'refused and not sinking')
                        hs.mass = old
                        require(not hs.is_sinking(), 'it is said to be sinking')
                    else:
                        raise Violation('a mass of %g is accepted for a body that displaces %g at most', x * full * m.rho,
                                        full * m.rho)
                elif kind == 'tol':
                    hs.reltol = x
                elif kind == 'unstable':
                    (hs.allow_unstable_on if x else hs.allow_unstable_off)()
                    require(hs.allow_unstable == x, 'allow_unstable')
                elif kind == 'force':
                    if len(m.forces) == 2:
                        continue
                    w = (m.mass or m.rho * full * .5) * m.g
                    p = m.world(mid + .3 * ext * np.array(x['point']))
                    v = w * (.01 if ship else .1) * np.array(x['value'])
                    if ship:
                        v[:2] *= .1
                    a, b = some_form(p), some_form(v)
                    f = Force(point=a, value=b, name='f', mode=x['mode'])
                    given += [(a, p.copy()), (b, v.copy())]
                    m.forces.append((f, m.body(p), v.copy(), x['mode'], m.R.copy()))
                    hs.add_force(f)
                elif kind == 'reset':
                    if m.forces:
                        continue
                    hs.reset()
                    m.R, m.t = np.eye(3), np.zeros(3)
                    require(np.array_equal(np.asarray(hs.mesh.vertices), V), 'reset does not give the initial mesh')
                    z = hs.gravity_center[2]
                    c = m.reset_cog.copy()
                    if m.zg_set:
                        # zg may or may not be kept
                        c[2] = z
                    m.cog = c
                elif kind == 'disp':
                    R0, t0 = m.R, m.t
                    m.mass = x * full * m.rho
                    dz = hs.set_displacement(m.mass / 1000.)
                    m.follow(hs)
                    require(np.abs(m.R - R0).max() < 1e-9, 'set_displacement rotates the body')
                    geom.close(m.t - t0, [0., 0., dz], 1e-8 * (m.s + np.abs(m.t).max()), 'set_displacement returns %g', dz)
                    nmove += 1
                elif kind == 'equil':
                    np.random.seed(x['seed'])
                    start = (np.array(hs.mesh.vertices), np.array(hs.gravity_center), hs.mass, hs.reltol,
                             [(np.array(f.point), np.array(f.value), mode) for f, _, _, mode, _ in m.forces])
                    code = hs.equilibrate(init_disp=x['init'])
                    nmove += 1
        except Violation:
            raise
        except Exception as exc:
            tame = kind in ('g', 'rho', 'cog', 'zg', 'mass', 'tol', 'unstable', 'force', 'reset')
            if tame or ship:
                raise Violation('%s: %s %s' % (kind, type(exc).__name__, exc.args))
            ctx.label('raised by %s: %s %s' % (kind, type(exc).__name__, str(exc)[:30]))
            break
        h = verify(hs, m, ctx)
        if h is None and ship and kind in ('disp', 'equil'):
            z = np.asarray(hs.mesh.vertices)[:, 2]
            require(z.min() < 0 < z.max(), 'the body is out of the water or under it')
        if h is not None and kind in ('disp', 'equil', 'reset'):
            check_report(hs, m, h)
        if kind == 'disp':
            ok = abs(hs.delta_fz) < hs.reltol * m.mass * m.g
            if ship and h is not None and np.abs(np.asarray(hs.mesh.vertices)[:, 2]).min() > 5e-3:
                require(ok, 'set_displacement: relative residual of %g', hs.delta_fz / (m.mass * m.g))
            ctx.label('disp converged' if ok else 'disp not converged')
        if kind == 'equil':
            ctx.label('code %d' % code)
            require(code in (0, 1, 2), 'code %s', code)
            require(code != 2 or hs.allow_unstable, 'an unstable equilibrium is returned, these are not allowed')
            require(code != 1 or hs.isstable(), 'the equilibrium returned as stable is not')
            require(code != 2 or not hs.isstable(), 'the equilibrium returned as unstable is stable')
            if code:
                # the horizontal position is reset: moments are the same, but for horizontal forces
                e = 0. if h is None else 1e-7 * np.abs(m.r / np.array([1., 1., 1.])).max()
                fz = abs(hs.delta_fz)
                require(fz <= hs.reltol * m.mass * m.g * (1 + 1e-6) + e, 'equilibrium code %d: vertical residual %g', code, fz)
                require(hs.is_at_equilibrium(), 'code %d is returned and the body is not at equilibrium: %s', code, hs.residual)
            geom.close(hs.gravity_center[:2], [0., 0.], 1e-9, 'the center of gravity is not on the vertical axis')
            if ship and code != 1 and (np.abs(np.asarray(hs.mesh.vertices)[:, 2]).min() < 5e-3 or
                                       next_to_plane(start, m, hs.max_iterations, x['init'])):
                # discontinuous in the vicinity of the waterplane, as for C12
                ctx.label('vertices next to the waterplane')
            elif ship:
                require(code == 1, 'no stable equilibrium is found: code %d', code)
        for a, b in given:
            require(np.array_equal(np.array(a, dtype=float), b), 'an array given by the caller has been modified')
        ctx.label(kind)
    require_unchanged(mesh, snap, 'mesh')
    ctx.label(case['kind'])
    ctx.nontrivial(nmove > 0)


def op_st(ship):
    unit = st.integers(-10, 10).map(lambda k: k / 10.)
    vec = st.tuples(unit, unit, unit).map(list)
    ratio = st.integers(30, 65).map(lambda k: k / 100.) if ship else st.integers(3, 97).map(lambda k: k / 100.)
    disp = st.tuples(st.just('disp'), ratio)
    equil = st.tuples(st.just('equil'), st.fixed_dictionaries({'init': st.just(True) if ship else st.booleans(),
                                                               'seed': st.integers(0, 5)}))
    return st.one_of(
        disp, disp, equil, equil,
        st.tuples(st.just('g'), st.sampled_from([9.81, 1., 9.80665])),
        st.tuples(st.just('rho'), st.sampled_from([1025., 1000., 1100.])),
        st.tuples(st.just('cog'), vec), st.tuples(st.just('zg'), vec), st.tuples(st.just('mass'), ratio),
        st.tuples(st.just('heavy'), st.sampled_from([1.01, 2.])), st.tuples(st.just('tol'), st.sampled_from([1e-4, 1e-6, 1e-3])),
        st.tuples(st.just('unstable'), st.booleans()), st.tuples(st.just('reset'), st.just(0)),
        st.tuples(st.just('force'), st.fixed_dictionaries({'point': vec, 'value': vec,
                                                           'mode': st.sampled_from(['relative', 'absolute'])}))).map(list)


def case_st(ship):
    import props.c12 as c12
    base = c12.case_st(True) if ship else None
    mesh = None
    if ship:
        mesh = base.map(lambda d: d['mesh'])
        ang = st.tuples(gen.num(-.06, .06), gen.num(-.04, .04), st.one_of(st.just(0.), gen.angle())).map(list)
        start = st.integers(25, 75).map(lambda k: k / 100.)
    else:
        mesh = gen.closed_mesh(max_bodies=2, smax=8.)
        ang = st.one_of(st.just([0., 0., 0.]), st.tuples(gen.num(-.5, .5), gen.num(-.5, .5), gen.angle()).map(list))
        start = st.integers(5, 95).map(lambda k: k / 100.)
    unit = st.integers(-10, 10).map(lambda k: k / 10.)
    return st.fixed_dictionaries({
        'kind': st.just('ship' if ship else 'any'), 'mesh': mesh, 'angles': ang, 'start': start,
        'xy': st.one_of(st.just([0., 0.]), st.tuples(gen.num(-6, 6), gen.num(-6, 6)).map(list)),
        'cog': st.tuples(unit, unit, unit).map(list), 'array': st.booleans(), 'verbose': st.booleans(),
        'rho': st.sampled_from([1023, 1025., 1000.]), 'g': st.sampled_from([9.81, 1.]),
        'mass': st.one_of(st.just(0.), st.integers(30, 65).map(lambda k: k / 100.)), 'restarts': st.sampled_from([1, 2]),
        'ops': st.one_of(st.lists(op_st(ship), min_size=2, max_size=8),
                         # resets, and resets again
                         st.lists(op_st(ship).filter(lambda o: o[0] not in ('force', 'heavy', 'tol')), min_size=1, max_size=4).map(
                             lambda l: [x for o in l for x in (o, ['reset', 0])]))})


def check_topheavy(case, ctx):
    """Upright boxes whose center of gravity is above their metacenter"""
    L, B, D = case['L'], case['B'], case['D']
    V, F = gen.build({'bodies': [{'shape': ['box', [1, 1, 1]], 'pos': [0., 0., 0.], 'rot': [0., 0., 0.], 'scale': [L, B, D]}],
                      'fperm': 0, 'gap': .25, 'shift': 0, 'split': 0, 'vperm': 0})
    L, B, D = np.ptp(V, axis=0)
    V = V - V.mean(axis=0)
    lo = V.min(axis=0)
    T = case['draft'] * D
    V = V - [0., 0., lo[2] + case['start'] * D]
    rho, g = 1025., 9.81
    mass = rho * L * B * T
    # KM = T/2 + B^2 / 12 T
    km = T / 2 + min(B, L) ** 2 / (12 * T)
    kg = km + case['over'] * D
    cog = np.array([0., 0., kg - case['start'] * D])
    mesh = mk(V, F)
    with silent():
        hs = Hydrostatics(mesh, cog=cog, mass=mass / 1000., rho_water=rho, grav=g)
        m = Model(V, F, cog, g, rho)
        m.mass = mass
        for name, x in (('theta_relax', case['theta']), ('z_relax', case['z'])):
            setattr(hs, name, x)
            require(getattr(hs, name) == x, name)
        hs.max_restart = case['restarts']
        hs.max_iterations = 400
        require(hs.max_restart == case['restarts'] and hs.max_iterations == 400, 'parameters of the solver')
        if case['allow']:
            hs.allow_unstable_on()
        if case['verbose']:
            hs.verbose_on()
        np.random.seed(case['seed'])
        for x in case['forces']:
            p, v = np.array(x['point']) * [L, B, D], mass * g * .01 * np.array(x['value'])
            f = Force(p, v, 'f', x['mode'])
            m.forces.append((f, m.body(p), v.copy(), x['mode'], m.R.copy()))
            hs.add_force(f)
        raised = False
        try:
            code = hs.equilibrate(init_disp=case['init'])
        except (RuntimeError, ValueError) as exc:
            if case['allow'] and case['init'] and not case['forces']:
                raise Violation('equilibrate: %s' % exc)
            raised = True
            # the search from a random position left the water, and says so
            code = 0
            ctx.label('raised')
        h = None if raised else verify(hs, m, ctx)
    require(np.array_equal(np.asarray(hs.vertices), np.asarray(hs.mesh.vertices)) and
            np.array_equal(np.asarray(hs.faces), F), 'vertices or faces')
    if case['allow'] and case['init'] and not case['forces']:
        require(code == 2, 'the unstable equilibrium (KG - KM = %g) is allowed: code %d', case['over'] * D, code)
        require(np.abs(m.R - np.eye(3)).max() < 1e-6, 'the body is not upright at its unstable equilibrium')
        require(not hs.isstable(), 'stable')
    else:
        require(code in ((0, 1, 2) if case['allow'] else (0, 1)), 'an unstable equilibrium is returned: code %d', code)
        require(code == 0 or hs.isstable() == (code == 1), 'stability')
    if code and h is not None:
        require(hs.is_at_equilibrium(), 'not at equilibrium')
        if not case['forces']:
            geom.close(h.volume, L * B * T, 1.01 * hs.reltol * L * B * T + 1e-8 * L * B * D, 'displacement at equilibrium')
    ctx.label('code %d' % code, 'allowed' if case['allow'] else None)
    ctx.nontrivial(True)


def check_force(case, ctx):
    """A force moved by hand, as the Hydrostatics class does"""
    p, v = np.array(case['point']), np.array(case['value'])
    p0, v0 = p.copy(), v.copy()
    f = Force(p, v, 'name', case['mode']) if case['mode'] != 'default' else Force(p, v)
    for x in case['ops']:
        if x[0] == 'xy':
            f.update_xy(x[1], x[2])
            p0 = p0 + [x[1], x[2], 0.]
        elif x[0] == 'z':
            f.update(dz=x[1])
            p0 = p0 + [0., 0., x[1]]
        else:
            R = gen.rotmat(x[2])
            f.update(dz=x[1], rot=R)
            p0 = R.dot(p0 + [0., 0., x[1]])
            if case['mode'] != 'absolute':
                v0 = R.dot(v0)
        geom.close(f.point, p0, 1e-10, 'application point')
        geom.close(f.value, v0, 1e-10, 'value')
        mo = np.cross(p0, v0)
        geom.close(f.hs_force, [v0[2], mo[0], mo[1]], 1e-9, 'vertical force and moments')
    require(np.array_equal(p, case['point']) and np.array_equal(v, case['value']), 'the arrays of the caller are modified')
    ctx.label(case['mode'])
    ctx.nontrivial(len(case['ops']) > 1)


PROPERTY = Property('C23', [
    Sub('ships', lambda: case_st(True), check, quick=600),
    Sub('any', lambda: case_st(False), check, quick=600),
    Sub('large', lambda: gen.with_large(case_st(False)), check, quick=60),
    Sub('topheavy', lambda: st.fixed_dictionaries({
        'L': gen.pos_num(4, 20), 'B': gen.pos_num(2, 10), 'D': gen.pos_num(2, 8),
        'draft': st.integers(20, 80).map(lambda k: k / 100.), 'start': st.integers(20, 80).map(lambda k: k / 100.),
        'over': st.sampled_from([.02, .1, .5]), 'theta': st.sampled_from([2., 1., 5.]), 'z': st.sampled_from([.1, .05, .5]),
        'restarts': st.sampled_from([1, 3]), 'allow': st.booleans(), 'verbose': st.booleans(), 'seed': st.integers(0, 5),
        'init': st.booleans(), 'forces': st.one_of(st.just([]), st.lists(st.fixed_dictionaries({
            'point': gen.vec3(-.5, .5), 'value': gen.vec3(-1, 1), 'mode': st.sampled_from(['relative', 'absolute'])}),
            min_size=1, max_size=2))}), check_topheavy, quick=250),
    Sub('forces', lambda: st.fixed_dictionaries({
        'point': gen.vec3(-5, 5), 'value': gen.vec3(-5, 5), 'mode': st.sampled_from(['relative', 'absolute', 'default']),
        'ops': st.lists(st.one_of(
            st.tuples(st.just('xy'), gen.num(-5, 5), gen.num(-5, 5)).map(list),
            st.tuples(st.just('z'), gen.num(-5, 5)).map(list),
            st.tuples(st.just('rot'), gen.num(-5, 5), st.tuples(gen.angle(), gen.angle(False), gen.angle()).map(list)).map(list)),
            min_size=1, max_size=5)}), check_force, quick=300),
], rule='Histories of changes (density, gravity, mass, center of gravity, forces, displacement, equilibrium, reset) of a '
        'Hydrostatics object; non-trivial: the body has been moved by the object.',
    assumptions=['watertight conformal meshes crossing the free surface with clear sections'])
