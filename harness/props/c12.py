"""C12: equilibrium in displacement, heel and trim: forces balance in the configuration found"""
import contextlib
import io
import warnings

import numpy as np
from hypothesis import strategies as st

import gen
import geom
import hydro
from core import Property, Sub, Reject, Violation, require
from sut import mk, snapshot, require_unchanged, vector
from meshmagick.hydrostatics import full_equilibrium


def solve(*args, **kw):
    out = io.StringIO()
    with warnings.catch_warnings(record=True) as w, contextlib.redirect_stdout(out):
        warnings.simplefilter('always')
        try:
            res = full_equilibrium(*args, **kw)
        except Exception as exc:
            return None, ['%s %s' % (type(exc).__name__, exc.args)]
    told = [str(x.message) for x in w if 'Impossible' in str(x.message)]
    if 'No convergence' in out.getvalue():
        told.append('No convergence')
    return res, told


def check(case, ctx):
    V, F = gen.build(case['mesh'])
    R0 = gen.rotmat(case['angles'])
    lo, hi = V.min(axis=0), V.max(axis=0)
    ext = hi - lo
    full = geom.volume_moments(geom.soup(V, F))[0]
    if full < 1e-3 * geom.size_of(V) ** 3:
        raise Reject('flat body')
    rho, g, rel = case['rho'], case['g'], case['reltol']
    # altitude giving the displacement with the body upright: center of gravity on the vertical of this buoyancy center
    cx, cy, cz = case['cog']
    if case['kind'] == 'ship':
        T = ext[2] * case['ratio']
        mid = (lo + hi) / 2
        B = min(ext[0], ext[1])
        # low center of gravity and moderate offsets
        cog = np.array([mid[0] + cx * ext[0] * .05, mid[1] + cy * ext[1] * .05, lo[2] + T * (.3 + .2 * cz)])
    else:
        cog = lo + ext * (np.array([.5, .5, .5]) + .3 * np.array(case['cog']))
    V = V.dot(R0.T)
    cog = R0.dot(cog)
    z = V[:, 2]
    dz = -(z.min() + case['start'] * (z.max() - z.min()))
    V = V + [0., 0., dz]
    cog = cog + [0., 0., dz]
    target = case['ratio'] * full * rho
    m = mk(V, F)
    snap, cog0 = snapshot(m), cog.copy()
    arg = vector(cog, case['list'])
    kw = {} if rel == 1e-6 else {'reltol': rel}
    res, told = solve(m, arg, target / 1000., rho, g, **kw)
    require_unchanged(m, snap, 'mesh')
    require(np.array_equal(np.asarray(arg), cog0), 'cog has been modified')
    if res is not None:
        zc, R = res
        R = np.asarray(R)
        geom.close(R.dot(R.T), np.eye(3), 1e-9, 'the rotation found is not orthogonal')
        require(np.linalg.det(R) > 0, 'the rotation found is a reflection')
    if res is not None and not told:
        h = hydro.Hydro(V, F, R, zc)
        require(h.cut.crossing, 'the body does not cross the free surface in the configuration found')
        s = h.cut.size
        slack = 0. if h.cut.slack < 1e-9 * s else h.cut.tol_volume()
        err = abs(h.volume * rho - target)
        require(err <= rel * target * (1 + 1e-6) + rho * (slack + 1e-9 * s ** 3),
                'displacement of %.9g for a target of %.9g without notice', h.volume * rho, target)
        G = R.dot(cog) + [0., 0., zc]
        # moments with respect to the origin of the mesh, made non dimensional by the extents at the waterline
        P = np.array(list(h.cut.cross.values()) + list(h.W[h.cut.on]))
        if len(P):
            L, Bm = np.ptp(P[:, 0]), np.ptp(P[:, 1])
            mt = target
            r = np.array([h.volume * rho * h.B[1] - mt * G[1], -h.volume * rho * h.B[0] + mt * G[0]])
            lim = np.array([mt * Bm, mt * L]) * rel * (1 + 1e-6) + rho * (4 * slack + 1e-8 * s ** 3) * s
            require(np.all(np.abs(r) <= lim), 'weight and buoyancy are not on the same vertical: G=%s, B=%s', G, h.B)
        ctx.label('converged')
        ang = np.degrees(np.arccos(np.clip(R[2, 2], -1, 1)))
        ctx.label('rotation<1 deg' if ang < 1 else 'rotation<10 deg' if ang < 10 else 'rotation>10 deg')
    else:
        ctx.label('told: ' + told[0][:30])
        if res is not None and np.abs((V.dot(R.T) + [0., 0., zc])[:, 2]).min() < 5e-3:
            # vertices less than 1 mm away from the waterplane are taken as lying on it: a discontinuity, that the search
            # may not go across
            ctx.label('vertices next to the waterplane')
        else:
            require(case['kind'] != 'ship', 'equilibrium not found: %s', told)
    ctx.label(case['kind'])
    ctx.nontrivial(res is not None and not told)


def case_st(ship):
    if ship:
        dims = st.tuples(gen.pos_num(4, 12), gen.pos_num(3, 6), gen.pos_num(1, 2)).map(list)
        body = st.fixed_dictionaries({
            'shape': st.one_of(
                st.tuples(st.just('box'), st.tuples(st.integers(1, 4), st.integers(1, 3), st.integers(1, 3)).map(list)),
                st.tuples(st.just('prism'), st.integers(4, 8), st.integers(1, 3), st.sampled_from([1., 1.25]))
            ).map(list),
            'scale': dims, 'rot': st.just([0., 0., 0.]), 'pos': st.one_of(st.just([0., 0., 0.]), gen.vec3(-5, 5))})
        mesh = st.fixed_dictionaries({
            'bodies': st.lists(body, min_size=1, max_size=1), 'gap': st.just(1.),
            'split': st.one_of(st.just(0), gen.bits()), 'shift': gen.bits(), 'vperm': gen.bits(), 'fperm': gen.bits()})
        ratio = st.integers(30, 70).map(lambda k: k / 100.)
        start = st.integers(20, 80).map(lambda k: k / 100.)
        ang = st.tuples(gen.num(-.08, .08), gen.num(-.05, .05), st.one_of(st.just(0.), gen.angle())).map(list)
    else:
        mesh = gen.closed_mesh(max_bodies=2, smax=8.)
        ratio = st.integers(5, 95).map(lambda k: k / 100.)
        start = st.integers(5, 95).map(lambda k: k / 100.)
        ang = st.tuples(gen.num(-.5, .5), gen.num(-.5, .5), gen.angle()).map(list)
    return st.fixed_dictionaries({
        'kind': st.just('ship' if ship else 'any'), 'mesh': mesh, 'angles': ang, 'start': start, 'ratio': ratio,
        'cog': gen.vec3(-1, 1), 'list': st.sampled_from(['list', 'array', 'ints', 'int array', 'view', 'readonly']), 'rho': st.sampled_from([1025., 1000.]),
        'g': st.sampled_from([9.81, 1.]), 'reltol': st.sampled_from([1e-6, 1e-6, 1e-5, 1e-3])})


PROPERTY = Property('C12', [
    Sub('ships', lambda: case_st(True), check, quick=300),
    Sub('any', lambda: case_st(False), check, quick=200),
    Sub('magnitude', lambda: gen.with_magnitude(case_st(True), magnitudes=(.2, 10., 30.)), check, quick=90),
    Sub('large', lambda: gen.with_large(case_st(False)), check, quick=60),
], rule='Generated bodies, attitudes, displacements and centers of gravity; non-trivial: an equilibrium has been '
        'announced.',
    assumptions=['watertight conformal meshes'])
