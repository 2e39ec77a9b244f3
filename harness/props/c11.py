"""C11: equilibrium in displacement: the altitude found gives the target displacement, or the failure is told"""
import contextlib
import io
import warnings

import numpy as np
from hypothesis import strategies as st

import gen
import geom
import hydro
from core import Property, Sub, Reject, Violation, require
from sut import mk, snapshot, require_unchanged
from meshmagick.hydrostatics import displacement_equilibrium


def solve(m, disp, rho, g, **kw):
    """z or None and what has been told"""
    out = io.StringIO()
    with warnings.catch_warnings(record=True) as w, contextlib.redirect_stdout(out):
        warnings.simplefilter('always')
        try:
            z = displacement_equilibrium(m, disp, rho, g, **kw)
        except Exception as exc:
            return None, ['%s %s' % (type(exc).__name__, exc.args)]
    told = [str(x.message) for x in w if 'Impossible' in str(x.message)]
    if 'No convergence' in out.getvalue():
        told.append('No convergence')
    return z, told


def bisect_z(V, F, vol, tol=1e-3):
    """Altitude giving a volume, with the oracle"""
    z = V[:, 2]
    lo, hi = -z.max(), -z.min()        # volume decreases with altitude
    for _ in range(60):
        mid = (lo + hi) / 2
        h = hydro.clip.Cut(V + [0, 0, mid], F, hydro.EZ, 0., 0.)
        v = geom.volume_moments(h.soup)[0]
        if v > vol:
            lo = mid
        else:
            hi = mid
    return (lo + hi) / 2


def check(case, ctx):
    V, F = gen.build(case['mesh'])
    R = gen.rotmat(case['angles'])
    V = V.dot(R.T)
    z = V[:, 2]
    H = z.max() - z.min()
    start = case['start']
    V = V + [0., 0., -(z.min() + start * H)]
    full = geom.volume_moments(geom.soup(V, F))[0]
    if full < 1e-3 * geom.size_of(V) ** 3:
        raise Reject('flat body')
    rho, g, rel = case['rho'], case['g'], case['reltol']
    target = case['ratio'] * full * rho
    m = mk(V, F)
    snap = snapshot(m)
    kw = {} if rel == 1e-6 else {'reltol': rel}
    if case['verbose']:
        kw['verbose'] = True
    cog = np.array([1., 2., 3.])
    if case['cog']:
        kw['cog'] = cog
    zc, told = solve(m, target / 1000., rho, g, **kw)
    require_unchanged(m, snap, 'mesh')
    require(np.array_equal(cog, [1., 2., 3.]), 'cog has been modified')
    easy = (case['kind'] == 'easy' and .05 <= case['ratio'] <= .95)
    if zc is not None and not told:
        h = hydro.Hydro(V, F, z=zc)
        s = h.cut.size
        # a vertex may be taken as lying on the plane when it is at most 1 mm away from it
        if h.ok:
            slack, vol = h.cut.tol_volume(), h.volume
        else:
            exact = hydro.clip.Cut(V + [0., 0., zc], F, hydro.EZ, 0., 0.)
            vol = geom.volume_moments(exact.soup)[0] if len(exact.soup) else 0.
            slack = 2e-3 * exact.area if np.abs(V[:, 2] + zc).min() < 1.1e-3 else 0.
        err = abs(vol * rho - target)
        require(err <= rel * target * (1 + 1e-6) + rho * (slack + 1e-9 * s ** 3),
                'displacement of %.9g for a target of %.9g without notice', vol * rho, target)
        ctx.label('converged')
    else:
        ctx.label('told: ' + (told[0][:25] if told else ''))
        if zc is not None and any('Impossible' in t for t in told):
            # it is really out of reach
            h = hydro.clip.Cut(V + [0, 0, -V[:, 2].max() + max(1e-4 * H, 2e-3)], F, hydro.EZ, 0., 0.)
            vmax = geom.volume_moments(h.soup)[0]
            require(target > rho * vmax * (1 - 1e-6) - 1e-9 * rho * h.size ** 3 - rho * h.area * 2e-3,
                    'a displacement of %.6g is said to be impossible, %.6g is reachable', target, rho * vmax)
            # and the limit that is told is the displacement in the position returned
            at = hydro.clip.Cut(V + [0., 0., zc], F, hydro.EZ, 0., 0.)
            got = rho * geom.volume_moments(at.soup)[0] if len(at.soup) else 0.
            limit = float([t for t in told if 'Impossible' in t][0].split('Limited to')[1].split()[0]) * 1000.
            require(abs(got - limit) <= .51 + 1e-6 * limit + rho * (2e-3 * at.area + 1e-9 * at.size ** 3),
                    'displacement limited to %.6g kg, %.6g kg in the position returned', limit, got)
            ctx.label('impossible')
        if easy:
            # clear of the vertices of the body, next to which the section is not exact
            zt = bisect_z(V, F, target / rho)
            easy = np.abs(V[:, 2] + zt).min() > 5e-3
        require(not easy, 'equilibrium not found: %s', told)
    ctx.label('start in water' if 0 < start < 1 else 'start under water' if start >= 1 else 'start above', case['kind'])
    ctx.nontrivial(abs(start - case['ratio']) > .01)


def case_st(easy):
    zero = st.just([0., 0., 0.])
    if easy:
        mesh = st.one_of(gen.closed_mesh(kinds=['box', 'prism'], rotated='z', smax=8.),
                         gen.closed_mesh(kinds=['box', 'sphere', 'hull'], rotated=None, smax=8.))
        start = st.integers(10, 90).map(lambda k: k / 100.)
        ratio = st.integers(10, 90).map(lambda k: k / 100.)
    else:
        mesh = gen.closed_mesh(max_bodies=2, smax=8.)
        start = st.one_of(st.integers(1, 99).map(lambda k: k / 100.), st.sampled_from([1.05, 2., -.1]))
        ratio = st.one_of(st.integers(1, 99).map(lambda k: k / 100.), st.sampled_from([.001, .999, 1.2]))
    return st.fixed_dictionaries({
        'kind': st.just('easy' if easy else 'any'), 'mesh': mesh,
        'angles': zero if easy else st.one_of(zero, st.tuples(gen.num(-.3, .3), gen.num(-.3, .3), st.just(0.)).map(list)),
        'start': start, 'ratio': ratio, 'rho': st.sampled_from([1025., 1000., 1.]), 'g': st.sampled_from([9.81, 1.]),
        'reltol': st.sampled_from([1e-6, 1e-6, 1e-8, 1e-3]), 'verbose': st.booleans(), 'cog': st.booleans()})


def deep_st():
    """Bodies under water, and targets next to their whole displacement"""
    return st.builds(lambda case, start, ratio: dict(case, start=start, ratio=ratio), gen.with_magnitude(st.one_of(
        case_st(True), case_st(False)), magnitudes=(3., 10., 30.)), st.sampled_from([1., 1.001, 1.05, 2.]),
        st.one_of(st.integers(1, 400).map(lambda k: 1. - k * 1e-4), gen.num(.05, 1.)))


PROPERTY = Property('C11', [
    Sub('ships', lambda: case_st(True), check, quick=400),
    Sub('any', lambda: case_st(False), check, quick=400),
    Sub('magnitude', lambda: gen.with_magnitude(case_st(True), magnitudes=(.2, 10., 30.)), check, quick=90),
    Sub('deep', deep_st, check, quick=240),
    Sub('large', lambda: gen.with_large(case_st(False)), check, quick=60),
], rule='Generated bodies, initial altitudes and target displacements; non-trivial: the target is not the initial '
        'displacement.',
    assumptions=['watertight conformal meshes'])
