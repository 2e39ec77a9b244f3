"""C13: hydrostatic reports and the hydrostatics of the command line give the quantities of the configuration"""
import os

import numpy as np
from hypothesis import strategies as st

import clirun
import gen
import geom
import hydro
import mfiles as meshio
import report
from core import Property, Sub, Reject, Violation, require
from sut import mk, quiet
from props import c12
from meshmagick.hydrostatics import compute_hydrostatics, get_hydrostatic_report


def usable(h):
    if not h.ok:
        raise Reject('tie or no crossing')
    s = h.cut.size
    if h.cut.slack > 1e-9 * s:
        raise Reject('vertices in the vicinity of the waterplane')
    if h.volume < 1e-3 * s ** 3 or h.wp_area < 1e-3 * s ** 2:
        raise Reject('nearly nothing in the water')
    if len(h.cut.cross) + h.cut.on.sum() < 3:
        raise Reject('no waterline')
    if not h.cut.generic:
        raise Reject('vertices on the waterplane')


def check_report(case, ctx):
    V, F = gen.build(case['mesh'])
    V = V * case['scale']
    R, z = hydro.place(case['place'], V)
    rho, g = case['rho'], case['g']
    h = hydro.Hydro(V, F, R, z)
    usable(h)
    if case['at_cog']:
        wcog = np.array([h.B[0], h.B[1], case['cog'][2]])
        cog = h.back(wcog)
    else:
        cog = np.array(case['cog'])
        wcog = R.dot(cog) + [0., 0., z]
    if case['edge']:
        # next to the limit of stability
        gm = report.expected(h, rho, g, wcog, h.B[:2] if case['at_cog'] else np.zeros(2), case['lpp'], case['ap'])[2 + case['edge'][0]]
        wcog[2] += gm - case['edge'][1]
        cog = h.back(wcog)
    with quiet():
        d = compute_hydrostatics(mk(V, F), cog, rho, g, at_cog=case['at_cog'], rotmat_corr=R, z_corr=z,
                                 **({'lpp': case['lpp']} if case['lpp'] else {}), orig_at_ap=case['ap'])
        text = get_hydrostatic_report(d)
    if abs(R[2, 0]) > .9999:
        raise Reject('gimbal lock')
    exp = report.expected(h, rho, g, wcog, h.B[:2] if case['at_cog'] else np.zeros(2), case['lpp'], case['ap'])
    report.compare(text, exp, 2e-8)
    ctx.label('unstable' if 'UNSTABLE' in text else 'stable', 'lpp' if exp[1] else 'no lpp')
    ctx.nontrivial(True)


def cycle(p):
    k = p.index(min(p))
    return p[k:] + p[:k]


def rigid(V, W):
    """Rotation and translation such that W = R V + t"""
    cv, cw = V.mean(axis=0), W.mean(axis=0)
    U, _, Vt = np.linalg.svd((W - cw).T.dot(V - cv))
    D = np.diag([1., 1., np.sign(np.linalg.det(U.dot(Vt)))])
    R = U.dot(D).dot(Vt)
    return R, cw - R.dot(cv)


def check_cli(case, ctx):
    V, F = gen.build(case['mesh'])
    R0 = gen.rotmat(case['angles'])
    lo, hi = V.min(axis=0), V.max(axis=0)
    ext = hi - lo
    full = geom.volume_moments(geom.soup(V, F))[0]
    if full < 1e-3 * geom.size_of(V) ** 3:
        raise Reject('flat body')
    mode, rho, g = case['mode'], case['rho'], case['g']
    T = ext[2] * case['ratio']
    mid = (lo + hi) / 2
    cx, cy, cz = case['cog']
    cog = np.array([mid[0] + cx * ext[0] * .05, mid[1] + cy * ext[1] * .05, lo[2] + T * (.3 + .2 * cz)])
    V = V.dot(R0.T)
    cog = R0.dot(cog)
    zz = V[:, 2]
    dz = -(zz.min() + case['start'] * (zz.max() - zz.min()))
    V = V + [0., 0., dz]
    cog = cog + [0., 0., dz]
    target = case['ratio'] * full * rho
    name = case['format']
    moves = []
    V_in = V
    if case['moved']:
        # the hull is put in place by the command line itself
        k, rz, dx, dz = case['moved']
        moves = ['-s', clirun.num(k), '-rz', clirun.num(rz), '-tx', clirun.num(dx), '-tz', clirun.num(dz)]
        V_in = V.dot(gen.rotmat([0., 0., np.radians(rz)])) / k - [dx, 0., dz]
    o = {'num': 'e', 'pad': 0, 'crlf': False, 'per_line': 3, 'sections': 1, 'mixed': False}
    files, _ = meshio.WRITERS[name](V_in.tolist(), geom.polys_of(F), o)
    fn, = files
    with open(fn, 'w') as f:
        f.write(files[fn])
    out, rep = clirun.fresh('out.nat', 'report.txt')
    args = [os.path.join(os.getcwd(), fn), '-hs', '-o', out, '--hs-report', rep] + moves
    if rho != 1025.:
        args += ['-wd', clirun.num(rho)]
    if g != 9.81:
        args += ['--grav', clirun.num(g)]
    if case['quiet']:
        args += ['-q']
    if case['lpp']:
        args += ['--lpp', clirun.num(case['lpp'])]
    if case['ap']:
        args += ['-ap']
    if mode in ('zcog', 'disp'):
        args += ['-zg', clirun.num(cog[2])]
    if mode in ('disp', 'full'):
        args += ['-mdisp', clirun.num(target / 1000.)]
    if mode in ('full', 'cog'):
        args += ['-cog'] + [clirun.num(c) for c in cog]
        if case['redundant']:
            # ignored, with a warning
            args += ['-zg', clirun.num(cog[2] + case['redundant'])]
    h0 = hydro.Hydro(V, F)
    if mode in ('zcog', 'cog'):
        usable(h0)
        target = h0.volume * rho
    exc, text = clirun.run_cli(args)
    if exc is not None and case['kind'] != 'ship' and mode in ('full', 'cog'):
        raise Reject('no equilibrium')
    if exc is not None:
        raise Violation('the command line ends by %s %s' % (type(exc).__name__, exc))
    if 'No convergence' in text:
        raise Reject('not converged')
    require(os.path.isfile(out), 'no mesh is written')
    with open(out) as f:
        W, P = meshio.read_nat(f.read())
    W = np.array(W)
    require(W.shape == V.shape and [cycle(p) for p in P] == [cycle(p) for p in geom.polys_of(F)],
            'the mesh written is not the one given')
    R, t = rigid(V, W)
    s = geom.size_of(V)
    require(np.abs(V.dot(R.T) + t - W).max() < 3e-6 * s, 'the mesh written is not moved as a rigid body')
    require(np.abs(t[:2]).max() < 2e-5 * s, 'the mesh has been translated horizontally by %s', t)
    if mode in ('zcog', 'disp'):
        require(np.abs(R - np.eye(3)).max() < 1e-5, 'the mesh has been rotated')
    if mode == 'zcog':
        require(abs(t[2]) < 1e-5 * s, 'the mesh has been moved')
    h = hydro.Hydro(V, F, R, t[2])
    usable(h)
    require(abs(h.volume * rho - target) < 1e-5 * rho * s ** 3, 'displacement of %.9g, %.9g expected',
            h.volume * rho, target)
    if mode in ('zcog', 'disp'):
        wcog = np.array([h.B[0], h.B[1], cog[2] + t[2]])
    else:
        wcog = R.dot(cog) + [0., 0., t[2]]
        require(np.abs(wcog[:2] - h.B[:2]).max() < 1e-4 * s, 'weight and buoyancy are not on the same vertical: G=%s, '
                'B=%s', wcog, h.B)
    exp = report.expected(h, rho, g, wcog, wcog[:2], case['lpp'], case['ap'])
    k = text.find('HYDROSTATIC REPORT')
    require(k >= 0, 'no report is printed')
    # errors on the attitude recovered from the file are around 1e-6
    report.compare(text[k:], exp, 1e-4)
    with open(rep) as f:
        saved = f.read()
    k2 = saved.find('HYDROSTATIC REPORT')
    require(k2 >= 0, 'no report in the file')
    require(report.parse(saved[k2:]) == report.parse(text[k:]), 'the report of the file differs from the one printed')
    # the corrections that are reported lead from the mesh given to the one that is written
    c = dict(report.parse(text[k:]))
    hz, he, tr = c['Z CORRECTION (M)'][0], c['HEEL CORRECTION (DEG)'][0], c['TRIM CORRECTION (DEG)'][0]
    Rr = gen.rotmat([np.radians(he), np.radians(tr), 0.])
    yaw = report.cardan(R)[2]
    Rr = gen.rotmat([0., 0., np.radians(yaw)]).dot(Rr)
    require(np.abs(V.dot(Rr.T) + [0., 0., hz] - W).max() < 1e-3 + 5e-5 * s, 'the corrections of the report do not give the '
            'mesh that is written')
    ctx.label('moved' if moves else None, 'redundant zcog' if case['redundant'] and mode in ('full', 'cog') else None)
    ctx.label(mode, name, 'lpp' if exp[1] else 'no lpp', 'yaw>0.01 deg' if abs(yaw) > .01 else None)
    ctx.nontrivial(True)


def check_cli_refused(case, ctx):
    V, F = gen.build(case['mesh'])
    lo, hi = V.min(axis=0), V.max(axis=0)
    V = V - [0., 0., lo[2] + .5 * (hi[2] - lo[2])]
    kind = case['kind']
    if kind == 'out':
        V = V - [0., 0., V[:, 2].min() - .1]
    o = {'num': 'e', 'pad': 0, 'crlf': False, 'per_line': 3, 'sections': 1, 'mixed': False}
    files, _ = meshio.WRITERS['nat'](V.tolist(), geom.polys_of(F), o)
    fn, = files
    with open(fn, 'w') as f:
        f.write(files[fn])
    out, rep = clirun.fresh('out.nat', 'report.txt')
    args = [os.path.join(os.getcwd(), fn), '-hs', '-o', out, '--hs-report', rep]
    args += {'no zcog': [], 'disp without zcog': ['-mdisp', '1.'], 'two coordinates': ['-cog', '0', '0'],
             'density': ['-zg', '0.', '-wd', 'HEAVY_WATER'], 'displacement': ['-zg', '0.', '-mdisp', 'ten'],
             'out': ['-zg', '0.'], 'out cog': ['-cog', '0', '0', '0'], 'gravity': ['-zg', '0.', '--grav', 'g']}[kind]
    if case['quiet']:
        args += ['-q']
    exc, text = clirun.run_cli(args)
    require(exc is not None, '%s: a hydrostatic computation is made', kind)
    require('HYDROSTATIC REPORT' not in text, '%s: a report is printed', kind)
    require(not os.path.exists(out) and not os.path.exists(rep), '%s: files are written', kind)
    ctx.label(kind)
    ctx.nontrivial(True)


def cli_st():
    base = c12.case_st(True)
    return st.tuples(base, st.fixed_dictionaries({
        'mode': st.sampled_from(['zcog', 'disp', 'full', 'cog']), 'format': st.sampled_from(['mar', 'nat', 'hst']),
        'quiet': st.booleans(), 'redundant': st.sampled_from([0., 0., 1., -3.]), 'moved': st.one_of(st.none(), st.tuples(
            st.sampled_from([2., .5, 3.]), st.sampled_from([30., -75., 180.]), gen.num(-5, 5), gen.num(-5, 5)).map(list)),
        'lpp': st.one_of(st.just(0.), gen.pos_num(1, 9)), 'ap': st.booleans()})).map(
        lambda t: dict(t[0], **t[1]))


PROPERTY = Property('C13', [
    Sub('report', lambda: st.fixed_dictionaries({
        'mesh': gen.closed_mesh(max_bodies=2, smax=8.), 'scale': st.sampled_from([1., 1., 10., 30.]),
        'place': hydro.placement_st(), 'rho': st.sampled_from([1025., 1000., 1., 1023.5]),
        'g': st.sampled_from([9.81, 1., 9.80665]), 'cog': gen.vec3(-5, 5), 'at_cog': st.booleans(),
        'lpp': st.one_of(st.just(0.), gen.pos_num(1, 9)), 'ap': st.booleans(),
        'edge': st.one_of(st.none(), st.none(), st.tuples(st.integers(0, 1), st.sampled_from(
            [1e-5, -1e-5, 1e-4, -1e-4, 2e-3, -2e-3, -.1])).map(list))}), check_report, quick=1500),
    Sub('cli', cli_st, check_cli, quick=400),
    Sub('magnitude', lambda: gen.with_magnitude(cli_st(), magnitudes=(.2, .2, 10., 30.)), check_cli, quick=120),
    Sub('large', lambda: gen.with_large(cli_st().map(lambda c: dict(c, kind='any')), max_bodies=1), check_cli, quick=60),
    Sub('cli_refused', lambda: st.fixed_dictionaries({
        'mesh': gen.closed_mesh(max_bodies=1, smax=5.), 'quiet': st.booleans(),
        'kind': st.sampled_from(['no zcog', 'disp without zcog', 'two coordinates', 'density', 'displacement', 'out',
                                 'gravity'])}), check_cli_refused, quick=100),
], rule='Reports of generated configurations are parsed and every line is compared to the oracle; the command line is run '
        'on files in its four modes and the mesh that it writes is compared to the configuration of its report; '
        'non-trivial: the body crosses the waterplane and its waterline is not degenerated.',
    assumptions=['values are compared with the number of digits that are printed'])
