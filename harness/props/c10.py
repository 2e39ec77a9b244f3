"""C10: hydrostatics of a configuration are those of the exact submerged body"""
import numpy as np
from hypothesis import strategies as st

import gen
import geom
import hydro
from core import Property, Sub, Reject, Violation, require
from sut import mk, snapshot, require_unchanged, outcome, quiet, some_form, some_scalar
from meshmagick.hydrostatics import compute_hydrostatics


def check(case, ctx):
    V, F = gen.build(case['mesh'])
    R, z = hydro.place(case['place'], V)
    rho, g = case['rho'], case['g']
    if case['pre']:
        # the placement is given to the mesh, not to the function
        V = V.dot(R.T) + [0., 0., z]
        R, z = np.eye(3), 0.
    h = hydro.Hydro(V, F, R, z)
    if not h.ok:
        raise Reject('tie or no crossing')
    s = h.cut.size
    if h.cut.slack > 1e-9 * s:
        raise Reject('vertices in the vicinity of the waterplane')
    if h.volume < 1e-4 * s ** 3 or h.wp_area < 1e-4 * s ** 2:
        raise Reject('nearly nothing in the water')
    cog = np.array(case['cog'])
    if case['at_cog']:
        # the center of gravity is on the vertical of the center of buoyancy
        wcog = np.array([h.B[0], h.B[1], case['cog'][2]])
        cog = h.back(wcog)
    else:
        wcog = R.dot(cog) + [0., 0., z]
    m = mk(V, F)
    snap, cog0, R0 = snapshot(m), cog.copy(), R.copy()
    kw = {}
    if not case['pre']:
        kw = {'rotmat_corr': R, 'z_corr': z}
    if case['lpp']:
        kw['lpp'] = case['lpp']
    if case['ap']:
        kw['orig_at_ap'] = True
    if case['warm']:
        m.faces_areas, m.get_surface_integrals(), m.vv
    arg = some_form(cog, bad=('float32', 'tuple'))
    d = compute_hydrostatics(m, arg, some_scalar(rho), some_scalar(g), at_cog=case['at_cog'], **kw)
    require_unchanged(m, snap, 'mesh')
    require(np.array_equal(np.array(arg, dtype=float), cog0) and np.array_equal(R, R0), 'the arguments have been modified')

    t = 1e-8
    geom.close(d['disp_volume'], h.volume, t * s ** 3, 'displacement volume')
    geom.close(d['disp_mass'], rho * h.volume, t * rho * s ** 3, 'displacement mass')
    geom.close(d['wet_surface_area'], h.wet_area, t * s ** 2, 'wetted surface')
    geom.close(d['waterplane_area'], h.wp_area, t * s ** 2, 'waterplane area')
    k = s ** 3 / h.volume
    geom.close(d['buoyancy_center'], h.back(h.B), t * s * k, 'buoyancy center')
    F0 = h.wp[1] / h.wp[0]
    ka = s ** 2 / h.wp_area
    if rho * g * h.wp_area * s * t > 0:
        # tiny stiffness coefficients are set to zero (1e-4), which bears on the flotation center
        geom.close(d['waterplane_center'], h.back(F0), t * s * ka + 2e-4 / (rho * g * h.wp_area), 'waterplane center')
    ref = h.B[:2] if case['at_cog'] else np.zeros(2)
    K, sxx, syy = hydro.stiffness(h, rho, g, wcog[2], ref)
    sg = max(s, float(np.abs(wcog).max()))
    geom.close(d['stiffness_matrix'], K, t * rho * g * sg ** 4 + 1.1e-4, 'stiffness matrix')
    require(np.array_equal(d['stiffness_matrix'], d['stiffness_matrix'].T), 'the stiffness matrix is not symmetric')
    geom.close(d['transversal_metacentric_radius'], syy / h.volume, t * s * k, 'transversal metacentric radius')
    geom.close(d['longitudinal_metacentric_radius'], sxx / h.volume, t * s * k, 'longitudinal metacentric radius')
    gb = h.B[2] - wcog[2]
    geom.close(d['transversal_metacentric_height'], syy / h.volume + gb, t * sg * k, 'GMt')
    geom.close(d['longitudinal_metacentric_height'], sxx / h.volume + gb, t * sg * k, 'GMl')
    # extents
    T = h.cut.soup.reshape(-1, 3)
    lo, hi = T.min(axis=0), T.max(axis=0)
    geom.close(d['length_overall_submerged'], hi[0] - lo[0], t * s, 'length overall submerged')
    geom.close(d['breadth_overall_submerged'], hi[1] - lo[1], t * s, 'breadth overall submerged')
    geom.close(d['draught'], -lo[2], t * s, 'draught')
    if h.cut.generic:
        P = np.array(list(h.cut.cross.values()))
        lwl, bwl, fp = np.ptp(P[:, 0]), np.ptp(P[:, 1]), P[:, 0].max()
        geom.close(d['length_at_waterline'], lwl, t * s, 'length at waterline')
        geom.close(d['breadth_at_waterline'], bwl, t * s, 'breadth at waterline')
        geom.close(d['breadth'], bwl, t * s, 'breadth')
        geom.close(d['forward_perpendicular'], fp, t * s, 'forward perpendicular')
        lpp = case['lpp'] or (fp if case['ap'] else lwl)
        geom.close(d['length_between_perpendiculars'], lpp, t * s, 'length between perpendiculars')
    require(bool(d['trust_lpp']) == bool(case['lpp'] or case['ap']), 'trust in the length between perpendiculars')
    # inertia of the homogeneous immersed hull at the center of gravity
    I = h.inertia_at(rho, wcog)
    got = np.array([d['Ixx'], d['Iyy'], d['Izz'], d['Ixy'], d['Ixz'], d['Iyz']])
    exp = np.array([I[0, 0], I[1, 1], I[2, 2], -I[0, 1], -I[0, 2], -I[1, 2]])
    geom.close(got, exp, t * rho * s ** 3 * sg ** 2, 'inertia of the homogeneous immersed hull')
    # what describes the configuration
    require(d['grav'] == g and d['rho_water'] == rho, 'gravity and density in the data')
    geom.close(d['cog'], cog, 0., 'cog in the data')
    geom.close(d['z_eq'], z, 0., 'altitude in the data')
    geom.close(d['rotmat_eq'], R, 0., 'rotation in the data')
    require(np.array_equal(d['mesh'].vertices, V) and np.array_equal(d['mesh'].faces, F), 'mesh in the data')
    require(d['mesh'] is not m, 'the mesh in the data is the one of the caller')
    nl, _ = h.cut.generic and h.cut.chains() or (0, 0)
    ctx.label('at cog' if case['at_cog'] else 'at origin', 'generic' if h.cut.generic else 'on',
              'polygons:%d' % min(nl, 3), 'rotated' if not np.allclose(R, np.eye(3)) else 'upright',
              *gen.mesh_labels(case['mesh'], F))
    ctx.nontrivial(True)


def check_warped(case, ctx):
    """Quadrangles of files are never exactly flat, as their coordinates are rounded: such bodies are watertight all the
    same, and the hydrostatics are those of the triangulated body but for the warp"""
    V, F = gen.build(case['mesh'])
    R, z = hydro.place(case['place'], V)
    V = V.dot(R.T) + [0., 0., z]
    s = geom.extent(V)
    w = case['warp'] * s
    V = V + np.random.RandomState(case['seed']).uniform(-w, w, V.shape)
    T02 = np.array([t + t[:1] for p in geom.polys_of(F) for t in ([p] if len(p) == 3 else [p[:3], [p[0], p[2], p[3]]])])
    h = hydro.Hydro(V, T02)
    if not h.ok or not h.cut.separated:
        raise Reject('tie or no crossing')
    if np.abs(V[:, 2]).min() < 2e-3:
        raise Reject('vertices in the vicinity of the waterplane')
    polys = geom.polys_of(F)
    if not any(len(p) == 4 for p in polys):
        raise Reject('no quadrangle')
    if h.volume < 1e-3 * s ** 3 or h.wp_area < 1e-3 * s ** 2:
        raise Reject('nearly nothing in the water')
    rho, g = case['rho'], case['g']
    cog = np.array(case['cog'])
    m = mk(V, F)
    snap = snapshot(m)
    d = compute_hydrostatics(m, cog, rho, g, at_cog=False)
    require_unchanged(m, snap, 'mesh')
    t = 1e-8 + 30 * case['warp']
    k, ka = s ** 3 / h.volume, s ** 2 / h.wp_area
    sg = max(s, float(np.abs(cog).max()), float(np.abs(V).max()))
    geom.close(d['disp_volume'], h.volume, t * s ** 3, 'displacement volume')
    geom.close(d['disp_mass'], rho * d['disp_volume'], 1e-9 * rho * s ** 3, 'displacement mass')
    geom.close(d['wet_surface_area'], h.wet_area, t * s ** 2, 'wetted surface')
    geom.close(d['waterplane_area'], h.wp_area, t * s ** 2, 'waterplane area')
    geom.close(d['buoyancy_center'], h.B, t * sg * k, 'buoyancy center')
    K, sxx, syy = hydro.stiffness(h, rho, g, cog[2], np.zeros(2))
    geom.close(d['stiffness_matrix'], K, t * rho * g * sg ** 4 + 1.1e-4, 'stiffness matrix')
    lo, hi = V.min(axis=0), V.max(axis=0)
    geom.close(d['draught'], -lo[2], 1e-9 * s, 'draught')
    c = h.cut.soup.reshape(-1, 3)
    geom.close(d['length_overall_submerged'], np.ptp(c[:, 0]), t * s, 'length overall submerged')
    geom.close(d['breadth_overall_submerged'], np.ptp(c[:, 1]), t * s, 'breadth overall submerged')
    geom.close(d['transversal_metacentric_radius'], syy / h.volume, t * sg * k ** 2, 'transversal metacentric radius')
    geom.close(d['longitudinal_metacentric_radius'], sxx / h.volume, t * sg * k ** 2, 'longitudinal metacentric radius')
    ctx.label('warp %g' % case['warp'], 'cut quadrangles' if any(
        len(p) == 4 and V[p, 2].min() < 0 < V[p, 2].max() for p in polys) else None)
    ctx.nontrivial(True)


def check_refused(case, ctx):
    """Meshes that do not cross the waterplane or that are not watertight are refused"""
    V, F = gen.build(case['mesh'])
    z = V[:, 2]
    if case['how'] == 'above':
        dz = -z.min() + case['dist']
    elif case['how'] == 'below':
        dz = -z.max() - case['dist']
    else:
        dz = -(z.min() + case['frac'] * (z.max() - z.min()))
        V = V + [0., 0., dz]
        cut = hydro.clip.Cut(V, F, hydro.EZ, 0., 1e-3)
        if not cut.generic or not cut.crossing or not cut.cross or not cut.separated:
            raise Reject('not generic')
        ch = cut.chains()
        if ch is None or ch[1] == 0:
            raise Reject('no open line')
        dz = 0.
    m = mk(V + [0., 0., dz], F)
    snap = snapshot(m)
    try:
        compute_hydrostatics(m, np.zeros(3), 1025., 9.81)
    except RuntimeError:
        require_unchanged(m, snap, 'mesh')
        ctx.nontrivial(True)
        ctx.label(case['how'])
        return
    raise Violation('hydrostatics of a mesh that is %s' % case['how'])


def case_st(mesh=None):
    return st.fixed_dictionaries({
        'mesh': mesh or gen.closed_mesh(max_bodies=3, big=True, smax=8.), 'place': hydro.placement_st(),
        'rho': st.sampled_from([1025., 1000., 1., 1023.5]), 'g': st.sampled_from([9.81, 1., 9.80665]),
        'pre': st.booleans(), 'cog': gen.vec3(-5, 5), 'at_cog': st.booleans(),
        'lpp': st.one_of(st.just(0.), gen.pos_num(1, 9)), 'ap': st.booleans(), 'warm': st.booleans()})


PROPERTY = Property('C10', [
    Sub('values', case_st, check, quick=2000),
    Sub('touching', lambda: case_st(gen.closed_mesh(kinds=['voxels'], max_bodies=2, smax=6.)).map(lambda c: dict(c, warm=False)), check,
        quick=500),
    Sub('warped', lambda: st.fixed_dictionaries({
        'mesh': st.builds(lambda m, k: dict(m, split=k), gen.closed_mesh(
            kinds=['box', 'prism', 'sphere', 'torus'], max_bodies=2, big=True, smax=8.), st.one_of(
                st.just(0), gen.bits())),
        'place': st.builds(lambda p, f: dict(p, mode='frac', frac=f), hydro.placement_st(), st.integers(20, 90).map(
            lambda k: k / 100. + .0037)), 'warp': st.sampled_from([1e-9, 1e-7, 1e-6, 1e-5, 1e-4, 1e-3]), 'seed': st.integers(0, 10 ** 6),
        'rho': st.sampled_from([1025., 1000., 1.]), 'g': st.sampled_from([9.81, 1.]), 'cog': gen.vec3(-5, 5)}),
        check_warped, quick=1000),
    Sub('refused', lambda: st.one_of(
        st.fixed_dictionaries({'mesh': gen.closed_mesh(max_bodies=2, smax=8.), 'dist': gen.pos_num(.002, 4),
                               'how': st.sampled_from(['above', 'below'])}),
        st.fixed_dictionaries({'mesh': gen.open_mesh(smax=8.), 'frac': st.integers(5, 95).map(lambda k: k / 100.),
                               'how': st.just('not watertight')})), check_refused, quick=600),
    Sub('large', lambda: gen.with_large(case_st()), check, quick=60),
    Sub('magnitude', lambda: gen.with_magnitude(case_st(), magnitudes=(.1, 10., 40.)), check, quick=300),
], rule='Generated watertight bodies, placements and centers of gravity; non-trivial: the body really crosses the '
        'waterplane (significant volume and waterplane area).',
    assumptions=['watertight conformal meshes with outward normals and faces that are flat, or almost (the warp is bounded by 1/1000 of '
                 'the size, and the tolerance is 30 times the warp)',
                 'at_cog is used with a center of gravity on the vertical of the center of buoyancy (equilibrium), as '
                 'the command line does'])
