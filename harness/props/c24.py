"""C24: objects are independent of one another and of the arrays that have been given or returned"""
import os

import numpy as np
from hypothesis import strategies as st

import gen
import geom
import mfiles as meshio
from core import Property, Sub, Reject, Violation, require
from sut import Mesh, Plane, mk, snapshot, outcome, quiet
from meshmagick.mesh_clipper import MeshClipper
from meshmagick.hydrostatics import compute_hydrostatics, displacement_equilibrium, full_equilibrium
from meshmagick.inertia import RigidBodyInertia
from meshmagick import mmio
import props.c01 as c01

READS = ['vertices', 'faces', 'faces_areas', 'faces_normals', 'faces_centers', 'triangles_ids', 'quadrangles_ids', 'vv',
         'vf', 'ff', 'boundaries', 'integrals', 'bbox', 'square', 'face']
DERIVE = ['copy', 'extract', 'add', 'clip', 'clipped', 'file', 'rebuild', 'hydro', 'index', 'equil', 'equil', 'inertia']
IN_PLACE = {'rotate_x', 'rotate_y', 'rotate_z', 'rotate', 'rotate_matrix', 'translate_x', 'translate_y', 'translate_z',
            'translate', 'scale', 'scalex', 'scaley', 'scalez', 'flip_normals', 'merge_duplicates', 'heal_normals',
            'remove_unused_vertices', 'heal_triangles', 'remove_degenerated_faces', 'heal_mesh', 'triangulate_quadrangles',
            'merge_tol', 'mirror', 'symmetrize', 'set_vertices', 'set_faces'}


def read(m, what, k):
    if what == 'integrals':
        return m.get_surface_integrals()
    if what == 'bbox':
        return m.axis_aligned_bbox
    if what == 'square':
        return m.squared_axis_aligned_bbox
    if what == 'face':
        return m.get_face(k % m.nb_faces)
    return getattr(m, what)


def freeze(x):
    """Comparable value, independent of x"""
    if isinstance(x, np.ndarray):
        return ('a', x.shape, x.dtype.str, x.tobytes())
    if isinstance(x, dict):
        return ('d', tuple(sorted((int(k), freeze(v)) for k, v in x.items())))
    if isinstance(x, (set, frozenset)):
        return ('s', tuple(sorted(int(v) for v in x)))
    if isinstance(x, (list, tuple)):
        return ('l', tuple(freeze(v) for v in x))
    return x if isinstance(x, (int, float, bool, str)) else x.item() if isinstance(x, np.generic) else repr(x)


class Pool(object):
    def __init__(self, ctx):
        self.meshes = []       # [mesh, snapshot, description]
        self.held = []         # (object, frozen value, description)
        self.inertias = []     # [inertia, frozen value]
        self.ctx = ctx

    def add(self, m, what):
        if m.nb_faces and m.nb_faces < 600 and len(self.meshes) < 8 and not any(x[0] is m for x in self.meshes):
            self.meshes.append([m, snapshot(m), what])

    def hold(self, x, what):
        self.held.append((x, freeze(x), what))

    def verify(self, changed, when):
        for e in self.meshes:
            m, (V, F), what = e
            if m is changed:
                e[1] = snapshot(m)
                continue
            require(np.array_equal(V, m.vertices) and np.array_equal(F, m.faces), '%s: another mesh (%s) is modified', when, what)
        for i, value in self.inertias:
            require(inertia_values(i) == value, '%s: another inertia is modified', when)
        for x, value, what in self.held:
            require(freeze(x) == value, '%s: %s is modified', when, what)


def inertia_values(i):
    return freeze([np.array(i.mass), np.array(i.gravity_center), np.array(i.inertia_matrix), np.array(i.reduction_point)])


def equilibria(m, cog, x, z, pool, ctx):
    """The equilibrium functions on a copy of the mesh whose middle is at z = 0"""
    e = m.copy()
    e.translate_z(-z)
    pool.add(e, 'mesh given to the equilibrium')
    snap = snapshot(e)
    vol = abs(float(e.volume))
    tons = 1.025 * vol * (.3 + .04 * x)
    res = outcome(lambda: displacement_equilibrium(e, tons, 1025., 9.81, cog, reltol=1e-3))
    if res[0] == 'ok':
        res = outcome(lambda: full_equilibrium(e, cog, tons, 1025., 9.81, reltol=1e-2))
        if res[0] == 'ok':
            pool.hold(res[1][1], 'rotation returned by the equilibrium')
            ctx.label('equilibrium')
    # default values of arguments are not shared
    res = outcome(lambda: compute_hydrostatics(e, cog, 1025., 9.81))
    if res[0] == 'ok':
        require(np.array_equal(res[1]['rotmat_eq'], np.eye(3)) and res[1]['z_eq'] == 0., 'default corrections are modified')
        pool.hold(res[1]['rotmat_eq'], 'rotation of the hydrostatics')
    require(np.array_equal(snap[0], e.vertices) and np.array_equal(snap[1], e.faces), 'equilibrium: the mesh is modified')


def closed(m):
    """Every edge is shared by two faces, whose orientations agree"""
    seen = {}
    for f in np.asarray(m.faces).tolist():
        f = [v for n, v in enumerate(f) if v != f[n - 1]]
        for n, v in enumerate(f):
            seen[f[n - 1], v] = seen.get((f[n - 1], v), 0) + 1
    return all(n == 1 and seen.get(e[::-1]) == 1 for e, n in seen.items())


def check(case, ctx):
    pool = Pool(ctx)
    for r in case['meshes']:
        V, F = c01.build_messy(r)
        V, F = np.array(V, dtype=float), np.array(F, dtype=int)
        m = Mesh(V, F)
        pool.add(m, 'initial')
        if r['scribble']:
            V[:] = -7.
            F[:] = 0
        else:
            pool.hold(V, 'array of vertices given to Mesh')
            pool.hold(F, 'array of faces given to Mesh')
    planes = []
    done = []
    kinds = set()
    for k, which, op in case['steps']:
        m = pool.meshes[which % len(pool.meshes)][0]
        name = op[0]
        changed = None
        done.append(name)
        when = 'after ' + ','.join(done)
        if name == 'read':
            for what in op[1]:
                res = outcome(lambda: read(m, what, k))
                if res[0] == 'ok':
                    pool.hold(res[1], '%s obtained earlier' % what)
            kinds.add('read')
        elif name in IN_PLACE:
            if m.nb_faces > 250 and name in ('symmetrize', 'triangulate_quadrangles'):
                continue
            changed = m
            with quiet():
                if name == 'set_vertices':
                    v = np.array(m.vertices) * np.array(op[1])
                    m.vertices = v
                    pool.hold(v, 'array of vertices given to the setter')
                elif name == 'set_faces':
                    f = np.array(m.faces)[::-1].copy()
                    m.faces = f
                    pool.hold(f, 'array of faces given to the setter')
                elif name == 'rotate_matrix':
                    R = gen.rotmat(op[1])
                    pool.hold(R, 'rotation matrix given')
                    m.rotate_matrix(R)
                elif name == 'rotate':
                    a = np.array(op[1])
                    pool.hold(a, 'angles given')
                    pool.hold(m.rotate(a), 'rotation matrix returned')
                elif name == 'translate':
                    a = np.array(op[1])
                    pool.hold(a, 'translation given')
                    m.translate(a)
                elif name in ('mirror', 'symmetrize'):
                    p = c01.plane_of(op[1])
                    n, c = p.normal.copy(), p.c
                    outcome(lambda: getattr(m, name)(p))
                    require(np.array_equal(n, p.normal) and c == p.c, '%s: the plane is modified', when)
                else:
                    outcome(lambda: c01.apply_op(m, op))
            kinds.add('changed')
            if m.nb_faces == 0:
                break
        elif name == 'query':
            for q in op[1]:
                outcome(lambda: c01.q_value(m, q))
        elif name == 'plane':
            p = planes[which % len(planes)] if planes and op[1] != 'new' else None
            if p is None:
                n = np.array(op[2])
                planes.append(Plane(n, op[3]))
                pool.hold(n, 'normal given to Plane')
            else:
                pool.hold(p.normal, 'normal obtained earlier')
                if op[1] == 'flip':
                    p.flip_normal()
                elif op[1] == 'rotate':
                    p.rotate_normal(op[3] / 9., op[2][0])
                elif op[1] == 'angles':
                    p.set_normal_from_angles(op[2][0], op[3] / 9.)
                elif op[1] == 'set':
                    n = np.array(op[2])
                    p.normal = n
                    pool.hold(n, 'normal given to the plane')
                elif op[1] == 'params':
                    p.set_plane_parameters(op[3], op[2][0], op[2][1])
                kinds.add('plane')
        elif name == 'derive':
            how = op[1]
            with quiet():
                if how == 'copy':
                    pool.add(m.copy(), 'copy')
                elif how == 'extract':
                    ids = np.array([i for i in range(m.nb_faces) if (k >> (i % 50)) & 1] or [0])
                    pool.hold(ids, 'indices given to extract_faces')
                    res = m.extract_faces(ids, return_index=True)
                    pool.add(res[0], 'extracted')
                    pool.hold(res[1], 'indices returned by extract_faces')
                elif how == 'index':
                    changed = m
                    pool.hold(m.merge_duplicates(return_index=True), 'indices returned by merge_duplicates')
                elif how == 'add':
                    other = pool.meshes[k % len(pool.meshes)][0]
                    if m.nb_faces + other.nb_faces < 500:
                        res = outcome(lambda: m + other)
                        if res[0] == 'ok':
                            pool.add(res[1], 'sum')
                elif how in ('clip', 'clipped'):
                    if planes and k % 2:
                        p = planes[k % len(planes)]
                    else:
                        V = np.asarray(m.vertices)
                        n = np.array(op[2])
                        n /= np.linalg.norm(n)
                        d = V.dot(n)
                        p = Plane(n, d.min() + op[3] * (d.max() - d.min()))
                    n, c = p.normal.copy(), p.c
                    res = outcome(lambda: MeshClipper(m, p))
                    require(np.array_equal(n, p.normal) and c == p.c, '%s: the plane is modified', when)
                    if res[0] == 'ok':
                        cl = res[1]
                        for part in (['clipped_mesh'] if how == 'clipped' else
                                     ['lower_mesh', 'upper_mesh', 'crown_mesh', 'clipped_crown_mesh']):
                            part_mesh = outcome(lambda: getattr(cl, part))
                            if part_mesh[0] == 'ok' and isinstance(part_mesh[1], Mesh):
                                require(part_mesh[1] is not m, '%s: %s is the source mesh itself', when, part)
                                pool.add(part_mesh[1], part)
                elif how == 'file':
                    f = 'x.' + ['nat', 'obj', 'stl', 'vtp', 'hst', 'gdf'][k % 6]
                    V, F = m.vertices, m.faces
                    pool.hold(V, 'vertices given to write_mesh')
                    pool.hold(F, 'faces given to write_mesh')
                    mmio.write_mesh(f, V, F, f[2:])
                    V, F = mmio.load_mesh(f, f[2:])
                    m2 = Mesh(V, F)
                    pool.hold(V, 'vertices that were loaded')
                    pool.hold(F, 'faces that were loaded')
                    pool.add(m2, 'loaded')
                elif how == 'rebuild':
                    pool.add(Mesh(m.vertices, m.faces), 'built on the vertices and faces of another one')
                elif how == 'hydro':
                    cog = np.array(op[2])
                    R = gen.rotmat(op[2])
                    pool.hold(cog, 'cog given')
                    pool.hold(R, 'rotation given')
                    z = float(np.asarray(m.vertices)[:, 2].mean())
                    res = outcome(lambda: compute_hydrostatics(m, cog, 1025., 9.81, z_corr=-z, rotmat_corr=R))
                    if res[0] == 'ok':
                        for key, x in res[1].items():
                            if isinstance(x, np.ndarray):
                                pool.hold(x, '%s of the hydrostatics' % key)
                            elif isinstance(x, Mesh):
                                require(x is not m, '%s: the mesh of the hydrostatics is the one of the caller', when)
                                pool.add(x, 'mesh of the hydrostatics')
                        ctx.label('hydrostatics')
                elif how == 'equil':
                    cog = np.array(op[2])
                    pool.hold(cog, 'cog given')
                    m = ([x[0] for x in pool.meshes if x[0].nb_faces < 120 and closed(x[0])] or [m])[0]
                    z = float(np.asarray(m.vertices)[:, 2].mean())
                    if m.nb_faces < 120 and closed(m):
                        equilibria(m, cog, op[3], z, pool, ctx)
                elif how == 'inertia' and m.nb_faces < 250:
                    for res in (outcome(lambda: m.eval_plain_mesh_inertias(1000.)),
                                outcome(lambda: m.eval_shell_mesh_inertias(7850., .01))):
                        if res[0] == 'ok' and len(pool.inertias) < 6:
                            pool.inertias.append([res[1], inertia_values(res[1])])
            kinds.add('derived')
            ctx.label('derive:' + how)
        elif name == 'inertia' and pool.inertias:
            e = pool.inertias[which % len(pool.inertias)]
            for what in ('gravity_center', 'inertia_matrix', 'reduction_point'):
                if k & 1:
                    pool.hold(getattr(e[0], what), what + ' obtained earlier')
            a = np.array(op[2])
            pool.hold(a, 'point given to an inertia')
            if op[1] == 'at_cog' and len(pool.inertias) < 6:
                i = e[0].at_cog
                pool.inertias.append([i, inertia_values(i)])
            elif op[1] == 'point':
                e[0].reduction_point = a
            elif op[1] == 'cog':
                e[0].set_cog(a)
            elif op[1] == 'shift':
                e[0].shift_at_cog()
            elif op[1] == 'new' and len(pool.inertias) < 6:
                b = a + 1.
                pool.hold(b, 'reduction point given')
                i = RigidBodyInertia(2., a, 3., 4., 5., .1, .2, .3, point=b if k & 2 else None)
                pool.inertias.append([i, inertia_values(i)])
            e[1] = inertia_values(e[0])
            kinds.add('changed')
        pool.verify(changed, when)
        ctx.label('op:' + name)
    # what every object tells is about its own data
    for m, (V, F), what in pool.meshes:
        if m.nb_faces == 0:
            continue
        fresh = mk(V, F)
        for q in ('areas', 'normals', 'centers', 'bbox', 'boundaries', 'integrals', 'ids'):
            c01.compare(m, fresh, q, 'after %s (%s)' % (','.join(done), what))
    ctx.nontrivial('changed' in kinds and ('derived' in kinds or 'read' in kinds))


def case_st():
    mesh = st.one_of(c01.case_st(True), c01.case_st(False)).map(lambda c: {'mesh': c['mesh'], 'messy': c['messy']})
    mesh = st.tuples(mesh, st.booleans()).map(lambda t: dict(t[0], scribble=t[1]))
    unit = gen.vec3(-1, 1).filter(lambda n: sum(x * x for x in n) > 0.01)
    frac = st.integers(-1, 11).map(lambda k: k / 10. + .013)
    ops = {
        'change': c01.op_st().filter(lambda o: o[0] in IN_PLACE),
        'read': st.tuples(st.just('read'), st.lists(st.sampled_from(READS), min_size=2, max_size=5)).map(list),
        'query': st.tuples(st.just('query'), st.lists(st.sampled_from(c01.QUERIES), min_size=1, max_size=4)).map(list),
        'derive': st.tuples(st.just('derive'), st.sampled_from(DERIVE), unit, frac).map(list),
        'inertia': st.tuples(st.just('inertia'), st.sampled_from(['at_cog', 'point', 'cog', 'shift', 'new']), unit).map(list),
        'plane': st.tuples(st.just('plane'), st.sampled_from(['new', 'flip', 'rotate', 'angles', 'set', 'params']), unit,
                           gen.num(-8, 8)).map(list)}
    op = st.sampled_from(['change', 'change', 'change', 'read', 'read', 'query', 'derive', 'derive', 'derive', 'inertia', 'plane']).flatmap(
        lambda k: ops[k])
    return st.fixed_dictionaries({
        'meshes': st.lists(mesh, min_size=1, max_size=2),
        'steps': st.lists(st.tuples(gen.bits(), st.integers(0, 7), op).map(list), min_size=3, max_size=12)})


PROPERTY = Property('C24', [
    Sub('pool', case_st, check, quick=2500),
], rule='Histories of operations on a pool of meshes and planes that are derived from one another; non-trivial: an object '
        'is modified while another one has been derived or values have been read.',
    assumptions=['arrays that are returned are not written by the caller'])
