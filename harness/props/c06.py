"""C06: healing makes normals consistent and outward and recovers the surface of an altered mesh"""
import numpy as np
from hypothesis import strategies as st

import gen
import geom
from core import Property, Sub, require
from sut import mk
from props.c01 import build_messy, messy
from props.c04 import darts


def flip_faces(F, bits, flip_all):
    G = F.copy()
    n = 0
    for i in range(len(G)):
        if (bits >> (i % 60)) & 1:
            G[i] = G[i][::-1]
            n += 1
    if flip_all:
        G = G[:, ::-1].copy()
    return G, n


def warm_up(m, warm):
    for w in warm:
        if w == 'props':
            m.faces_normals
        elif w == 'conn':
            m.ff
        elif w == 'integrals':
            m.get_surface_integrals()


WARM = st.lists(st.sampled_from(['props', 'conn', 'integrals']), max_size=2)


def check_closed(case, ctx):
    """Closed connected surfaces: the outward orientation is found back for every face"""
    V, F = gen.build(case['mesh'])
    G, n = flip_faces(F, case['flip'], case['all'])
    m = mk(V, G)
    warm_up(m, case['warm'])
    if case['verbose']:
        m.verbose_on()
    m.heal_normals()
    require(np.array_equal(m.vertices, V), 'vertices have been modified')
    geom.check_faces_valid(m.vertices, m.faces, 'after healing')
    require(len(m.faces) == len(F), 'the number of faces has changed')
    got = sorted(geom.canon_cycle(p) for p in geom.polys_of(m.faces))
    exp = sorted(geom.canon_cycle(p) for p in geom.polys_of(F))
    inv = sorted(geom.canon_cycle(p[::-1]) for p in geom.polys_of(F))
    require(got != inv, 'every normal is inward after healing a closed mesh')
    require(got == exp, 'faces are not consistently oriented outward after healing')
    vol = geom.volume_moments(geom.soup(V, F), V.mean(axis=0))[0]
    geom.close(m.volume, vol, 1e-9 * geom.size_of(V) ** 3, 'volume after healing')
    ctx.label(*gen.mesh_labels(case['mesh'], F))
    ctx.nontrivial(n > 0 or case['all'])


def check_components(case, ctx):
    """Any conformal orientable surface: each component gets a consistent orientation; nothing else is modified"""
    V, F = gen.build(case['mesh'])
    V, F = gen.add_darts(V, F, case.get('darts'))
    G, n = flip_faces(F, case['flip'], case['all'])
    m = mk(V, G)
    warm_up(m, case['warm'])
    m.heal_normals()
    require(np.array_equal(m.vertices, V), 'vertices have been modified')
    geom.check_faces_valid(m.vertices, m.faces, 'after healing')
    H = np.asarray(m.faces)
    got = sorted(geom.canon_unoriented(p) for p in geom.polys_of(H))
    exp = sorted(geom.canon_unoriented(p) for p in geom.polys_of(F))
    require(got == exp, 'faces are not the initial ones (up to their orientation)')
    require(geom.consistent(H), 'orientations are not consistent after healing')
    if n == 0 and not geom.is_closed(F):
        same = sorted(geom.canon_cycle(p) for p in geom.polys_of(H))
        want = sorted(geom.canon_cycle(p) for p in geom.polys_of(G))
        require(same == want, 'the orientation of a consistent open mesh has been modified')
    if n == 0 and geom.is_closed(F) and not case.get('darts'):
        # (areas of faces, which outwardness is decided with, are those of convex quadrangles)
        # components that agree on their orientation become outward all together
        same = sorted(geom.canon_cycle(p) for p in geom.polys_of(H))
        want = sorted(geom.canon_cycle(p) for p in geom.polys_of(F))
        require(same == want, 'bodies that are all outward, or all inward, are not outward after healing')
        ctx.label('all outward or inward')
    nb = len(geom.components(F))
    ctx.label('%d components' % min(nb, 4), *gen.mesh_labels(case['mesh'], F))
    if case.get('darts'):
        ctx.label('darts')
    ctx.nontrivial(n > 0)


def check_heal_mesh(case, ctx):
    """heal_mesh on an altered closed mesh gives the initial surface back, outward"""
    V, F = gen.build(case['mesh'])
    W, G = build_messy(case)
    m = mk(W, G)
    if case['warm']:
        m.faces_areas, m.get_surface_integrals()
    m.heal_mesh()
    geom.check_faces_valid(m.vertices, m.faces, 'after healing')
    geom.require_same_surface(m.vertices, m.faces, V, F, 1e-7, 'surface after healing')
    nv = len(np.unique(F))
    require(m.nb_vertices == nv, '%d vertices after healing, %d expected', m.nb_vertices, nv)
    require(bool(m.is_mesh_closed()), 'the healed mesh is reported open')
    x = case['messy']
    ctx.label(*[k for k in x if x[k]])
    ctx.nontrivial(any(x.values()))


PROPERTY = Property('C06', [
    Sub('closed', lambda: st.fixed_dictionaries({
        'mesh': gen.closed_mesh(), 'flip': gen.bits(), 'all': st.booleans(), 'warm': WARM, 'verbose': st.booleans()}),
        check_closed, quick=2000),
    Sub('components', lambda: st.fixed_dictionaries({
        'mesh': gen.any_mesh(max_bodies=3), 'darts': darts(), 'flip': st.one_of(st.just(0), gen.bits(), gen.bits()), 'all': st.booleans(), 'warm': WARM}),
        check_components, quick=2000),
    Sub('heal_mesh', lambda: st.fixed_dictionaries({
        'mesh': gen.closed_mesh(smax=6.), 'messy': messy(), 'warm': st.booleans()}), check_heal_mesh, quick=1500),
    Sub('large', lambda: gen.with_large(st.fixed_dictionaries({
        'mesh': gen.closed_mesh(), 'darts': darts(), 'flip': st.one_of(gen.bits(), gen.bits()), 'all': st.booleans(),
        'warm': WARM}), False), check_components, quick=40),
    Sub('large_heal_mesh', lambda: gen.with_large(st.fixed_dictionaries({
        'mesh': gen.closed_mesh(), 'messy': messy(), 'warm': st.booleans()}), max_bodies=1), check_heal_mesh, quick=30),
    Sub('magnitude', lambda: gen.with_magnitude(st.fixed_dictionaries({
        'mesh': gen.closed_mesh(), 'flip': gen.bits(), 'all': st.booleans(), 'warm': WARM, 'verbose': st.booleans()})),
        check_closed, quick=400),
], rule='Surfaces some faces of which are reversed on purpose (and, for heal_mesh, vertices duplicated or unused, '
        'triangles badly described, collapsed faces); non-trivial: at least one alteration is effective.',
    assumptions=['outwardness is required for connected closed surfaces only (documented limitation)'])
