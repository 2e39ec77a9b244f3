"""C04: connectivities, boundaries and closedness against a brute-force edge map"""
from collections import Counter

import numpy as np
from hypothesis import strategies as st

import gen
import geom
from core import Property, Sub, Reject, require
from sut import mk, snapshot, require_unchanged, outcome


def build(case):
    V, F = gen.build(case['mesh'])
    V, F = gen.add_darts(V, F, case.get('darts'))
    F = F.copy()
    for i in range(len(F)):
        if (case['flip'] >> (i % 60)) & 1:
            F[i] = F[i][::-1]
    if case['unused']:
        k = case['unused']
        V = np.concatenate((V[:1] + np.arange(1, k + 1)[:, None] * 0.37, V))
        F = F + k
    return V, F


def check(case, ctx):
    V, F = build(case)
    m = mk(V, F)
    snap = snapshot(m)
    polys = geom.polys_of(F)
    und = geom.undirected(F)
    nv, nf = len(V), len(F)
    vv = dict((i, set()) for i in range(nv))
    vf = dict((i, set()) for i in range(nv))
    ff = dict((i, set()) for i in range(nf))
    for (a, b), faces in und.items():
        vv[a].add(b)
        vv[b].add(a)
        if len(faces) == 2:
            ff[faces[0]].add(faces[1])
            ff[faces[1]].add(faces[0])
    for i, p in enumerate(polys):
        for a in p:
            vf[a].add(i)
    order = case['order']
    for q in order:
        if q == 'vv':
            got = m.vv
            for i in range(nv):
                require(set(map(int, got.get(i, ()))) == vv[i], 'vertices adjacent to vertex %d: %s, expected %s', i,
                        got.get(i), vv[i])
        elif q == 'vf':
            got = m.vf
            for i in range(nv):
                require(set(map(int, got.get(i, ()))) == vf[i], 'faces around vertex %d: %s, expected %s', i,
                        got.get(i), vf[i])
        elif q == 'ff':
            got = m.ff
            for i in range(nf):
                require(set(map(int, got.get(i, ()))) == ff[i], 'faces adjacent to face %d: %s, expected %s', i,
                        got.get(i), ff[i])
        elif q == 'closed':
            closed = all(len(f) == 2 for f in und.values())
            require(bool(m.is_mesh_closed()) == closed, 'the mesh is reported %s, %d boundary edges',
                    'closed' if m.is_mesh_closed() else 'open', sum(len(f) == 1 for f in und.values()))
        elif q == 'boundaries':
            got = m.boundaries
            require(m.nb_boundaries == len(got), 'number of boundaries')
            consistent = geom.consistent(F)
            bedges = set(e for e, f in und.items() if len(f) == 1)
            seen = Counter()
            for b in got:
                b = [int(x) for x in b]
                require(len(b) >= 3 and b[0] == b[-1], 'boundary %s is not a closed polygon', b)
                for u, v in zip(b[:-1], b[1:]):
                    seen[(min(u, v), max(u, v))] += 1
            for e, k in seen.items():
                require(e in bedges, 'edge %s of a boundary belongs to %d faces', e, len(und.get(e, ())))
                require(k == 1, 'edge %s is found %d times in boundaries', e, k)
            if consistent:
                require(set(seen) == bedges, '%d boundary edges are missing in boundaries', len(bedges - set(seen)))
                out = Counter(v for e in bedges for v in e)
                if all(k == 2 for k in out.values()):
                    # simple boundaries: loops are defined without ambiguity
                    expected = loops(bedges)
                    require(sorted(geom.canon_unoriented(b[:-1]) for b in got) == expected, 'boundaries: %s',
                            [list(map(int, b)) for b in got])
                    ctx.label('%d simple boundaries' % min(len(expected), 3))
                else:
                    ctx.label('pinched boundary')
            else:
                ctx.label('inconsistent')
        require_unchanged(m, snap, q)
    ctx.label(*gen.mesh_labels(case['mesh'], F))
    if case.get('darts'):
        ctx.label('darts')
    ctx.nontrivial(True)


def check_conformal(case, ctx):
    """Edges that are split on one of their sides only make a mesh that is not conformal"""
    V, F = gen.build(case['mesh'])
    polys = geom.polys_of(F)
    und = geom.undirected(F)
    inner = sorted(e for e, f in und.items() if len(f) == 2)
    busy, splits = set(), 0
    for x in case['split']:
        if not inner:
            break
        a, b = inner[x % len(inner)]
        f, g = und[(a, b)]
        if busy & {a, b} or f in busy or polys[f] is None:
            continue
        q = polys[f]
        i = next(i for i in range(len(q)) if {q[i], q[(i + 1) % len(q)]} == {a, b})
        q = q[i:] + q[:i]
        V = np.concatenate((V, [(V[a] + V[b]) / 2]))
        m = len(V) - 1
        polys[f] = None
        polys += [[q[0], m, q[-1]], [m, q[1], q[2]]] + ([[m, q[2], q[3]]] if len(q) == 4 else [])
        busy |= {a, b}
        splits += 1
    polys = [p for p in polys if p is not None]
    k = case['first'] % len(polys)
    polys = polys[k:] + polys[:k]
    F = np.array([p + p[:1] if len(p) == 3 else p for p in polys])
    und = geom.undirected(F)
    bedges = [e for e, f in und.items() if len(f) == 1]
    degree = Counter(v for e in bedges for v in e)
    if any(d != 2 for d in degree.values()) or any(len(f) > 2 for f in und.values()):
        raise Reject('boundaries that touch each other')
    flat = 0
    for b in loops(bedges):
        q = V[list(b)]
        A = np.abs(np.cross(q, np.roll(q, -1, axis=0)).sum(axis=0)).max()
        if 1e-10 < A < 1e-5:
            raise Reject('very small boundary')
        if A <= 1e-10 and len(b) > 3:
            raise Reject('collapsed hole')
        flat += A <= 1e-10
    m = mk(V, F)
    snap = snapshot(m)
    if case['warm']:
        m.is_mesh_closed()
    got = m.is_mesh_conformal()
    require(got in (True, False) and bool(got) == (flat == 0), 'conformal: %s, %d edges are split on one side only', got, flat)
    require(bool(m.is_mesh_closed()) == (not bedges), 'closed')
    require_unchanged(m, snap, 'mesh')
    ctx.label('splits:%d' % flat, 'holes:%d' % min(2, len(loops(bedges)) - flat))
    ctx.nontrivial(len(bedges) > 0)


def check_touching(case, ctx):
    """Edges that belong to more than two faces: either they are refused, whatever is asked and however many times, or everything is
    right"""
    V, F = build(case)
    und = geom.undirected(F)
    many = any(len(f) > 2 for f in und.values())
    m = mk(V, F)
    snap = snapshot(m)
    ask = {'vv': lambda: m.vv, 'vf': lambda: m.vf, 'ff': lambda: m.ff, 'closed': m.is_mesh_closed, 'boundaries': lambda: m.boundaries,
           'conformal': m.is_mesh_conformal}
    refused = 0
    for q in case['order'] + case['again']:
        got = outcome(ask[q])
        require_unchanged(m, snap, q)
        if got[0] == 'exc':
            require(many, '%s: %s', q, got[1])
            refused += 1
    n = len(case['order'] + case['again'])
    require(refused in (0, n), 'the connectivity is refused %d times, and given %d times', refused, n - refused)
    if not refused:
        check(dict(case, bare=True), ctx)
    ctx.label('refused' if refused else 'given')
    ctx.nontrivial(many)


def loops(edges):
    nxt = {}
    for a, b in edges:
        nxt.setdefault(a, []).append(b)
        nxt.setdefault(b, []).append(a)
    out, seen = [], set()
    for start in sorted(nxt):
        if start in seen:
            continue
        loop = [start]
        seen.add(start)
        prev, cur = start, nxt[start][0]
        while cur != start:
            loop.append(cur)
            seen.add(cur)
            a, b = nxt[cur]
            prev, cur = cur, (b if a == prev else a)
        out.append(geom.canon_unoriented(loop))
    return sorted(out)


def darts():
    return st.one_of(st.just([]), st.just([]), st.lists(st.integers(0, 800), min_size=1, max_size=3))


def case_st(mesh=None):
    return st.fixed_dictionaries({
        'mesh': mesh if mesh is not None else st.one_of(gen.closed_mesh(max_bodies=2), gen.open_mesh(max_bodies=2), gen.open_mesh(big=True)),
        'flip': st.one_of(st.just(0), st.just(0), gen.bits()),
        'darts': darts(),
        'unused': st.sampled_from([0, 0, 0, 1, 2]),
        'order': st.permutations(['vv', 'vf', 'ff', 'closed', 'boundaries']),
    })


PROPERTY = Property('C04', [
    Sub('connectivity', case_st, check, quick=3000),
    Sub('conformal', lambda: st.fixed_dictionaries({
        'mesh': st.one_of(gen.closed_mesh(max_bodies=2), gen.open_mesh(max_bodies=2)), 'warm': st.booleans(),
        'first': st.integers(0, 30), 'split': st.lists(st.integers(0, 200), max_size=3)}), check_conformal, quick=1000),
    Sub('touching', lambda: st.builds(lambda c, k: dict(c, again=k, order=list(c['order'])), case_st(gen.any_mesh(
        kinds=['voxels'], max_bodies=2)), st.lists(st.sampled_from(['vv', 'vf', 'ff', 'closed', 'boundaries', 'conformal']), min_size=1,
                                                   max_size=3)), check_touching, quick=400),
    Sub('large', lambda: gen.with_large(case_st(), False), check, quick=40),
    Sub('magnitude', lambda: gen.with_magnitude(case_st()), check, quick=500),
], rule='Generated conformal meshes, closed or with removed faces, one or two bodies, possibly inconsistently oriented '
        'and with unused vertices; queries in any order. All are non-trivial (distinct ones are counted).',
    assumptions=['conformal meshes whose edges belong to one or two faces'])
