"""Hydrostatics oracle (no code under test in here)"""
import numpy as np
from hypothesis import strategies as st

import clip
import gen
import geom
from core import harness, Reject

EZ = np.array([0., 0., 1.])


class Hydro(object):
    """Hydrostatics of the watertight mesh (V, F) moved by x -> R x + z, water below z = 0"""

    @harness
    def __init__(self, V, F, R=np.eye(3), z=0., tol=1e-3):
        self.R, self.z = R, z
        W = V.dot(R.T) + np.array([0., 0., z])
        self.cut = clip.Cut(W, F, EZ, 0., tol)
        self.W = W
        self.ok = self.cut.crossing and not self.cut.tie
        if not self.ok:
            return
        T = self.cut.soup
        self.wet_area = float(np.linalg.norm(geom.tri_vec(T), axis=1).sum())
        self.volume, m1, m2 = geom.volume_moments(T)
        self.B = m1 / self.volume if self.volume > 0 else np.full(3, np.nan)
        self.m2 = m2
        self.wp = self.cut.lid()
        self.wp_area = self.wp[0]

    def back(self, p):
        """A point of the moved frame in the initial frame"""
        return self.R.T.dot(np.asarray(p) - [0., 0., self.z])

    def inertia_at(self, rho, point):
        p = np.asarray(point, dtype=float)
        m1 = self.B * self.volume
        m2 = self.m2 - np.outer(p, m1) - np.outer(m1, p) + self.volume * np.outer(p, p)
        return rho * geom.inertia_from_m2(m2)


def stiffness(h, rho, g, zg, ref):
    """3x3 stiffness (heave, roll, pitch) with respect to the vertical axis through ref"""
    a, s1, s2 = h.wp
    x, y = ref
    sx, sy = s1[0] - a * x, s1[1] - a * y
    sxx = s2[0, 0] - 2 * x * s1[0] + a * x * x
    syy = s2[1, 1] - 2 * y * s1[1] + a * y * y
    sxy = s2[0, 1] - x * s1[1] - y * s1[0] + a * x * y
    bg = h.volume * (h.B[2] - zg)
    rg = rho * g
    return rg * np.array([[a, sy, -sx], [sy, syy + bg, -sxy], [-sx, -sxy, sxx + bg]]), sxx, syy


def placement_st(small=False):
    """Rotation and altitude given by a fraction of the height"""
    if small:
        ang = st.tuples(gen.num(-.3, .3), gen.num(-.3, .3), st.just(0.)).map(list)
    else:
        ang = st.one_of(st.just([0., 0., 0.]), st.tuples(gen.num(-.3, .3), gen.num(-.3, .3), gen.angle()).map(list),
                        st.tuples(gen.angle(), gen.angle(False), gen.angle()).map(list))
    return st.fixed_dictionaries({
        'angles': ang, 'mode': st.sampled_from(['frac', 'frac', 'frac', 'vertex']),
        'frac': st.one_of(st.integers(5, 95).map(lambda k: k / 100.), st.just(.5)), 'vertex': st.integers(0, 200)})


@harness
def place(p, V):
    R = gen.rotmat(p['angles'])
    z = V.dot(R.T)[:, 2]
    lo, hi = z.min(), z.max()
    if p['mode'] == 'vertex':
        inside = np.where((z > lo + 1e-2) & (z < hi - 1e-2))[0]
        if len(inside):
            return R, -float(z[inside[p['vertex'] % len(inside)]])
    return R, -float(lo + p['frac'] * (hi - lo))
