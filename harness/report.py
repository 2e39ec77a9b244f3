"""Text of the hydrostatic report: parsing, and values that the oracle expects"""
import re

import numpy as np

import hydro
from core import require


def parse(text):
    """[(label, [numbers])], notes"""
    lines = []
    for s in text.split('\n'):
        m = re.match(r'^\t(\S.*?)-*>  (.*)$', s)
        if m:
            # labels are followed by dashes
            label = m.group(1).rstrip('-').strip()
            lines.append((label, [float(x) for x in re.findall(r'[-+]?\d+\.\d+(?:E[-+]?\d+)?|nan|inf', m.group(2))]))
    return lines


def cardan(R):
    """Angles (degrees) around the fixed axes x, y, z in this order"""
    return np.degrees(np.array([np.arctan2(R[2, 1], R[2, 2]), np.arcsin(np.clip(-R[2, 0], -1, 1)),
                                np.arctan2(R[1, 0], R[0, 0])]))


def expected(h, rho, g, wcog, ref, lpp=None, ap=False):
    """Values of the report, in order: (label, values, digits ('f' decimals or 'E' digits), scale of errors)"""
    s = h.cut.size
    sg = max(s, float(np.abs(wcog).max()))
    k = s ** 3 / h.volume
    ka = s ** 2 / h.wp_area
    K, sxx, syy = hydro.stiffness(h, rho, g, wcog[2], ref)
    T = h.cut.soup.reshape(-1, 3)
    lo, hi = T.min(axis=0), T.max(axis=0)
    P = np.array(list(h.cut.cross.values()) + list(h.W[h.cut.on]))
    lwl, fp = np.ptp(P[:, 0]), P[:, 0].max()
    trust = bool(lpp or ap)
    L = lpp or (fp if ap else lwl)
    heel, trim, _ = cardan(h.R)
    gb = h.B[2] - wcog[2]
    gmt, gml = syy / h.volume + gb, sxx / h.volume + gb
    I = np.diag(h.inertia_at(rho, wcog))
    mass = rho * h.volume
    F = np.append((h.wp[1] / h.wp_area)[:2], 0.)
    rxx, ryy = .3 * (hi[1] - lo[1]), .25 * L
    e4 = rho * g * sg ** 4
    out = [
        ('Z correction (M)', [h.z], 'f3', s), ('Heel correction (deg)', [heel], 'f3', 60.),
        ('Trim correction (deg)', [trim], 'f3', 60.),
        ('Gravity acceleration (M/S**2)', [g], 'f2', 0.), ('Density of water (kg/M**3)', [rho], 'f1', 0.),
        ('Waterplane area (M**2)', [h.wp_area], 'f1', s ** 2), ('Waterplane center (M)', h.back(F), 'f3', s * ka),
        ('Wetted Surface Area (M**2)', [h.wet_area], 'f1', s ** 2),
        ('Displacement volume (M**3)', [h.volume], 'f3', s ** 3),
        ('Displacement mass (tons)', [mass / 1000.], 'f3', rho * s ** 3 / 1000.),
        ('Buoyancy center (M)', h.back(h.B), 'f3', s * k), ('Center of gravity (M)', h.back(wcog), 'f3', sg),
        ('Draft (M)', [-lo[2]], 'f3', s), ('Length overall submerged (M)', [hi[0] - lo[0]], 'f2', s),
        ('Breadth overall submerged (M)', [hi[1] - lo[1]], 'f2', s), ('Length at Waterline LWL (M)', [lwl], 'f2', s),
        ('Forward perpendicular FP (M)', [fp], 'f2', s),
        (('' if trust else '[2] ') + 'Length between perpendiculars Lpp (M)', [L], 'f2', s),
        ('Transversal metacentric radius (M)', [syy / h.volume], 'f3', s * k),
        ('Longitudinal metacentric radius (M)', [sxx / h.volume], 'f3', s * k),
        ('Transversal metacentric height GMt (M)', [gmt], 'f3', sg * k),
        ('Longitudinal metacentric height GMl (M)', [gml], 'f3', sg * k),
        ('K33 (N/M)', [K[0, 0]], 'E4', e4), ('K34 (N)', [K[0, 1]], 'E4', e4), ('K35 (N)', [K[0, 2]], 'E4', e4),
        ('K44 (N.M)', [K[1, 1]], 'E4', e4), ('K45 (N.M)', [K[1, 2]], 'E4', e4), ('K55 (N.M)', [K[2, 2]], 'E4', e4),
        ('Rxx (M)', [rxx], 'f3', s), ('Ryy (M)', [ryy], 'f3', s), ('Rzz (M)', [ryy], 'f3', s),
        ('Ixx', [rxx ** 2 * mass], 'E3', rho * s ** 5), ('Iyy', [ryy ** 2 * mass], 'E3', rho * s ** 5),
        ('Izz', [ryy ** 2 * mass], 'E3', rho * s ** 5),
        ('Rxx', [np.sqrt(I[0] / mass)], 'f3', sg * k), ('Ryy', [np.sqrt(I[1] / mass)], 'f3', sg * k),
        ('Rzz', [np.sqrt(I[2] / mass)], 'f3', sg * k),
        ('Ixx', [I[0]], 'E3', rho * s ** 3 * sg ** 2), ('Iyy', [I[1]], 'E3', rho * s ** 3 * sg ** 2),
        ('Izz', [I[2]], 'E3', rho * s ** 3 * sg ** 2),
    ]
    return out, trust, gmt, gml, sg * k


def compare(text, exp, tol, skip=()):
    """tol: error relative to the scale of every quantity, besides the rounding of the text"""
    values, trust, gmt, gml, gscale = exp
    got = parse(text)
    require([l for l, _ in got] == [l.upper() for l, _, _, _ in values], 'lines of the report are %s',
            [l for l, _ in got])
    for (label, x), (_, want, digits, scale) in zip(got, values):
        if label in skip:
            continue
        want = np.asarray(want, dtype=float)
        require(len(x) == len(want), '%s: %s', label, x)
        n = int(digits[1])
        if digits[0] == 'f':
            r = .5 * 10. ** -n
        else:
            r = .5 * 10. ** -n * np.abs(x) * 1.0001
        stiff = 1.1e-4 if label.startswith('K') else 0.
        err = np.abs(np.asarray(x) - want)
        require(np.all(err <= r * 1.0001 + tol * scale + stiff + 1e-9), '%s is %s in the report, %s expected', label, x,
                want.tolist())
    for gm, what in ((gmt, 'TRANSVERSALLY UNSTABLE'), (gml, 'LONGITUDINALLY UNSTABLE')):
        if abs(gm) > tol * gscale + 1e-9:
            require((what in text) == (gm < 0), '%s is %sin the report for a metacentric height of %g', what,
                    '' if what in text else 'not ', gm)
    require(('[2] Not enough information' in text) == (not trust), 'note about the length between perpendiculars')
