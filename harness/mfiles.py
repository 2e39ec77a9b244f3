"""Independent readers and writers of the mesh file formats, written from the description of the formats.

Nothing in this module uses the code under test.  Polygons are lists of indices starting at 0.
"""
import re
import xml.etree.ElementTree as ET

import numpy as np

from core import Violation, require


# --------------------------------------------------------------------------------------------------------------------
# Formats
# --------------------------------------------------------------------------------------------------------------------

# keywords of the formats that are both written and read: keyword -> (name, rounding of coordinates)
RW = {'mar': 'mar', 'nemoh': 'mar', 'gdf': 'gdf', 'wamit': 'gdf', 'diodore-dat': 'dat', 'hst': 'hst',
      'hydrostar': 'hst', 'nat': 'nat', 'natural': 'nat', 'stl': 'stl', 'vtu': 'vtu', 'vtp': 'vtp', 'vtk': 'vtk',
      'paraview-legacy': 'vtk', 'tec': 'tec', 'tecplot': 'tec', 'nem': 'nem', 'nemoh_mesh': 'nem', 'pnl': 'pnl',
      'hams': 'pnl', 'obj': 'obj'}
READ_ONLY = ('inp', 'diodore-inp', 'msh', 'gmsh', 'rad', 'radioss', 'med', 'salome', 'wrl', 'vrml')


def rounding(name, x):
    """Largest error on coordinates due to the number of digits of the format"""
    x = np.abs(np.asarray(x, dtype=float))
    f32 = 6.1e-8 * x + 1e-40
    d = {'mar': 5e-7, 'nem': 5e-7, 'pnl': 5e-7, 'vtk': 5e-7 + f32, 'obj': 5e-7 + f32,
         'gdf': 5e-7 * x, 'hst': 5e-7 * x, 'nat': 5e-7 * x, 'tec': 5e-7 * x,
         'dat': 5e-6 * x, 'stl': 5e-7 * x + f32, 'vtu': 2 * f32, 'vtp': 2 * f32}[name]
    return 1.01 * d + 1e-12 + 1e-15 * x


# --------------------------------------------------------------------------------------------------------------------
# Readers: (vertices, polygons); they are strict and raise Violation when the text is not as it should be
# --------------------------------------------------------------------------------------------------------------------

class Lines:
    def __init__(self, text, what):
        self.lines = text.split('\n')
        if self.lines and self.lines[-1] == '':
            self.lines.pop()
        self.i, self.what = 0, what

    def next(self):
        if self.i >= len(self.lines):
            raise Violation('%s: the file ends too early' % self.what)
        self.i += 1
        return self.lines[self.i - 1]

    def nums(self, kind, n, what):
        s = self.next()
        t = s.split()
        try:
            v = [kind(x) for x in t]
        except ValueError:
            raise Violation('%s: %s: %r is not made of numbers' % (self.what, what, s))
        if n is not None and len(v) != n:
            raise Violation('%s: %s: %d numbers expected in %r' % (self.what, what, n, s))
        return v

    def end(self):
        for s in self.lines[self.i:]:
            if s.strip():
                raise Violation('%s: unexpected %r' % (self.what, s))


def triangle_or_quad(ids, what):
    """Four ids, three of them being distinct for triangles"""
    p = [v for k, v in enumerate(ids) if v != ids[k - 1]]
    if len(set(p)) != len(p) or len(p) < 3:
        raise Violation('%s: face %s' % (what, ids))
    return p


def read_mar(text):
    f = Lines(text, 'mar')
    head = f.nums(int, 2, 'header')
    require(head == [2, 0], 'mar: header is %s: 2 0 (no symmetry) is expected', head)
    V, P = [], []
    while True:
        v = f.nums(float, None, 'vertex')
        if v and v[0] == 0:
            break
        require(len(v) == 4, 'mar: vertex %s', v)
        require(v[0] == len(V) + 1, 'mar: number of vertex %s', v)
        V.append(v[1:])
    while True:
        v = f.nums(int, 4, 'panel')
        if v == [0, 0, 0, 0]:
            break
        P.append(triangle_or_quad([k - 1 for k in v], 'mar'))
    f.end()
    return V, P


def read_nem(text):
    f = Lines(text, 'nem')
    nv, = f.nums(int, 1, 'number of vertices')
    nf, = f.nums(int, 1, 'number of faces')
    V = [f.nums(float, 3, 'vertex') for _ in range(nv)]
    P = [triangle_or_quad([k - 1 for k in f.nums(int, 4, 'face')], 'nem') for _ in range(nf)]
    f.end()
    return V, P


def read_nat(text):
    f = Lines(text, 'nat')
    require(f.nums(int, 2, 'symmetries') == [0, 0], 'nat: symmetries are declared')
    nv, nf = f.nums(int, 2, 'numbers')
    V = [f.nums(float, 3, 'vertex') for _ in range(nv)]
    P = []
    for _ in range(nf):
        ids = f.nums(int, 4, 'cell')
        if len(set(ids)) == 3:
            require(ids[0] == ids[3], 'nat: triangle %s: the first id has to be repeated', ids)
        P.append(triangle_or_quad([k - 1 for k in ids], 'nat'))
    f.end()
    return V, P


def read_gdf(text):
    f = Lines(text, 'gdf')
    f.next()
    u = f.nums(float, 2, 'length and gravity')
    require(u[0] > 0 and u[1] > 0, 'gdf: length and gravity are %s', u)
    sym = f.nums(int, 2, 'symmetries')
    require(sym == [0, 0], 'gdf: symmetries %s are declared: the mesh would be completed by its image', sym)
    nf, = f.nums(int, 1, 'number of panels')
    V, P = [], []
    for _ in range(nf):
        c = [f.nums(float, 3, 'vertex') for _ in range(4)]
        q = [v for k, v in enumerate(c) if v != c[k - 1]]
        P.append(list(range(len(V), len(V) + len(q))))
        V.extend(q)
    f.end()
    return V, P


def read_hst(text):
    V, P, state = [], [], ''
    for s in text.split('\n'):
        t = s.split()
        if not t:
            continue
        if t[0] in ('COORDINATES', 'PANEL'):
            require(state == '', 'hst: section %s inside %s', t[0], state)
            require(t[0] != 'PANEL' or t[1:] == ['TYPE', '0'], 'hst: %r', s)
            state = t[0]
        elif t[0] in ('ENDCOORDINATES', 'ENDPANEL'):
            require(state == t[0][3:], 'hst: %s in section %s', t[0], state)
            state = ''
        elif t[0] == 'ENDFILE':
            require(state == '', 'hst: section %s is not ended', state)
            state = 'ENDFILE'
        elif state == 'COORDINATES':
            require(len(t) == 4 and t[0] == str(len(V) + 1), 'hst: coordinates %r', s)
            V.append([float(x) for x in t[1:]])
        elif state == 'PANEL':
            require(len(t) == 4, 'hst: panel %r', s)
            P.append(triangle_or_quad([int(x) - 1 for x in t], 'hst'))
        elif t[0] == 'NBODY':
            require(t[1] == '1', 'hst: %r', s)
        else:
            require(t[0] in ('PROJECT:', 'USERS:', 'RHO', 'GRAVITY', 'NBODY', 'SYMMETRY'), 'hst: %r', s)
            require(t[0] != 'SYMMETRY', 'hst: a symmetry is declared')
    require(state == 'ENDFILE', 'hst: the file is not ended')
    return V, P


def read_dat(text):
    """Sections of nodes, quadrangles and triangles, ended by *RETURN"""
    V, P, ids, state = [], {}, {}, ''
    for s in text.split('\n'):
        t = s.split()
        if not t:
            continue
        if t[0] == '$':
            if len(t) > 1 and t[1] == 'NODE':
                require(state == '', 'dat: %r in section %s', s, state)
                state = 'NODE'
            elif len(t) > 1 and t[1].startswith('ELEMENT,TYPE='):
                require(state == '', 'dat: %r in section %s', s, state)
                state = t[1].split(',')[1][5:]
                require(state in ('Q4C000', 'T3C000'), 'dat: %r', s)
            continue
        if t[0] == '*RETURN':
            require(state != '', 'dat: end of no section')
            state = ''
        elif state == 'NODE':
            require(len(t) == 4 and t[0] not in ids, 'dat: node %r', s)
            ids[t[0]] = len(V)
            V.append([float(x) for x in t[1:]])
        else:
            n = {'Q4C000': 4, 'T3C000': 3}.get(state)
            require(n is not None and len(t) == n + 1, 'dat: %r in section %r', s, state)
            p = [ids[x] for x in t[1:]]
            require(len(set(p)) == n, 'dat: element %r', s)
            require(int(t[0]) not in P, 'dat: number of element %r', s)
            P[int(t[0])] = p
    require(state == '', 'dat: section %s is not ended', state)
    require(sorted(P) == list(range(1, len(P) + 1)), 'dat: numbers of elements')
    return V, [P[k] for k in sorted(P)]


def read_tec(text):
    m = re.match(r'TITLE *= *"[^\n]*"\s*\nVARIABLES *= *"X" *, *"Y" *, *"Z"\s*\nZONE T="[^"]*"\s*\n'
                 r'N= *(\d+) *, *E= *(\d+) *, *F *= *FEPOINT *, *ET *= *QUADRILATERAL *\n', text)
    require(m is not None, 'tec: header %r', text[:200])
    f = Lines(text[m.end():], 'tec')
    V = [f.nums(float, 3, 'vertex') for _ in range(int(m.group(1)))]
    P = [triangle_or_quad([k - 1 for k in f.nums(int, 4, 'cell')], 'tec') for _ in range(int(m.group(2)))]
    f.end()
    return V, P


def read_vtk(text):
    f = Lines(text, 'vtk')
    require(f.next().startswith('# vtk DataFile Version'), 'vtk: first line')
    require(len(f.next()) < 256, 'vtk: title')
    require(f.next().strip() == 'ASCII', 'vtk: ASCII')
    require(f.next().split() == ['DATASET', 'POLYDATA'], 'vtk: dataset')
    t = f.next().split()
    require(len(t) == 3 and t[0] == 'POINTS' and t[2] in ('float', 'double'), 'vtk: %s', t)
    V = [f.nums(float, 3, 'point') for _ in range(int(t[1]))]
    t = f.next().split()
    require(len(t) == 3 and t[0] == 'POLYGONS', 'vtk: %s', t)
    P = []
    for _ in range(int(t[1])):
        p = f.nums(int, None, 'polygon')
        require(len(p) in (4, 5) and p[0] == len(p) - 1 and len(set(p[1:])) == p[0], 'vtk: polygon %s', p)
        P.append(p[1:])
    require(sum(len(p) + 1 for p in P) == int(t[2]), 'vtk: size of polygons')
    f.end()
    return V, P


def read_obj(text):
    V, P = [], []
    for s in text.split('\n'):
        t = s.split()
        if not t or t[0].startswith('#'):
            continue
        if t[0] == 'v':
            require(len(t) == 4, 'obj: %r', s)
            V.append([float(x) for x in t[1:]])
        elif t[0] == 'f':
            p = [int(x) - 1 for x in t[1:]]
            require(len(p) in (3, 4) and len(set(p)) == len(p), 'obj: %r', s)
            P.append(p)
        else:
            raise Violation('obj: %r' % s)
    return V, P


def read_stl(text):
    f = Lines(text, 'stl')
    require(f.next().split()[:1] == ['solid'], 'stl: first line')
    V, P, N = [], [], []
    while True:
        t = f.next().split()
        if t[:1] == ['endsolid']:
            break
        require(t[:2] == ['facet', 'normal'] and len(t) == 5, 'stl: %s', t)
        N.append([float(x) for x in t[2:]])
        require(f.next().split() == ['outer', 'loop'], 'stl: outer loop')
        for _ in range(3):
            t = f.next().split()
            require(t[:1] == ['vertex'] and len(t) == 4, 'stl: %s', t)
            V.append([float(x) for x in t[1:]])
        require(f.next().split() == ['endloop'], 'stl: endloop')
        require(f.next().split() == ['endfacet'], 'stl: endfacet')
        P.append([len(V) - 3, len(V) - 2, len(V) - 1])
    f.end()
    T = np.array(V).reshape((-1, 3, 3))
    N = np.array(N).reshape((-1, 3))
    n = np.cross(T[:, 1] - T[:, 0], T[:, 2] - T[:, 0])
    l = np.linalg.norm(n, axis=1)
    s = np.abs(T).max(axis=(1, 2)) if len(T) else np.zeros(0)
    # normals are compared when vertices are described accurately enough
    sel = l > 1e-3 * s ** 2
    require(np.abs(n[sel] / l[sel][:, None] - N[sel]).max(initial=0.) < 1e-2, 'stl: normals of facets')
    return V, P


def _xml_array(node, kind):
    require(node.get('format') == 'ascii', 'vtk: format of %s', node.attrib)
    return [kind(x) for x in (node.text or '').split()]


def read_vtp(text):
    root = ET.fromstring(text)
    require(root.get('type') == 'PolyData', 'vtp: type')
    piece = root.find('PolyData/Piece')
    V = np.array(_xml_array(piece.find('Points/DataArray'), float)).reshape((-1, 3))
    require(len(V) == int(piece.get('NumberOfPoints')), 'vtp: number of points')
    require(int(piece.get('NumberOfVerts') or 0) == 0 and int(piece.get('NumberOfLines') or 0) == 0
            and int(piece.get('NumberOfStrips') or 0) == 0, 'vtp: only polygons are expected')
    arr = {a.get('Name'): _xml_array(a, int) for a in piece.findall('Polys/DataArray')}
    require(len(arr['offsets']) == int(piece.get('NumberOfPolys')), 'vtp: number of polygons')
    P, k = [], 0
    for o in arr['offsets']:
        P.append(arr['connectivity'][k:o])
        k = o
    require(all(len(p) in (3, 4) and len(set(p)) == len(p) for p in P), 'vtp: polygons')
    return V.tolist(), P


def read_vtu(text):
    root = ET.fromstring(text)
    require(root.get('type') == 'UnstructuredGrid', 'vtu: type')
    piece = root.find('UnstructuredGrid/Piece')
    V = np.array(_xml_array(piece.find('Points/DataArray'), float)).reshape((-1, 3))
    require(len(V) == int(piece.get('NumberOfPoints')), 'vtu: number of points')
    arr = {a.get('Name'): _xml_array(a, int) for a in piece.findall('Cells/DataArray')}
    require(len(arr['offsets']) == int(piece.get('NumberOfCells')), 'vtu: number of cells')
    P, k = [], 0
    for o, t in zip(arr['offsets'], arr['types']):
        p = arr['connectivity'][k:o]
        require((t, len(p)) in ((5, 3), (9, 4)) and len(set(p)) == len(p), 'vtu: cell %s of type %d', p, t)
        P.append(p)
        k = o
    return V.tolist(), P


def read_pnl(text):
    f = Lines(text, 'pnl')
    f.next(), f.next(), f.next()
    nf, nv, sx, sy = f.nums(int, 4, 'header')
    require(sx == 0 and sy == 0, 'pnl: a symmetry is declared')
    f.next(), f.next()
    V, P = [], []
    for i in range(nv):
        v = f.nums(float, 4, 'node')
        require(v[0] == i + 1, 'pnl: number of node %s', v)
        V.append(v[1:])
    f.next(), f.next(), f.next()
    for i in range(nf):
        p = f.nums(int, None, 'panel')
        require(p[0] == i + 1 and p[1] in (3, 4) and len(p) == p[1] + 2 and len(set(p[2:])) == p[1],
                'pnl: panel %s', p)
        P.append([k - 1 for k in p[2:]])
    f.next(), f.next(), f.next()
    f.end()
    return V, P


READERS = {'mar': read_mar, 'gdf': read_gdf, 'dat': read_dat, 'hst': read_hst, 'nat': read_nat, 'stl': read_stl,
           'vtu': read_vtu, 'vtp': read_vtp, 'vtk': read_vtk, 'tec': read_tec, 'nem': read_nem, 'pnl': read_pnl,
           'obj': read_obj}


# --------------------------------------------------------------------------------------------------------------------
# Comparison of faces described by their corners
# --------------------------------------------------------------------------------------------------------------------

def corners(V, polys):
    V = np.asarray(V, dtype=float).reshape((-1, 3))
    for p in polys:
        require(min(p) >= 0 and max(p) < len(V), 'face %s refers to vertices that do not exist (%d vertices)', p,
                len(V))
    return [V[p] for p in polys]


def same_cycle(A, B, tol):
    """Same corners in the same order, whatever the first one"""
    if len(A) != len(B):
        return False
    return any(np.all(np.abs(np.roll(A, k, axis=0) - B) <= tol) for k in range(len(A)))


def require_same_faces(got, exp, tol, what):
    """Faces (arrays of corners), one by one"""
    require(len(got) == len(exp), '%s: %d faces, %d expected', what, len(got), len(exp))
    for i, (A, B) in enumerate(zip(got, exp)):
        require(same_cycle(A, B, tol(B)), '%s: face %d is\n%s\nexpected\n%s', what, i, A, B)


def require_split(got, exp, tol, what):
    """Triangles that are the faces, quadrangles being split along any of their diagonals; in any order"""
    want = []
    for B in exp:
        if len(B) == 3:
            want.append([[B]])
        else:
            want.append([[B[[0, 1, 2]], B[[0, 2, 3]]], [B[[0, 1, 3]], B[[1, 2, 3]]]])
    require(len(got) == sum(len(w[0]) for w in want), '%s: %d triangles, %d expected', what, len(got),
            sum(len(w[0]) for w in want))
    if not len(got):
        return
    cent = np.array([A.mean(axis=0) for A in got])
    used = np.zeros(len(got), dtype=bool)

    def find(T):
        t = tol(T)
        near = np.where(np.all(np.abs(cent - T.mean(axis=0)) <= 2 * np.max(t) + 1e-300, axis=1) & ~used)[0]
        for k in near:
            if same_cycle(got[k], T, t):
                return k
        return None

    for alternatives in want:
        for alt in alternatives:
            ks = []
            for T in alt:
                k = find(T)
                if k is None:
                    break
                used[k] = True
                ks.append(k)
            if len(ks) == len(alt):
                break
            used[ks] = False
        else:
            raise Violation('%s: no triangle(s) for the face\n%s' % (what, alternatives[0]))


# --------------------------------------------------------------------------------------------------------------------
# Writers: files that other programs may give.  ``o`` is a dictionary of options (variations of the layout).
# They return (files, expected order of the faces); files is {name: text or bytes}
# --------------------------------------------------------------------------------------------------------------------

def number(x, style):
    if style == 'e':
        return '%.11E' % x
    if style == 'f':
        return '%.10f' % x
    if style == 'fortran':
        # leading zero mantissa, as given by fortran
        if x == 0:
            return '0.0000000000E+00'
        import math
        e = int(math.floor(math.log10(abs(x)))) + 1
        m = x / 10. ** e
        s = '%.12f' % m
        if s.lstrip('-').startswith('1'):
            s, e = '%.12f' % (m / 10.), e + 1
        return '%sE%+03d' % (s, e)
    s = '%.12g' % x
    if style == 'short':
        return s
    # 'dot': as short as possible with a decimal point
    if 'e' in s:
        s = '%.14f' % x
    return s if '.' in s else s + '.'


def _xyz(p, o, sep=' '):
    return sep.join(number(c, o['num']).rjust(o['pad']) for c in p)


def _quad(p, o):
    """Four vertices of a face: one of those of a triangle is repeated, the first one at last unless told otherwise"""
    if len(p) == 4:
        return list(p)
    r = o.get('repeat', 0)
    if r == 4:
        r = (7 * p[0] + 3 * p[1] + p[2]) % 4
    return [p[i] for i in ((0, 1, 2, 0), (0, 1, 2, 2), (0, 1, 1, 2), (0, 0, 1, 2))[r]]


def _nl(text, o):
    if o.get('blanks'):
        # blanks between numbers, around them, and the end of the last line do not matter
        rng = np.random.RandomState(o['seed'] % 2 ** 32)
        lines = text.split('\n')
        for i, l in enumerate(lines):
            if i and lines[i - 1] == '$MeshFormat':
                continue
            if re.match(r'\s*[-+.\d]', l) and re.fullmatch(r'[-+.\deE\s]*', l):
                w = l.split()
                sep = [' ', '  ', '\t', ' \t '][rng.randint(4)]
                lines[i] = ['', ' ', '     ', '\t'][rng.randint(4)] + sep.join(w) + ['', ' ', '\t'][rng.randint(3)]
        text = '\n'.join(lines)
        if o['blanks'] == 2:
            text = text.rstrip('\n')
        elif o['blanks'] == 3:
            text += '\n\n'
    if o['crlf']:
        text = text.replace('\n', '\r\n')
    return text


def out_mar(V, P, o):
    s = '%6d%6d\n' % (2, 0)
    for i, p in enumerate(V):
        s += '%6d %s\n' % (i + 1, _xyz(p, o))
    s += ' 0 %s\n' % _xyz((0., 0., 0.), o)
    for p in P:
        s += ' '.join('%7d' % (k + 1) for k in _quad(p, o)) + '\n'
    s += ' 0 0 0 0\n'
    return {'m.mar': _nl(s, o)}, list(range(len(P)))


def out_nem(V, P, o):
    s = '%d\n%d\n' % (len(V), len(P))
    s += ''.join(_xyz(p, o, '\t') + '\n' for p in V)
    s += ''.join('\t'.join(str(k + 1) for k in _quad(p, o)) + '\n' for p in P)
    return {'m.nem': _nl(s, o)}, list(range(len(P)))


def out_nat(V, P, o):
    s = '0 0\n%d  %d\n' % (len(V), len(P))
    s += ''.join(_xyz(p, o) + '\n' for p in V)
    s += ''.join(' '.join(str(k + 1) for k in _quad(p, o)) + '\n' for p in P)
    return {'m.nat': _nl(s, o)}, list(range(len(P)))


def out_gdf(V, P, o):
    s = 'a title\n1. 9.80665  ULEN GRAV\n0  0  ISX  ISY\n%d\n' % len(P)
    per = o['per_line']
    for p in P:
        x = [c for k in _quad(p, o) for c in V[k]]
        for k in range(0, 12, per):
            s += ' '.join(number(c, o['num']) for c in x[k:k + per]) + '\n'
    return {'m.gdf': _nl(s, o)}, list(range(len(P)))


def out_hst(V, P, o):
    """Several sections of coordinates and panels"""
    num = _ids(len(V), o)
    s = 'PROJECT: test\nUSERS: someone\n\nNBODY   1\nRHO   1025.0\nGRAVITY   9.81\n\n'
    n, m = max(1, o['sections']), max(1, o['sections'])
    vs = np.array_split(np.arange(len(V)), n)
    ps = np.array_split(np.arange(len(P)), m)
    sections = ['COORDINATES\n' + ''.join('%8d %s\n' % (num[i], _xyz(V[i], o)) for i in ids) + 'ENDCOORDINATES\n\n'
                for ids in vs if len(ids)]
    panels = ['PANEL TYPE 0\n' + ''.join(' '.join('%8d' % num[k] for k in _quad(P[i], o)) + '\n' for i in ids) +
              'ENDPANEL\n\n' for ids in ps if len(ids)]
    if o['mixed']:
        both = []
        for k in range(max(len(sections), len(panels))):
            both += sections[k:k + 1] + panels[k:k + 1]
        s += ''.join(both)
    else:
        s += ''.join(sections) + ''.join(panels)
    s += 'ENDFILE\n'
    return {'m.hst': _nl(s, o)}, list(range(len(P)))


class _Ids(list):
    """Identifiers; vertices that do not exist have one too, that no vertex has"""
    def __getitem__(self, k):
        return list.__getitem__(self, k) if 0 <= k < len(self) else 0 if k < 0 else max(self) + 1 + k - len(self)


def _ids(n, o):
    """Identifiers of nodes: contiguous, with gaps, or in any order"""
    if o.get('ids', 'plain') == 'plain':
        return _Ids(range(1, n + 1))
    rng = np.random.RandomState(o['seed'] % 2 ** 32)
    ids = np.cumsum(rng.randint(1, 5, size=n)) + 3
    if o['ids'] == 'shuffled':
        ids = rng.permutation(ids)
    return _Ids(ids.tolist())


def _sorted_cells(P, o):
    """Triangles then quadrangles or the contrary"""
    t = [i for i, p in enumerate(P) if len(p) == 3]
    q = [i for i, p in enumerate(P) if len(p) == 4]
    return t, q


def out_dat(V, P, o):
    ids = _ids(len(V), o)
    s = '$\n$ some comment\n$ NODE\n'
    s += ''.join('%8d %s\n' % (ids[i], _xyz(p, o)) for i, p in enumerate(V)) + '*RETURN\n'
    t, q = _sorted_cells(P, o)
    sections = [(kind, list(sel)) for kind, ids_ in (('T3C000', t), ('Q4C000', q))
                for sel in np.array_split(ids_, max(1, o['sections'])) if len(sel)]
    order = [i for _, sel in sections for i in sel]
    if o['mixed']:
        # sections of triangles and of quadrangles in any order
        rng = np.random.RandomState(o['seed'] % 2 ** 32)
        sections = [sections[i] for i in rng.permutation(len(sections))]
        order = [i for k in ('T3C000', 'Q4C000') for kind, sel in sections if kind == k for i in sel]
    for n, (kind, sel) in enumerate(sections):
        s += '$\n' + ['$ ELEMENT,TYPE=%s,ELSTRUCTURE=HULL\n', '*ELEMENT,TYPE=%s,ELSTRUCTURE=HULL\n',
                      '*ELEMENT,ELSTRUCTURE=HULL,TYPE=%s\n'][(o['seed'] + n) % 3] % kind
        lines = [' '.join('%7d' % int(k) for k in [i + 1] + [ids[k] for k in P[i]]) + '\n' for i in sel]
        if o['mixed']:
            lines.insert(o['seed'] % len(lines), ['$ some comment\n', '\n', '  $\n', ' \n'][o['seed'] // 3 % 4])
        s += ''.join(lines) + '*RETURN\n'
    return {'m.DAT': _nl(s, o)}, order


def out_tec(V, P, o):
    extra = o['extra_vars']
    names = ['"X"', '"Y"', '"Z"'] + ['"V%d"' % k for k in range(extra)]
    s = 'TITLE = "test"\nVARIABLES = %s\n' % ','.join(names)
    n = max(1, min(o['sections'], len(P)))
    zones = np.array_split(np.arange(len(P)), n)
    for z, sel in enumerate(zones):
        # every zone has its own vertices
        used = sorted({k for i in sel for k in P[i] if 0 <= k < len(V)}) if n > 1 else range(len(V))
        loc = {k: j for j, k in enumerate(used)}
        s += 'ZONE T="MESH%d"%s' % (z, ['\n', ' ', ', '][o['seed'] % 3])
        s += 'N=%d, E=%d, F=FEPOINT, ET=QUADRILATERAL\n' % (len(used), len(sel))
        s += ''.join(_xyz(list(V[k]) + [.5 + k for k in range(extra)], o) + '\n' for k in used)
        s += ''.join(' '.join(str(loc.get(k, k if k < 0 else len(used) + k - len(V)) + 1) for k in _quad(P[i], o)) + '\n' for i in sel)
    s = _comments(s, o, ['# comment', '# 1.0 2.0 3.0', '# 1 2 3 4', '#', '# ZONE'])
    return {'m.tec': _nl(s, o)}, list(range(len(P)))


def out_pnl(V, P, o):
    s = '    --------------Hull Mesh File---------------\n\n    # Number of Panels, Nodes, X-Symmetry and Y-Symmetry\n'
    s += '  %d %d 0 0\n\n  # Start Definition of Node Coordinates\n' % (len(P), len(V))
    s += ''.join('%5d %s\n' % (i + 1, _xyz(p, o)) for i, p in enumerate(V))
    s += '  # End\n\n  # Start Definition of Node Relations\n'
    s += ''.join('%5d %d %s\n' % (i + 1, len(p), ' '.join(str(k + 1) for k in p)) for i, p in enumerate(P))
    s += '  # End\n\n    --------------End Hull Mesh File---------------\n'
    return {'m.pnl': _nl(s, o)}, list(range(len(P)))


def out_obj(V, P, o):
    s = '# comment\no body\n'
    s += ''.join('v %s\n' % _xyz(p, o) for p in V)
    form, shift = '%d', 1
    if o['mixed']:
        s += 'vt 0.5 0.5\nvn 0 0 1\n'
        form = ['%d/1/1', '%d//1', '%d/1'][o['seed'] % 3]
    if o.get('negative'):
        shift = -len(V)     # vertices are counted from the last one
    cut = np.linspace(0, len(P), max(1, o['sections']) + 1)[1:-1].astype(int)
    for i, p in enumerate(P):
        if i in cut:
            s += ['g part%d\n', 'usemtl part%d\ns 1\n', '# part %d\n\n'][o['seed'] % 3] % i
        s += 'f %s\n' % ' '.join(form % (k + shift) for k in p)
    s = _comments(s, o, ['# comment', '#v 1.0 2.0 3.0', '# f 1 2 3', '', '#'])
    return {'m.obj': _nl(s, o)}, list(range(len(P)))


def out_stl(V, P, o):
    T = []
    for p in P:
        T.append([V[p[0]], V[p[1]], V[p[2]]])
        if len(p) == 4:
            T.append([V[p[0]], V[p[2]], V[p[3]]])
    if o['binary']:
        import struct
        b = b'binary file'.ljust(80) + struct.pack('<I', len(T))
        for t in T:
            b += struct.pack('<12fH', 0., 0., 0., *[c for p in t for c in p], 0)
        return {'m.stl': b}, None
    s = 'solid body\n'
    for n, t in enumerate(T):
        if n and o['sections'] > 1 and n == len(T) // 2:
            s += 'endsolid body\nsolid other\n'
        s += 'facet normal 0.0 0.0 0.0\n outer loop\n'
        s += ''.join('  vertex %s\n' % _xyz(p, o) for p in t)
        s += ' endloop\nendfacet\n'
    return {'m.stl': _nl(s + 'endsolid body\n', o)}, None


def _strips(P, o):
    """Polygons that remain, strips, and the triangles that they are made of"""
    if o.get('cells') not in ('strip', 'both'):
        return P, [], []
    Q, S, R = [], [], []
    for i, p in enumerate(P):
        if o['cells'] == 'both' and i % 2:
            Q.append(p)
        elif len(p) == 3:
            S.append(list(p))
            R.append(list(p))
        else:
            a, b, c, d = p
            S.append([a, b, d, c])
            R += [[a, b, d], [d, b, c]]
    return Q, S, R


def out_vtk(V, P, o):
    s = '# vtk DataFile Version 3.0\ntest\nASCII\nDATASET POLYDATA\nPOINTS %d %s\n' % (
        len(V), 'double' if o['double'] else 'float')
    s += ''.join(_xyz(p, o) + '\n' for p in V)
    if o['lines']:
        s += 'VERTICES 1 2\n1 0\nLINES 2 7\n2 0 1\n3 0 1 2\n' if o['lines'] == 2 else 'LINES 1 3\n2 0 1\n'
    P, S, R = _strips(P, o)
    if P:
        s += 'POLYGONS %d %d\n' % (len(P), sum(len(p) + 1 for p in P))
        s += ''.join('%d %s\n' % (len(p), ' '.join(map(str, p))) for p in P)
    if S:
        s += 'TRIANGLE_STRIPS %d %d\n' % (len(S), sum(len(p) + 1 for p in S))
        s += ''.join('%d %s\n' % (len(p), ' '.join(map(str, p))) for p in S)
        return {'m.vtk': s}, P + R
    if o['extra_vars']:
        s += 'CELL_DATA %d\nSCALARS pressure float 1\nLOOKUP_TABLE default\n' % (
            len(P) + {0: 0, 1: 1, 2: 3}[o['lines']]) + '0.5\n' * (len(P) + {0: 0, 1: 1, 2: 3}[o['lines']])
    return {'m.vtk': s}, list(range(len(P)))


def _darray(name, typ, values, comp=0):
    return '<DataArray type="%s" Name="%s"%s format="ascii">%s</DataArray>\n' % (
        typ, name, ' NumberOfComponents="%d"' % comp if comp else '', ' '.join(values))


def out_vtp(V, P, o):
    t = 'Float64' if o['double'] else 'Float32'
    lines = [[0, 1]] * (1 if o['lines'] else 0)

    def cells(C):
        return _darray('connectivity', 'Int64', [str(k) for p in C for k in p]) + \
            _darray('offsets', 'Int64', [str(k) for k in np.cumsum([len(p) for p in C])] if C else [])

    P, S, R = _strips(P, o)
    s = '<?xml version="1.0"?>\n<VTKFile type="PolyData" version="1.0" byte_order="LittleEndian" header_type="UInt64">\n' \
        '<PolyData>\n<Piece NumberOfPoints="%d" NumberOfVerts="0" NumberOfLines="%d" NumberOfStrips="%d" ' \
        'NumberOfPolys="%d">\n' % (len(V), len(lines), len(S), len(P))
    s += '<Points>\n' + _darray('Points', t, [number(c, o['num']) for p in V for c in p], 3) + '</Points>\n'
    s += '<Lines>\n' + cells(lines) + '</Lines>\n<Strips>\n' + cells(S) + '</Strips>\n'
    s += '<Polys>\n' + cells(P) + '</Polys>\n</Piece>\n</PolyData>\n</VTKFile>\n'
    return {'m.vtp': s}, P + R if S else list(range(len(P)))


def out_vtu(V, P, o):
    t = 'Float64' if o['double'] else 'Float32'
    C = [(5 if len(p) == 3 else 9, p) for p in P]
    exp = list(range(len(P)))
    cells = o.get('cells')
    if cells == 'pixel':
        C = [(k, p) if k == 5 or i % 3 == 2 else (8, [p[0], p[1], p[3], p[2]]) for i, (k, p) in enumerate(C)]
    elif cells == 'polygon':
        C = [(7, p) for _, p in C]
    elif cells:
        # every cell, or every other one, is a strip of triangles
        D, exp = [], []
        for i, (k, p) in enumerate(C):
            Q, S, R = _strips([p], dict(o, cells='strip'))
            if cells == 'both' and i % 2:
                D.append((k, p))
                exp.append(p)
            else:
                D.append((6, S[0]))
                exp += R
        C = D
    if o['lines']:
        # lines and vertices between faces
        C = [(3, [0, 1])] + C[:len(C) // 2] + [(1, [2])] + C[len(C) // 2:]
    s = '<?xml version="1.0"?>\n<VTKFile type="UnstructuredGrid" version="1.0" byte_order="LittleEndian" ' \
        'header_type="UInt64">\n<UnstructuredGrid>\n<Piece NumberOfPoints="%d" NumberOfCells="%d">\n' % (len(V), len(C))
    s += '<Points>\n' + _darray('Points', t, [number(c, o['num']) for p in V for c in p], 3) + '</Points>\n'
    s += '<Cells>\n' + _darray('connectivity', 'Int64', [str(k) for _, p in C for k in p]) + \
        _darray('offsets', 'Int64', [str(k) for k in np.cumsum([len(p) for _, p in C])]) + \
        _darray('types', 'UInt8', [str(k) for k, _ in C]) + '</Cells>\n'
    s += '</Piece>\n</UnstructuredGrid>\n</VTKFile>\n'
    return {'m.vtu': s}, exp


def out_msh22(V, P, o):
    ids = _ids(len(V), o)
    t, q = _sorted_cells(P, o)
    tags = ['2 0 1', '3 1 2 0', '0', '1 7', '4 1 2 1 1'][o['seed'] % 5]
    E = [(2 if len(p) == 3 else 3, [ids[k] for k in p]) for p in P]
    if o['lines']:
        E = [(15, [ids[0]]), (1, [ids[0], ids[1]])] + E
    if o['lines'] == 2:
        # a volume and a triangle of the second order are not faces
        E += [(4, [ids[0], ids[1], ids[2], ids[len(V) - 1]]), (9, [ids[0], ids[1], ids[2], ids[len(V) - 1], ids[0], ids[1]])]
    s = '$MeshFormat\n2.2 0 8\n$EndMeshFormat\n'
    if o['mixed']:
        s += '$PhysicalNames\n1\n2 1 "hull"\n$EndPhysicalNames\n'
    s += '$Nodes\n%d\n' % len(V) + ''.join('%d %s\n' % (ids[i], ' '.join(number(c, o['num']) for c in p))
                                          for i, p in enumerate(V)) + '$EndNodes\n'
    s += '$Elements\n%d\n' % len(E) + ''.join('%d %d %s %s\n' % (i + 1, k, tags, ' '.join(map(str, p)))
                                             for i, (k, p) in enumerate(E)) + '$EndElements\n'
    return {'m.msh': _nl(s, o)}, t + q


def out_msh41(V, P, o):
    ids = _ids(len(V), o)
    nb = min(max(1, o['sections']), len(V))
    blocks = np.array_split(np.arange(len(V)), nb)
    s = '$MeshFormat\n4.1 0 8\n$EndMeshFormat\n'
    s += '$Nodes\n%d %d %d %d\n' % (nb, len(V), min(ids), max(ids))
    for b, sel in enumerate(blocks):
        s += '2 %d 0 %d\n' % (b + 1, len(sel)) + ''.join('%d\n' % ids[i] for i in sel)
        s += ''.join(' '.join(number(c, o['num']) for c in V[i]) + '\n' for i in sel)
    s += '$EndNodes\n'
    t, q = _sorted_cells(P, o)
    E = [(2, sel, k, n) for n, (k, sel) in enumerate((k, sel) for k, sel in ((2, t), (3, q)) if sel)]
    nel = len(P) + (1 if o['lines'] else 0)
    s += '$Elements\n%d %d 1 %d\n' % (len(E) + (1 if o['lines'] else 0), nel, nel)
    n = 0
    if o['lines']:
        n += 1
        s += '1 1 1 1\n1 %d %d\n' % (ids[0], ids[1])
    for dim, sel, kind, _ in E:
        s += '%d 1 %d %d\n' % (dim, kind, len(sel))
        for i in sel:
            n += 1
            s += '%d %s\n' % (n, ' '.join(str(ids[k]) for k in P[i]))
    s += '$EndElements\n'
    return {'m.msh': s}, t + q


def _comments(s, o, comments):
    """Comments between any lines but before the first one"""
    if o.get('lines'):
        lines = s.split('\n')
        for i in np.random.RandomState(o['seed'] % 2 ** 32).randint(1, len(lines), 3):
            lines.insert(i, comments[i % len(comments)])
        s = '\n'.join(lines)
    return s


def out_rad(V, P, o):
    """Every part of the model has its own section of elements"""
    num = _ids(len(V), o)
    s = '#RADIOSS STARTER\n/BEGIN\ntitle\n/NODE\n'
    s += ''.join('%10d %s\n' % (num[i], _xyz(p, o)) for i, p in enumerate(V))
    n = max(1, min(o['sections'], len(P)))
    # parts may have a single element
    parts = np.array_split(np.arange(len(P)), n) if not o['mixed'] else \
        np.split(np.arange(len(P)), sorted(set(np.random.RandomState(o['seed'] % 2 ** 32).randint(1, len(P), n - 1))))
    for k, sel in enumerate(parts):
        s += '/SHELL/%d\n' % (k + 1)
        s += ''.join('%8d%8d%8d%8d%8d%8d%8d\n' % ((i + 1, k + 1, 1) + tuple(num[k] for k in _quad(P[i], o)))
                     for i in sel)
    s += '/END\n' if o['seed'] % 3 else ''
    s = _comments(s, o, ['#---1----|----2----|', '# 5 1.0 2.0 3.0', '$ 1 1 1 1 2 3 4', '#'])
    return {'m.rad': _nl(s, o)}, list(range(len(P)))


def out_wrl(V, P, o):
    """Several shapes, possibly at a place of their own"""
    n = max(1, min(o['sections'], len(P)))
    s = '#VRML V2.0 utf8\n'
    for b, sel in enumerate(np.array_split(np.arange(len(P)), n)):
        dx, turn, inside = np.array([0., 0., 0.]), '', ('', '')
        if o['mixed']:
            dx = np.array([b + .5, -2. * b, .25])
        R, scale, dy = np.eye(3), 1., np.zeros(3)
        if o.get('frames'):
            # a transform (translation, rotation and scale) in another one
            axis, scale, dy = (o['seed'] + b) % 3, [2., .5][(o['seed'] + b) % 2], np.array([.5, -1., 2. * b])
            i, j = [(1, 2), (2, 0), (0, 1)][axis]
            R[[i, j], [i, j]], R[i, j], R[j, i] = .8, -.6, .6
            turn = ' rotation %d %d %d %.17g scale %g %g %g\n' % (
                axis == 0, axis == 1, axis == 2, np.arctan2(.6, .8), scale, scale, scale)
            inside = ('Transform {\n translation %g %g %g\n children [\n' % tuple(dy), '] }')
        used = sorted({k for i in sel for k in P[i]})
        loc = {k: j for j, k in enumerate(used)}
        s += 'Transform {\n translation %g %g %g\n%s children [\n%sShape {\n geometry IndexedFaceSet {\n' % (
            tuple(dx) + (turn, inside[0]))
        s += '  coord Coordinate { point [ %s ] }\n' % ', '.join(
            ' '.join(number(c, 'short') for c in (np.asarray(V[k]) - dx).dot(R) / scale - dy) for k in used)
        s += '  coordIndex [ %s ]\n } } %s] }\n' % (', '.join(
            ', '.join(str(loc[k]) for k in P[i]) + ', -1' for i in sel), inside[1])
    if o.get('lines'):
        # a number or a face by line, with comments anywhere
        s = _comments(s.replace(', ', ',\n' if o['lines'] == 1 else '\n ').replace('[ ', '[\n'), o,
                      ['# comment', '   # 1. 2. 3.', '#0, 1, 2, -1,', ''])
    return {'m.wrl': s}, list(range(len(P)))


def out_inp(V, P, o, bodies):
    """bodies: list of (dat name, frame translation).  Every body is the whole mesh, in its own frame."""
    files, s = {}, '*DIODORE,PASS=ECN\n*HEADING\nPLATFORM\n$ comment \xe8\n*MASSDENSITY\n1018.0\n'
    t, q = _sorted_cells(P, o)
    ids = _ids(len(V), o)
    for k in range(2):
        d = ''
        if o['mixed']:
            d += '$ NODE\n'
        Vk = np.asarray(V) + [0., 0., k * 1.5]
        d += ''.join('%5d  %s\n' % (ids[i], _xyz(p, o, '  ')) for i, p in enumerate(Vk)) + '*RETURN\n'
        parts = []
        for sel in (q, t):
            if sel:
                parts.append(''.join(' ' + ' '.join('%5d' % j for j in [i + 1] + [ids[j] for j in P[i]]) + '\n'
                                     for i in sel))
        d += '*RETURN\n'.join(parts)
        if o['seed'] % 2:
            d += '*RETURN\n'
        elif o['seed'] % 3:
            d = d[:-1]
        files['body%d.DAT' % k] = _nl(d, o)
    for b, (k, x) in enumerate(bodies):
        s += '*FRAME,NAME=FR%d\n%s\n\n' % (b, [',', ', ', ' ', '  '][o['seed'] % 4].join(number(c, 'dot') for c in x))
    for b, (k, x) in enumerate(bodies):
        s += '*NODE,INPUT=body%d,FRAME=FR%d%s\n' % (k, b, ',INCREMENT=YES' if b else '')
        for sel, typ in ((q, 'Q4C000'), (t, 'T3C000')):
            if sel:
                s += '*ELEMENT,INPUT=body%d,TYPE=%s,ELSTRUCTURE=B%d\n' % (k, typ, b)
        s += '*MASS,STRUCTURE=B%d\n 0.0000000E+00\n' % b
    files['m.inp'] = _nl(s, o).encode('latin-1')
    W = np.concatenate([np.asarray(V) + [0., 0., k * 1.5] + np.array(x) for k, x in bodies])
    Q = [[j + b * len(V) for j in P[i]] for b in range(len(bodies)) for i in q + t]
    return files, (W, Q)


def out_med(V, P, o, path):
    import h5py
    t, q = _sorted_cells(P, o)
    with h5py.File(path, 'w') as f:
        g = f.create_group('ENS_MAA/hull/-0000000000000000001-0000000000000000001')
        g.create_dataset('NOE/COO', data=np.asarray(V, dtype=float).T.ravel())
        if o['mixed']:
            g.create_dataset('NOE/FAM', data=np.zeros(len(V), dtype='i4'))
        typ = 'i4' if o['double'] else 'i8'
        if t:
            g.create_dataset('MAI/TR3/NOD', data=np.array([P[i] for i in t], dtype=typ).T.ravel() + 1)
        if q:
            g.create_dataset('MAI/QU4/NOD', data=np.array([P[i] for i in q], dtype=typ).T.ravel() + 1)
        if o['lines']:
            g.create_dataset('MAI/SE2/NOD', data=np.array([1, 2], dtype=typ))
        f.create_group('FAS/hull')
    return None, t + q


WRITERS = {'mar': out_mar, 'nem': out_nem, 'nat': out_nat, 'gdf': out_gdf, 'hst': out_hst, 'dat': out_dat,
           'tec': out_tec, 'pnl': out_pnl, 'obj': out_obj, 'stl': out_stl, 'vtk': out_vtk, 'vtp': out_vtp,
           'vtu': out_vtu, 'msh22': out_msh22, 'msh41': out_msh41, 'rad': out_rad, 'wrl': out_wrl}
