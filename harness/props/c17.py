"""C17: malformed files are refused: never a hang, never faces that refer to missing vertices, never a truncated mesh"""
import os
import re

import numpy as np
from hypothesis import strategies as st

import gen
import geom
import mfiles as meshio
from core import Property, Sub, Reject, Violation, require
from props.c14 import build_case
from props.c15 import KEY, options, write, DOT
from sut import quiet
from meshmagick import mmio

# formats that declare numbers of entities, or that mark the end of data
COUNTED = ('mar', 'nem', 'nat', 'gdf', 'tec', 'pnl', 'msh22', 'msh41', 'vtp', 'vtu', 'med')
TEXT = ('mar', 'nem', 'nat', 'gdf', 'hst', 'dat', 'tec', 'pnl', 'msh22', 'msh41', 'rad', 'inp')
VTK = ('vtk', 'vtp', 'vtu', 'obj', 'stl')
TOKENS = ['0', '-1', '1', '2', '17', '99999', '3.5', '-', 'abc', '', '1 2', '\n', '\x00', '1e5', '+', '*RETURN', '.', 'nan', '-inf', '1e999']


def base(case, name):
    o = dict(case['o'], crlf=False, binary=False)
    V, F = build_case(case)
    P = geom.polys_of(F)
    if name == 'rad':
        P = [p for p in P if len(p) == 4]
        if len(P) < 3:
            raise Reject('less than 3 quadrangles')
    if name in DOT and o['num'] == 'short':
        o['num'] = 'dot'
    if name == 'med':
        meshio.out_med(V, P, o, 'm.med')
        with open('m.med', 'rb') as f:
            return {'m.med': f.read()}, 'm.med', V, P
    if name == 'inp':
        files, (V, P) = meshio.out_inp(V, P, o, case['bodies'])
        fn = ['m.inp', 'body0.DAT', 'body1.DAT'][case['pos'] % 3]
    else:
        files, _ = meshio.WRITERS[name](V.tolist(), P, o)
        fn, = files
    return files, fn, V, P


def load(fn, fmt):
    """None when the file is refused"""
    try:
        with quiet():
            V, F = mmio.load_mesh(os.path.join(os.getcwd(), fn), fmt)
    except (MemoryError, RecursionError) as exc:
        raise Violation('loading ends by %s' % type(exc).__name__)
    except Exception:
        return None
    V, F = np.asarray(V), np.asarray(F)
    require(V.ndim == 2 and V.shape[1] == 3 and V.dtype.kind == 'f', 'vertices have shape %s and type %s', V.shape,
            V.dtype)
    require(F.ndim == 2 and F.shape[1] == 4 and F.dtype.kind == 'i', 'faces have shape %s and type %s', F.shape,
            F.dtype)
    require(len(F) > 0, 'a mesh without any face is given')
    require(F.min() >= 0 and F.max() < len(V), 'faces refer to vertices %d to %d, there are %d of them', F.min(),
            F.max(), len(V))
    require(np.all(np.isfinite(V)), 'coordinates are not finite')
    return V, F


def check_truncated(case, ctx):
    name = case['format']
    files, fn, V, P = base(case, name)
    data = files[fn]
    n = len(data)
    cut = [0, n * case['pos'] // 2 ** 20, n * case['pos'] // 2 ** 20,
           n - 1 - n * (case['pos'] % 997) // 9970][case['where']]
    part = data[:cut]
    files[fn] = part
    for f in ('m.inp', 'body0.DAT', 'body1.DAT'):
        if os.path.exists(f):
            os.remove(f)
    write(files)
    main = 'm.inp' if name == 'inp' else fn
    got = load(main, KEY[name][case['key'] % len(KEY[name])])
    if name in COUNTED and name != 'med':
        # numbers of words are what allow to tell that something is missing
        words = lambda t: re.sub(r'(?m)^[ \t]*#.*$', '', t).split() if name == 'tec' else t.split()
        whole, left = words(data), words(part)
        missing = len(whole) - len(left)
        if name == 'tec' and left and missing:
            # nothing tells that the zones that follow are missing
            last = len(left) - 1 if whole[len(left) - 1] == 'ZONE' else len(left)
            if whole[last] == 'ZONE' and 'ZONE' in whole[:last]:
                raise Reject('end of a zone')
        spare = {'mar': 4, 'pnl': 9, 'vtp': 1, 'vtu': 1}.get(name, 0)
        if name == 'vtp' or name == 'vtu':
            missing = '</Piece>' not in part
            spare = 0
        if name in ('msh22', 'msh41'):
            missing = '$EndElements' not in part
        if got is not None and missing > spare:
            require(len(got[1]) >= len(P) and len(got[0]) >= min(len(V), 3),
                    '%s: %d faces and %d vertices are given by a file that declares %d faces and %d vertices', name,
                    len(got[1]), len(got[0]), len(P), len(V))
            raise Violation('%s: a truncated file is accepted' % name)
    if cut == 0 and name != 'inp':
        require(got is None, 'an empty file is accepted')
    ctx.label(name, 'refused' if got is None else 'accepted')
    ctx.nontrivial(cut < n)


def check_mutated(case, ctx):
    name = case['format']
    files, fn, V, P = base(case, name)
    data = files[fn]
    raw = isinstance(data, bytes)
    text = data.decode('latin-1') if raw else data
    for kind, pos, arg in case['edits']:
        lines = text.split('\n')
        tok = [m.span() for m in re.finditer(r'\S+', text)]
        if not tok:
            break
        i = pos % len(lines)
        a, b = tok[pos % len(tok)]
        if kind == 'delete line':
            del lines[i]
            text = '\n'.join(lines)
        elif kind == 'repeat line':
            lines.insert(i, lines[i])
            text = '\n'.join(lines)
        elif kind == 'swap lines':
            j = arg % len(lines)
            lines[i], lines[j] = lines[j], lines[i]
            text = '\n'.join(lines)
        elif kind == 'token':
            text = text[:a] + TOKENS[arg % len(TOKENS)] + text[b:]
        elif kind == 'char':
            k = pos % max(1, len(text))
            text = text[:k] + chr(32 + arg % 95) + text[k + 1:]
        elif kind == 'blank':
            lines.insert(i, '')
            text = '\n'.join(lines)
    files[fn] = text.encode('latin-1') if raw else text
    write(files)
    main = 'm.inp' if name == 'inp' else fn
    got = load(main, KEY[name][case['key'] % len(KEY[name])])
    ctx.label(name, name + (':refused' if got is None else ':accepted'))
    ctx.nontrivial(text != (data.decode('latin-1') if raw else data))


def check_index(case, ctx):
    """An index of a face out of the vertices is refused by every loader"""
    name = case['format']
    V, F = build_case(case)
    P = geom.polys_of(F)
    if name == 'rad':
        P = [p for p in P if len(p) == 4]
        if len(P) < 3:
            raise Reject('less than 3 quadrangles')
    o = dict(case['o'], crlf=False, binary=False, ids='plain', mixed=False, lines=0)
    if name in DOT and o['num'] == 'short':
        o['num'] = 'dot'
    i = case['pos'] % len(P)
    j = (case['pos'] // 7) % len(P[i])
    bad = -1 if case['key'] else len(V) + case['pos'] % 5
    if name == 'mar' and bad < 0 and j == 0:
        j = 1           # a panel that begins by 0 is the end mark of the format
    P[i] = list(P[i])
    P[i][j] = bad
    if name == 'med':
        meshio.out_med(V, P, o, 'm.med')
        fn = 'm.med'
    elif name == 'inp':
        files, _ = meshio.out_inp(V, P, o, case['bodies'])
        write(files)
        fn = 'm.inp'
    else:
        files, _ = meshio.WRITERS[name](V.tolist(), P, o)
        write(files)
        fn, = files
    got = load(fn, KEY[name][0])
    require(got is None, 'vertex %d of a face is accepted for a mesh '
            'of %d vertices', bad + 1, len(V))
    ctx.label(name, 'below' if bad < 0 else 'above')
    ctx.nontrivial(True)


def definitions(name, text):
    """Lines, which of them define faces (numbers of vertices), and which ones define vertices of faces"""
    lines = text.split('\n')
    words = [l.split() for l in lines]
    start = 0
    if name in ('msh22', 'msh41'):
        start = next(i for i, l in enumerate(lines) if l.startswith('$EndMeshFormat'))
    ints = [i for i, w in enumerate(words) if len(w) > 2 and all(x.isdigit() for x in w) and set(w) != {'0'}]
    floats = [i for i, w in enumerate(words) if len(w) > 2 and re.fullmatch(r'[-+.\deE\s]+', lines[i])
              and i not in ints and '.' in lines[i] and i > start]
    if name == 'gdf':
        floats = [i for i, w in enumerate(words) if i > 3 and w]
    if name == 'mar':
        floats = floats[:-1]        # the last one is the end mark
    if name in ('hst', 'rad', 'inp'):
        # only the vertices that faces refer to
        ids = {x for i in ints for x in words[i][{'hst': 0, 'rad': 3, 'inp': 1}[name]:]}
        floats = [i for i in floats if words[i][0] in ids]
    return lines, ints, floats


def check_lost(case, ctx):
    """One number is removed from a line that defines a face or a vertex, or added to one that defines a face, or a
    vertex is given the number of another one"""
    name, kind, pos = case['format'], case['kind'], case['pos']
    if name in ('rad', 'inp'):
        kind = 'twice'          # other losses give files that have another meaning
    elif kind == 'twice' and name not in ('hst', 'dat', 'msh22'):
        raise Reject('nodes have no number')
    case = dict(case, o=dict(case['o'], lines=0, extra_vars=0))
    files, fn, V, P = base(case, name)
    if name == 'inp':
        fn = 'body%d.DAT' % case['bodies'][0][0]
    lines, ints, floats = definitions(name, files[fn])
    words = [l.split() for l in lines]
    at = floats if kind in ('vertex', 'twice') else ints
    if len(at) < 1 + (kind == 'twice'):
        raise Reject('no such line')
    k = pos % len(at)
    i = at[k]
    w = words[i]
    j = pos // 7 % len(w)
    if kind == 'vertex' or name == 'msh22':
        j = len(w) - 1 - j % min(3, len(w))     # one of the coordinates or of the vertices
    if name == 'pnl' and kind in ('face', 'extra'):
        j = 2 + j % (len(w) - 2)        # the number of vertices comes second: it may be another valid description otherwise
    if kind == 'twice':
        w[0] = words[at[(k + 1 + pos // 7 % (len(at) - 1)) % len(at)]][0]
    elif kind == 'extra':
        w.insert(j, w[j])
    else:
        del w[j]
    lines[i] = ' ' + ' '.join(w)
    files[fn] = '\n'.join(lines)
    write(files)
    got = load('m.inp' if name == 'inp' else fn, KEY[name][case['key'] % len(KEY[name])])
    require(got is None, '%s: line %d, "%s", is accepted', name, i + 1, lines[i])
    ctx.label(name, kind)
    ctx.nontrivial(True)


def check_unsupported(case, ctx):
    """Files that are well formed, in a version that is not read or that hold what is not a mesh"""
    kind = case['kind']
    name = {'version': 'msh22', 'version4': 'msh41', 'sections': ['dat', 'inp'][case['pos'] % 2], 'missing': 'inp', 'vrml': 'wrl',
            'meshes': 'med', 'symmetries': 'pnl', 'polygons': ['vtk', 'vtp', 'vtu', 'obj', 'wrl'][case['pos'] % 5]}.get(kind, case['format'])
    if kind == 'vrml':
        # VRML 1 (and other versions) are refused before VTK sees anything of the file
        square = 'point [ 0 0 0, 1 0 0, 1 1 0, 0 1 0 ]'
        meshio_wrl = '#VRML V%s %s\n\n%s\n' % (case['text'], ['ascii', 'utf8'][case['pos'] % 2], [
            'Separator {\n}', 'Separator {\n  Coordinate3 { %s }\n  IndexedFaceSet { coordIndex [ 0, 1, 2, 3, -1 ] }\n}' % square,
            'Shape { geometry IndexedFaceSet { coord Coordinate { %s } coordIndex [ 0, 1, 2, 3, -1 ] } }' % square
        ][case['pos'] // 2 % 3])
        files, fn = {'m.wrl': meshio_wrl}, 'm.wrl'
        key = 'wrl'
    elif kind == 'polygons':
        # faces that have five vertices or more
        V, F = build_case(case)
        P = geom.polys_of(F)
        i = case['pos'] // 7 % len(P)
        P[i] = P[i] + [k for k in range(len(V)) if k not in P[i]][:5 - len(P[i]) + case['pos'] % 2]
        if len(P[i]) < 5:
            raise Reject('not enough vertices')
        files, _ = meshio.WRITERS[name](V.tolist(), P, dict(case['o'], cells='', binary=False))
        fn, = files
        key = KEY[name][case['key'] % len(KEY[name])]
    else:
        files, fn, V, P = base(dict(case, o=dict(case['o'], extra_vars=0)), name)
        key = KEY[name][case['key'] % len(KEY[name])]
    if kind == 'not finite':
        # one of the coordinates of a vertex
        if name == 'inp':
            fn = 'body%d.DAT' % case['bodies'][0][0]
        lines, ints, floats = definitions(name, files[fn])
        if not floats:
            raise Reject('no coordinate with a point')
        i = floats[case['pos'] % len(floats)]
        w = lines[i].split()
        w[len(w) - 1 - case['pos'] // 7 % min(3, len(w))] = ['nan', 'inf', '-inf', '1e999'][case['pos'] % 4]
        lines[i] = ' ' + ' '.join(w)
        files[fn] = '\n'.join(lines)
    elif kind == 'symmetries':
        # half or quarter of a mesh
        files[fn], n = re.subn(r'(%d\s+%d\s+)0(\s+)0' % (len(P), len(V)), r'\g<1>%d\g<2>%d' % [(1, 0), (0, 1), (1, 1)][
            case['pos'] % 3], files[fn], count=1)
        if not n:
            raise Reject('no header')
    elif kind.startswith('version'):
        files[fn] = re.sub(r'(\$MeshFormat\s+)\S+', lambda m: m.group(1) + case['text'], files[fn], count=1)
    elif kind == 'sections' and name == 'inp':
        # the nodes of one of the files that are referred to come twice
        fn = 'body%d.DAT' % case['bodies'][case['pos'] // 2 % len(case['bodies'])][0]
        i = files[fn].index('*RETURN')
        files[fn] = files[fn][:i] + '*RETURN\n' + files[fn][:i] + files[fn][i:]
    elif kind == 'sections':
        m = re.search(r'NODE.*?\*RETURN', files[fn], re.S)
        if m is None:
            raise Reject('no node section')
        files[fn] = files[fn][:m.end()] + '\n*' + m.group() + files[fn][m.end():]
    elif kind == 'meshes':
        # a second mesh in the same file
        import h5py
        with h5py.File('m.med', 'a') as f:
            f.copy('ENS_MAA/hull', 'ENS_MAA/' + ['deck', 'zzz'][case['pos'] % 2])
        with open('m.med', 'rb') as f:
            files = {'m.med': f.read()}
    for f in os.listdir('.'):
        if f.endswith('.DAT') or f == 'm.inp':
            os.remove(f)
    write(files)
    main = 'm.inp' if name == 'inp' else fn
    if kind == 'missing':
        # one of the files that are referred to does not exist
        os.remove('body%d.DAT' % case['bodies'][case['pos'] % len(case['bodies'])][0])
    got = load(main, key)
    require(got is None, '%s, %s: the file is accepted', name, kind)
    ctx.label(kind, name)
    ctx.nontrivial(got is None)


def check_confused(case, ctx):
    """A file is read with the loader of another format"""
    name = case['format']
    files, fn, V, P = base(case, name)
    write(files)
    load('m.inp' if name == 'inp' else fn, case['other'])
    ctx.label(name, case['other'])
    ctx.nontrivial(case['other'] not in KEY[name])


def common(formats):
    return {
        'format': st.sampled_from(formats), 'key': st.integers(0, 1), 'o': options(),
        'mesh': gen.closed_mesh(max_bodies=1, smax=8.), 'keep': st.sampled_from([0, 3, 5]), 'compact': st.booleans(),
        'scale': st.just(1.), 'shift': st.just([0., 0., 0.]), 'extra': st.just([]), 'unit': st.just(True),
        'bodies': st.lists(st.tuples(st.integers(0, 1), gen.vec3(-30, 30)).map(list), min_size=1, max_size=3),
        'pos': st.integers(0, 2 ** 20 - 1)}


PROPERTY = Property('C17', [
    Sub('truncated', lambda: st.fixed_dictionaries(dict(
        common(TEXT + VTK + ('med',)), where=st.integers(0, 3))), check_truncated, quick=2500),
    Sub('mutated', lambda: st.fixed_dictionaries(dict(common(TEXT), edits=st.lists(st.tuples(
        st.sampled_from(['delete line', 'repeat line', 'swap lines', 'token', 'token', 'token', 'char', 'blank']),
        st.integers(0, 2 ** 16), st.integers(0, 2 ** 16)).map(list), min_size=1, max_size=3))), check_mutated,
        quick=3000),
    Sub('index', lambda: st.fixed_dictionaries(common(
        ('mar', 'nem', 'nat', 'hst', 'tec', 'pnl', 'rad', 'med', 'dat', 'msh22', 'msh41', 'inp', 'inp'))), check_index,
        quick=900),
    Sub('lost', lambda: st.fixed_dictionaries(dict(common(
        ('mar', 'nem', 'nat', 'gdf', 'hst', 'tec', 'pnl', 'dat', 'msh22', 'msh41', 'rad', 'inp')),
        kind=st.sampled_from(['face', 'vertex', 'extra', 'twice']))), check_lost, quick=1200),
    Sub('unsupported', lambda: st.fixed_dictionaries(dict(
        common(TEXT), kind=st.sampled_from(['not finite', 'not finite', 'not finite', 'version', 'version4', 'sections',
                                            'missing', 'vrml', 'meshes', 'polygons', 'polygons', 'symmetries']),
        text=st.sampled_from(['1.0', '3.0', '5.0', '0.0']))), check_unsupported, quick=800),
    Sub('confused', lambda: st.fixed_dictionaries(dict(
        common(TEXT), other=st.sampled_from(['mar', 'nem', 'nat', 'gdf', 'hst', 'diodore-dat', 'tec', 'pnl', 'msh',
                                             'rad', 'inp', 'med', 'wrl']))), check_confused, quick=600),
], rule='Valid files of an independent writer are cut at any byte, have lines removed, repeated or exchanged, words or '
        'characters replaced, a number lost or added in the definition of a face or a vertex, a face index out of range, or are given to the loader of another format; non-trivial: '
        'the file differs from the valid one (or the loader from the one of the format).',
    assumptions=['the VTK and HDF5 libraries are only given truncated files, not arbitrary ones (and the VRML reader of VTK, which '
                 'may crash by itself, is given none)'])
