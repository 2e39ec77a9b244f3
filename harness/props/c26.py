"""C26: the scene of the viewer is the one of the objects it has been given, and its keys toggle what they announce"""
import contextlib
import io
import os

import numpy as np
from hypothesis import strategies as st

import clirun
import gen
import geom
import hydro
import mfiles as meshio
from core import Property, Sub, Reject, Violation, require, harness
from sut import mk, snapshot, require_unchanged
from props.c15 import write
import vtk
from vtk.util.numpy_support import numpy_to_vtk, vtk_to_numpy
from meshmagick import MMviewer
from meshmagick.hydrostatics_old import Hydrostatics, Force

vtk.vtkObject.GlobalWarningDisplayOff()
KEYS = 'nbhgxc'


class Key(object):
    def __init__(self, k):
        self.k = k

    def GetKeySym(self):
        return self.k

    def GetKeyCode(self):
        return self.k


@harness
def scene(v):
    c = v.renderer.GetViewProps()
    c.InitTraversal()
    return [c.GetNextProp() for _ in range(c.GetNumberOfItems())]


@harness
def data_of(actor):
    """(points, cells) of what is displayed by an actor"""
    m = actor.GetMapper()
    require(m is not None, 'an object of the scene has no data to display')
    m.Update()
    pd = m.GetInput()
    require(pd is not None, 'an object of the scene has no data to display')
    pts = np.array([pd.GetPoint(i) for i in range(pd.GetNumberOfPoints())]).reshape(-1, 3)
    cells = []
    for i in range(pd.GetNumberOfCells()):
        c = pd.GetCell(i)
        cells.append([c.GetPointId(k) for k in range(c.GetNumberOfPoints())])
    return pts, cells


def viewer():
    v = MMviewer.MMViewer()
    v.renderer.Render = lambda: None     # there is no display
    return v


class Shot(vtk.vtkWindowToImageFilter):
    """There is no display: a picture that is known stands for that of the window"""
    picture = None
    windows = []

    def Update(self):
        Shot.windows.append(self.GetInput())

    Modified = UpdateWholeExtent = Update

    def GetOutput(self):
        return Shot.picture

    def GetOutputPort(self, *_):
        self.Update()
        self.producer = vtk.vtkTrivialProducer()
        self.producer.SetOutput(Shot.picture)
        return self.producer.GetOutputPort()


@contextlib.contextmanager
def shots(nx, ny, seed):
    """Screenshots give a picture of these sizes"""
    pixels = np.random.RandomState(seed).randint(0, 256, (ny, nx, 3)).astype(np.uint8)
    image = vtk.vtkImageData()
    image.SetDimensions(nx, ny, 1)
    image.GetPointData().SetScalars(numpy_to_vtk(pixels.reshape(-1, 3), deep=True))
    real = vtk.vtkWindowToImageFilter
    Shot.picture, Shot.windows = image, []
    vtk.vtkWindowToImageFilter = Shot
    try:
        yield pixels
    finally:
        vtk.vtkWindowToImageFilter = real


def pixels_of(fn):
    r = vtk.vtkPNGReader()
    r.SetFileName(fn)
    r.Update()
    im = r.GetOutput()
    nx, ny, _ = im.GetDimensions()
    return np.array(vtk_to_numpy(im.GetPointData().GetScalars())).reshape(ny, nx, -1)


def check_mesh(actor, V, F, what):
    pts, cells = data_of(actor)
    s = np.abs(V).max() + 1e-30
    require(len(pts) == len(V) and np.abs(pts - V).max() < 2e-7 * s, '%s: points that are displayed', what)
    require(cells == [p for p in geom.polys_of(F)], '%s: faces that are displayed', what)
    require(actor.GetVisibility() and isinstance(actor, vtk.vtkActor), '%s: not visible', what)


def arrows(pts, n):
    require(n and len(pts) % n == 0 and len(pts), 'normals: %d points of arrows for %d faces', len(pts), n)
    return pts.reshape(n, -1, 3)


def check_arrow(p, origin, value, s, what):
    """p: points of an arrow from the origin to origin + value"""
    L = np.linalg.norm(value)
    u = value / L
    d = (p - origin).dot(u)
    e = 1e-5 * (s + L)
    require(abs(d.min()) < e and abs(d.max() - L) < e, '%s: an arrow is from %g to %g, 0 to %g expected', what, d.min(),
            d.max(), L)
    r = np.linalg.norm(p - origin - np.outer(d, u), axis=1)
    require(r.max() < .3 * L + e, '%s: an arrow is not on its axis', what)


def check_normals(actors, objs, what):
    require(len(actors) == len(objs), '%s: %d sets of normals for %d objects', what, len(actors), len(objs))
    for a, o in zip(actors, objs):
        if o[0] != 'mesh':
            continue
        V, F = o[1], o[2]
        P = geom.polys_of(F)
        pts = data_of(a)[0]
        G = arrows(pts, len(P))
        for g, p in zip(G, P):
            q = V[p]
            n = sum(np.cross(q[i] - q[0], q[i + 1] - q[0]) for i in range(1, len(q) - 1))
            check_arrow(g, q.mean(axis=0), n / np.linalg.norm(n), np.abs(V).max(), what)


def check_planes(actors, kinds, box, what):
    """Each plane covers the bounding box"""
    require(len(actors) == len(kinds), '%s: %d planes', what, len(actors))
    lo, hi = box
    seen, colors = [], []
    for a in actors:
        pts, cells = data_of(a)
        s = np.abs(pts).max() + 1e-30
        null = [k for k in range(3) if np.abs(pts[:, k]).max() < 1e-6 * s]
        require(len(null) == 1, '%s: not a plane of coordinates: %s', what, pts.tolist())
        k = null[0]
        seen.append(k)
        for i in set(range(3)) - {k}:
            margin = pts[:, i].max() - hi[i], lo[i] - pts[:, i].min()
            require(min(margin) > -1e-6 * s, '%s: the plane does not cover the mesh', what)
            require(abs(margin[0] - margin[1]) < 1e-5 * s, '%s: the plane is not centered on the mesh', what)
        colors.append(a.GetProperty().GetColor())
    require(sorted(seen) == sorted(kinds), '%s: planes %s', what, seen)
    require(len(set(colors)) == len(colors), '%s: planes have the same color', what)


def flat(V, F):
    for p in geom.polys_of(F):
        q = V[p]
        n = sum(np.cross(q[i] - q[0], q[i + 1] - q[0]) for i in range(1, len(q) - 1))
        s = np.linalg.norm(q - q[0], axis=1).max()
        if np.linalg.norm(n) < 1e-3 * s * s:
            return False
        if len(p) == 4 and abs((q - q[0]).dot(n)).max() > 1e-6 * s * np.linalg.norm(n):
            return False
    return True


def check(case, ctx):
    for f in os.listdir('.'):
        if os.path.isfile(f):
            os.remove(f)
    v = viewer()
    base = scene(v)
    objs, actors = [], []

    def add(what, color=(1, 1, 0), rep='surface'):
        new = [a for a in scene(v) if a not in base and a not in sum(groups.values(), []) and a not in actors]
        require(len(new) == 1, '%s: %d new objects in the scene', what[0], len(new))
        actors.append(new[0])
        objs.append(what)
        got = new[0].GetProperty().GetColor()
        require(np.abs(np.array(got) - color).max() < 1e-9, '%s: color', what[0])
        require(new[0].GetProperty().GetRepresentation() == (1 if rep == 'wireframe' else 2), '%s: representation', what[0])

    groups = {}
    V, F = gen.build(case['mesh'])
    if not flat(V, F):
        raise Reject('warped or degenerated faces')
    for i in case['turned']:
        # faces whose orientation is not consistent with their neighbours
        F[i % len(F)] = F[i % len(F)][::-1]
    m = mk(V, F)
    with contextlib.redirect_stdout(io.StringIO()):
        m.faces_areas if case['warm'] else None
    snap = snapshot(m)
    color, rep = tuple(case['color']), case['rep']
    if color == (1., 1., 0.):
        v.add_polydata(m._vtk_polydata())
        rep = 'surface'
    else:
        v.add_polydata(m._vtk_polydata(), color=color, representation=rep)
    add(('mesh', V, F), color, rep)
    box = V.min(axis=0), V.max(axis=0)
    done, toggles = [], 0
    for op in case['ops']:
        kind, x = op
        done.append(kind)
        what = 'after ' + ' '.join(done)
        with contextlib.redirect_stdout(io.StringIO()):
            if kind in KEYS or kind == 'other':
                before = scene(v)
                with shots(3 + len(done), 7, len(done)) if kind == 'c' else contextlib.nullcontext() as pixels:
                    v.on_key_press(Key(kind if kind in KEYS else x), 'KeyPressEvent')
                after = scene(v)
                if kind == 'x':
                    require(os.listdir('.') == ['mmviewer_save.vtp'], '%s: files %s', what, os.listdir('.'))
                    with open('mmviewer_save.vtp') as f:
                        text = f.read()
                    os.remove('mmviewer_save.vtp')
                    W, Q = read_vtp()(text)
                    require(len(W) == len(V) and np.abs(W - V).max() < 1e-6 * np.abs(V).max() and
                            Q == geom.polys_of(F), '%s: the file is not the main object', what)
                    ctx.label('saved')
                elif kind == 'c':
                    require(before == after, '%s: the screenshot changes the scene', what)
                    require(os.listdir('.') == ['screenshot.png'], '%s: files %s', what, os.listdir('.'))
                    require(len(Shot.windows) > 0 and all(w is v.render_window for w in Shot.windows),
                            '%s: it is not a picture of the window of the viewer', what)
                    require(np.array_equal(pixels_of('screenshot.png'), pixels), '%s: another picture is in the file', what)
                    os.remove('screenshot.png')
                    ctx.label('screenshot')
                elif kind == 'other':
                    require(before == after, '%s: key %s changes the scene', what, x)
                elif kind in groups:
                    require(after == [a for a in before if a not in groups[kind]], '%s: it is not hidden', what)
                    del groups[kind]
                    toggles += 1
                else:
                    require(after[:len(before)] == before and len(after) > len(before), '%s: nothing is shown', what)
                    groups[kind] = after[len(before):]
                    toggles += 1
                    if kind == 'n':
                        check_normals(groups['n'], objs, what)
                    elif kind == 'h':
                        check_planes(groups['h'], [2], box, what)
                    elif kind == 'g':
                        check_planes(groups['g'], [0, 1, 2], box, what)
                    else:
                        require(len(groups['b']) == 1, '%s: axes', what)
                        b = np.array(groups['b'][0].GetBounds()).reshape(3, 2)
                        i = groups['b'][0].GetInput()
                        b = np.array(i.GetBounds()).reshape(3, 2) if i else b
                        require(np.abs(b - np.array(box).T).max() < 1e-6 * np.abs(V).max(), '%s: axes', what)
            elif kind == 'normals_on':
                v.normals_on()
                if 'n' not in groups:
                    groups['n'] = [a for a in scene(v) if a not in base and a not in sum(groups.values(), []) + actors]
                    check_normals(groups['n'], objs, what)
            elif kind == 'normals_off':
                v.normals_off()
                groups.pop('n', None)
            elif kind == 'mesh':
                V2, F2 = gen.build(x)
                if not flat(V2, F2):
                    continue
                v.add_polydata(mk(V2, F2)._vtk_polydata(), color=(0, 1, 0))
                add(('mesh', V2, F2), (0, 1, 0))
            elif kind == 'point':
                p = np.array(x[0])
                v.add_point(p, color=x[2])
                add(('point',), x[2])
                pts, cells = data_of(actors[-1])
                require(cells == [[0]] and np.abs(pts[0] - p).max() < 1e-6 * (1 + np.abs(p).max()), '%s: point', what)
            elif kind == 'line':
                p, q = np.array(x[0]), np.array(x[1])
                v.add_line(p, q, color=x[2])
                add(('line',), x[2])
                pts, cells = data_of(actors[-1])
                require(cells == [[0, 1]] and np.abs(pts - [p, q]).max() < 1e-6 * (1 + np.abs(pts).max()), '%s: line', what)
            elif kind == 'vector':
                p, q = np.array(x[0]), np.array(x[1])
                if np.linalg.norm(q) < 1e-3:
                    continue
                v.add_vector(p, q, scale=x[3], color=x[2])
                new = [a for a in scene(v) if a not in base and a not in sum(groups.values(), []) + actors]
                require(len(new) == 1, '%s: %d new objects', what, len(new))
                actors.append(new[0])
                check_arrow(data_of(new[0])[0], p, q / x[3], np.abs(p).max(), what)
                require(np.abs(np.array(new[0].GetProperty().GetColor()) - x[2]).max() < 1e-9, '%s: color', what)
        now = scene(v)
        exp = base + actors + sum(groups.values(), [])
        require(len(now) == len(exp) and all(a in exp for a in now), '%s: the scene has %d objects, %d expected', what, len(now),
                len(exp))
        k = 0
        for a in actors:
            if objs[k:] and objs[k][0] == 'mesh' and a is actors[0]:
                check_mesh(a, V, F, what)
        ctx.label(kind)
    require_unchanged(m, snap, 'mesh')
    require(not v.render_window_interactor.GetDone(), 'the viewer is left without asking for it')
    if case['quit']:
        before = scene(v)
        v.on_key_press(Key(case['quit']), 'KeyPressEvent')
        require(v.render_window_interactor.GetDone(), 'key %s does not leave the viewer', case['quit'])
        require(scene(v) == before, 'leaving the viewer changes the scene')
    ctx.nontrivial(toggles > 1)


def read_vtp():
    """Reads the file by VTK itself (it may be written in any encoding)"""
    def read(text):
        r = vtk.vtkXMLPolyDataReader()
        r.ReadFromInputStringOn()
        r.SetInputString(text)
        r.Update()
        pd = r.GetOutput()
        W = np.array([pd.GetPoint(i) for i in range(pd.GetNumberOfPoints())]).reshape(-1, 3)
        Q = [[pd.GetCell(i).GetPointId(k) for k in range(pd.GetCell(i).GetNumberOfPoints())]
             for i in range(pd.GetNumberOfCells())]
        return W, Q
    return read


def check_show(case, ctx):
    """Mesh.show and the --show option"""
    V, F = gen.build(case['mesh'])
    used, F = np.unique(F, return_inverse=True)
    V, F = np.round(V[used], 6), F.reshape((-1, 4))
    seen = []
    show = MMviewer.MMViewer.show

    def record(v):
        seen.append(([data_of(a) for a in scene(v) if isinstance(a, vtk.vtkActor)]))

    MMviewer.MMViewer.show = record
    try:
        if case['cli']:
            o = {'num': 'e', 'pad': 0, 'crlf': False, 'per_line': 3, 'sections': 1, 'mixed': False, 'ids': 'plain', 'seed': 0,
                 'extra_vars': 0, 'double': True, 'lines': 0, 'binary': False}
            files, _ = meshio.WRITERS['nem'](V.tolist(), geom.polys_of(F), o)
            write({'hull.nem': list(files.values())[0]})
            exc, _ = clirun.run_cli(['hull.nem', case['opt']] + (['-q'] if case['warm'] else []))
            if exc is not None:
                raise Violation('%s: %s %s' % (case['opt'], type(exc).__name__, exc))
        else:
            m = mk(V, F)
            snap = snapshot(m)
            if case['warm']:
                m.faces_areas
            m.show()
            require_unchanged(m, snap, 'mesh')
            # the mesh is still a usual mesh
            twin = m.copy()
            require_unchanged(twin, snap, 'copy of a mesh that has been shown')
            twin.translate([1., 2., 3.])
            require_unchanged(m, snap, 'mesh')
    finally:
        MMviewer.MMViewer.show = show
    require(len(seen) == 1, 'the viewer is shown %d times', len(seen))
    require(len(seen[0]) == 1, '%d objects are shown', len(seen[0]))
    pts, cells = seen[0][0]
    P = [pts[c] for c in cells]
    Q = [V[p] for p in geom.polys_of(F)]
    require(len(P) == len(Q), '%d faces are shown, %d expected', len(P), len(Q))
    if not case['cli']:
        require(cells == geom.polys_of(F), 'faces that are shown')
    for p, q in zip(P, Q):
        require(len(p) == len(q) and any(np.abs(np.roll(p, i, axis=0) - q).max() < 2e-6 + 1e-6 * np.abs(V).max()
                                         for i in range(len(q))), 'face %s is shown, %s expected', p.tolist(), q.tolist())
    ctx.label('cli' if case['cli'] else 'Mesh.show')
    ctx.nontrivial(True)


def check_hydro(case, ctx):
    """Hydrostatics.show: the body, its centers and the forces"""
    V, F = gen.build(case['mesh'])
    V = V.dot(gen.rotmat(case['angles']).T)
    lo, hi = V.min(axis=0), V.max(axis=0)
    V = V - [0., 0., lo[2] + case['start'] * (hi[2] - lo[2])]
    full = geom.volume_moments(geom.soup(V, F))[0]
    h = hydro.Hydro(V, F)
    if full < 1e-3 * geom.size_of(V) ** 3 or not h.ok or h.cut.slack > 1e-9 * h.cut.size or h.volume < 1e-3 * full or \
            h.wp_area < 1e-4 * geom.size_of(V) ** 2:
        raise Reject('no clear waterline')
    cog = (lo + hi) / 2 * [1., 1., 0.] + .6 * (hi - lo) * np.array(case['cog'])
    seen = []

    def record(v):
        seen.append([(data_of(a), a.GetProperty().GetColor()) for a in scene(v) if isinstance(a, vtk.vtkActor)])

    show = MMviewer.MMViewer.show
    MMviewer.MMViewer.show = record
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            mesh = mk(V, F)
            snap = snapshot(mesh)
            hs = Hydrostatics(mesh, cog=cog, rho_water=case['rho'], grav=9.81)
            forces = []
            for p, q in case['forces']:
                q = np.array(q) * case['rho'] * full
                if np.linalg.norm(q) < 1e-3 * case['rho'] * full:
                    continue
                forces.append((np.array(p), q))
                hs.add_force(Force(point=p, value=q, mode='absolute'))
            for _ in range(case['times']):
                hs.show()
            require_unchanged(mesh, snap, 'mesh')
    finally:
        MMviewer.MMViewer.show = show
    require(len(seen) == case['times'], 'the viewer is shown %d times', len(seen))
    s = np.abs(V).max() + np.abs(cog).max() + max([np.abs(p).max() for p, _ in forces] + [0.])
    mass = case['rho'] * h.volume
    red, green, blue, black = (1., 0., 0.), (0., 1., 0.), (0., 0., 1.), (0., 0., 0.)
    exp = [('point', np.zeros(3), black), ('point', cog, red), ('line', cog, red), ('point', h.B, green),
           ('line', h.B, green), ('arrow', cog, np.array([0., 0., -9.81]), red),
           ('arrow', h.B, np.array([0., 0., 9.81]), green)]
    for p, q in forces:
        exp += [('point', p, blue), ('arrow', p, q / mass, blue)]
    e = 2e-6 * s * (1 + geom.size_of(V) ** 3 / h.volume * 1e-3)
    for actors in seen:
        require(len(actors) == 1 + len(exp), '%d objects are shown, %d expected', len(actors), 1 + len(exp))
        left = []
        for (pts, cells), color in actors:
            if len(pts) == len(V) and np.abs(pts - V).max() < e and cells == geom.polys_of(F):
                left.append('mesh')
                continue
            for i, x in enumerate(exp):
                if i in left or np.abs(np.array(color) - x[-1]).max() > 1e-9:
                    continue
                if x[0] == 'point' and cells == [[0]] and np.abs(pts[0] - x[1]).max() < e:
                    break
                if x[0] == 'line' and cells in ([[0, 1]], [[1, 0]]) and np.abs(pts - [np.zeros(3), x[1]]).max() < e:
                    break
                if x[0] == 'arrow' and len(pts) > 2:
                    try:
                        check_arrow(pts, x[1], x[2], s, 'arrow')
                        break
                    except Violation:
                        pass
            else:
                raise Violation('what is shown at %s with color %s is not expected', pts[:2].tolist(), color)
            left.append(i)
        require(left.count('mesh') == 1, 'the mesh is shown %d times', left.count('mesh'))
    ctx.label('forces:%d' % len(forces))
    ctx.nontrivial(True)


def op_st():
    color = st.tuples(*[st.sampled_from([0., .25, 1.])] * 3).map(list)
    x = st.tuples(gen.vec3(-5, 5), gen.vec3(-5, 5), color, st.sampled_from([1., 2., .5])).map(list)
    key = st.sampled_from(['n', 'n', 'b', 'h', 'g', 'x', 'c']).map(lambda k: [k, None])
    ops = {'key': key, 'other': st.sampled_from('zadkp').map(lambda k: ['other', k]),
           'shape': st.tuples(st.sampled_from(['point', 'line', 'vector']), x).map(list),
           'mesh': gen.closed_mesh(max_bodies=1).map(lambda m: ['mesh', m]),
           'normals': st.sampled_from(['normals_on', 'normals_off']).map(lambda k: [k, None])}
    return st.sampled_from(['key'] * 6 + ['other', 'shape', 'shape', 'mesh', 'normals']).flatmap(lambda k: ops[k])


def hydro_st():
    unit = st.integers(-10, 10).map(lambda k: k / 10.)
    vec = st.tuples(unit, unit, unit).map(list)
    return st.fixed_dictionaries({
        'mesh': gen.closed_mesh(max_bodies=2, smax=8.), 'cog': vec, 'start': st.integers(5, 95).map(lambda k: k / 100.),
        'angles': st.one_of(st.just([0., 0., 0.]), st.tuples(gen.num(-.5, .5), gen.num(-.5, .5), gen.angle()).map(list)),
        'rho': st.sampled_from([1023., 1000.]), 'times': st.sampled_from([1, 2]),
        'forces': st.lists(st.tuples(vec, vec).map(list), max_size=3)})


PROPERTY = Property('C26', [
    Sub('scene', lambda: st.fixed_dictionaries({
        'quit': st.sampled_from(['', '', 'q', 'e']),
        'mesh': gen.any_mesh(max_bodies=2), 'warm': st.booleans(), 'rep': st.sampled_from(['surface', 'wireframe']),
        'color': st.sampled_from([[1., 1., 0.], [0., 0., 1.], [.5, .25, 0.]]),
        'turned': st.lists(st.integers(0, 40), max_size=2),
        'ops': st.lists(op_st(), min_size=2, max_size=9)}), check, quick=600),
    Sub('show', lambda: st.fixed_dictionaries({
        'mesh': gen.any_mesh(max_bodies=2), 'warm': st.booleans(), 'cli': st.booleans(),
        'opt': st.sampled_from(['-sh', '--show'])}), check_show, quick=150),
    Sub('hydro', hydro_st, check_hydro, quick=120),
], rule='Histories of keys and of objects added to the viewer; non-trivial: at least two toggles.',
    assumptions=['the scene graph is what is rendered (there is no display)'])
