"""C28: files that cannot be written entirely are told; nothing else is touched, and a later attempt succeeds"""
import contextlib
import io
import os
import re
import resource
import shutil
import subprocess
import sys

import numpy as np
from hypothesis import strategies as st

import clirun
import gen
import geom
import mfiles as meshio
from core import Property, Sub, Reject, Violation, require, harness, REPO
from sut import mesh_of, snapshot, require_unchanged
from props.c15 import write
from meshmagick import mmio

DATE = re.compile(rb'\w{3} \w{3} [ \d]\d \d\d:\d\d:\d\d \d{4}')
KEEP = b'the file that was there before\n' * 3


@harness
def clean():
    for f in os.listdir('.'):
        if os.path.isdir(f):
            shutil.rmtree(os.path.join(os.getcwd(), f))
        else:
            os.remove(f)


@harness
def content(fn):
    with open(fn, 'rb') as f:
        return DATE.sub(b'DATE', f.read())


@harness
def listing():
    return dict((f, 'directory' if os.path.isdir(f) else content(f)) for f in os.listdir('.'))


@contextlib.contextmanager
def room(size):
    """No file may be larger than this size: what a full disk does, at any byte"""
    soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
    resource.setrlimit(resource.RLIMIT_FSIZE, (size, hard))
    try:
        yield
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))


@harness
def limit(at, size):
    kind, k = at
    n = {'start': k, 'end': size - 1 - k, 'part': size * k // 1000}[kind]
    return int(min(max(n, 0), size - 1))


def place_st():
    return st.one_of(st.tuples(st.just('start'), st.integers(0, 80)), st.tuples(st.just('part'), st.integers(0, 999)),
                     st.tuples(st.just('end'), st.integers(0, 80))).map(list)


def attempt(func):
    """Exception raised by func (or None), text printed"""
    out = io.StringIO()
    exc = None
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
        try:
            func()
        except Exception as e:
            exc = e
    return exc, out.getvalue()


def faults(fn, write_it, case, ctx, what, told=None):
    """write_it writes the file fn: it must succeed, or tell that it failed"""
    before = listing()
    require(fn not in before, 'harness')
    exc, text = attempt(write_it)
    if exc is not None:
        raise Violation('%s: %s %s without any reason' % (what, type(exc).__name__, exc))
    ref = listing()
    require(sorted(ref) == sorted(list(before) + [fn]), '%s: files %s after writing %s', what, sorted(ref), fn)
    size = os.path.getsize(fn)
    for fault, at in case['faults']:
        os.remove(fn)
        where = '%s, %s %s' % (what, fault, at)
        if fault == 'full':
            n = limit(at, size)
            where += ' (%d bytes of %d)' % (n, size)
            if at[1] % 2:
                with open(fn, 'wb') as f:
                    f.write(KEEP)
            with room(n):
                exc, text = attempt(write_it)
        elif fault == 'directory':
            os.mkdir(fn)
            exc, text = attempt(write_it)
            require(os.path.isdir(fn) and os.listdir(fn) == [], '%s: the directory', where)
            os.rmdir(fn)
        elif fault == 'enough':
            with open(fn, 'wb') as f:
                f.write(KEEP * 9)
            with room(size + at[1] - at[1] % 3):
                exc, text = attempt(write_it)
            if exc is not None:
                raise Violation('%s: %s %s whereas there is room for the file' % (where, type(exc).__name__, exc))
        if fault != 'enough':
            require(exc is not None, '%s: the file could not be written, and nothing tells it', where)
            require(told is None or told not in text, '%s: %r is printed', where, text)
        now = listing()
        now.pop(fn, None)
        require(now == before, '%s: other files have been modified, %s instead of %s', where, sorted(now), sorted(before))
        if fault == 'enough':
            require(content(fn) == ref[fn], '%s: the file is not the one written over nothing', where)
        ctx.label(fault)
        if os.path.exists(fn):
            os.remove(fn)
        # what prevented from writing has gone
        exc, text = attempt(write_it)
        if exc is not None:
            raise Violation('%s: %s %s is raised afterwards' % (where, type(exc).__name__, exc))
        require(listing() == ref, '%s: another file is written afterwards', where)


def check_writers(case, ctx):
    clean()
    fmt = case['format']
    name = meshio.RW[fmt]
    V, F = gen.build(case['mesh'])
    V0, F0 = V.copy(), F.copy()
    fn = 'mesh.' + {'dat': 'DAT'}.get(name, name)
    write({'other.txt': 'not to be touched\n'})
    if not case['direct']:
        def write_it():
            mmio.write_mesh(fn, V, F, fmt)
    else:
        def write_it():
            getattr(mmio, 'write_' + {'tec': 'TEC', 'mar': 'MAR'}.get(name, name.upper()))(fn, V, F)
    faults(fn, write_it, case, ctx, fmt)
    require(np.array_equal(V, V0) and np.array_equal(F, F0), 'the arrays have been modified by writing')
    # places where nothing can be written
    before = listing()
    for path in ('missing/' + fn, 'other.txt/' + fn, '/dev/full'):
        exc, _ = attempt(lambda: mmio.write_mesh(path, V, F, fmt))
        require(exc is not None, '%s: nothing tells that %s cannot be written', fmt, path)
        require(listing() == before, '%s: files %s after writing %s', fmt, sorted(listing()), path)
    ctx.label(fmt)
    ctx.nontrivial(len(case['faults']) > 0)


def check_save(case, ctx):
    """Mesh.quick_save and MMViewer.save"""
    clean()
    m, V, F = mesh_of(case['mesh'])
    m.verbose_off()
    snap = snapshot(m)
    what = case['what']
    if what == 'viewer':
        from props.c26 import viewer
        with contextlib.redirect_stdout(io.StringIO()):
            v = viewer()
            v.add_polydata(m._vtk_polydata())
        faults('mmviewer_save.vtp', v.save, case, ctx, 'save', 'written')
    elif what == 'screenshot':
        from props.c26 import viewer, shots
        with contextlib.redirect_stdout(io.StringIO()):
            v = viewer()
        with shots(3 + len(V), 4 + len(F), len(V)):
            faults('screenshot.png', v.screenshot, case, ctx, 'screenshot', 'written')
    else:
        fn = {'default': 'quick_save.vtp', 'named': 'a.b.vtp', 'appended': 'mesh.mar.vtp'}[what]
        arg = {'default': None, 'named': 'a.b.vtp', 'appended': 'mesh.mar'}[what]
        faults(fn, lambda: m.quick_save(arg), case, ctx, 'quick_save', 'written')
    require_unchanged(m, snap, 'saving')
    ctx.label(what)
    ctx.nontrivial(len(case['faults']) > 0)


def check_cli(case, ctx):
    """Output file and report of the command line"""
    clean()
    V, F = gen.build(case['mesh'])
    V = V - [0., 0., V[:, 2].min() + .37 * geom.extent(V[:, 2:])]
    fn, = write_nat(V, F)
    out, rep = 'out.' + case['out'], 'report.txt'
    args = [fn]
    if case['mesh_out']:
        args += ['-o', out] + (['-ofmt', case['out']] if case['ofmt'] else [])
    if case['report']:
        args += ['--hydrostatics', '--zcog', '0.1', '--hs-report', rep]
    args += case['args']
    before = listing()
    exc, text = clirun.run_cli(args)
    if exc is not None:
        raise Reject('refused: %s' % exc)
    ref = listing()
    new = sorted(set(ref) - set(before))
    targets = ([out] if case['mesh_out'] else []) + ([rep] if case['report'] else [])
    require(new == sorted(targets), 'files written by %s: %s', args, new)
    require(dict((f, ref[f]) for f in before) == before, 'files that existed are modified by %s', args)
    sizes = dict((f, os.path.getsize(f)) for f in new)

    def remove():
        for f in new:
            if os.path.isdir(f):
                os.rmdir(f)
            elif os.path.exists(f):
                os.remove(f)

    for fault, at in case['faults']:
        remove()
        victim = new[at[1] % len(new)]
        where = '%s, %s %s' % (' '.join(args), fault, at)
        if fault == 'full':
            n = limit(at, sizes[victim])
            where += ' (%d bytes, files of %s bytes)' % (n, sorted(sizes.values()))
            with room(n):
                exc, text = clirun.run_cli(args)
        elif fault == 'directory':
            os.mkdir(victim)
            exc, text = clirun.run_cli(args)
        else:
            with room(max(sizes.values())):
                exc, text = clirun.run_cli(args)
            if exc is not None:
                raise Violation('%s: %s %s whereas there is room for the files' % (where, type(exc).__name__, exc))
            require(listing() == ref, '%s: the files are not the same', where)
        if fault != 'enough':
            require(exc is not None, '%s: a file could not be written, and nothing tells it', where)
            now = listing()
            require(dict((f, now.get(f)) for f in before) == before, '%s: files that existed are modified', where)
            require(set(now) <= set(ref), '%s: files %s', where, sorted(now))
        ctx.label(fault, victim.split('.')[0])
    remove()
    if case['mesh_out']:
        for path in ('missing/' + out, fn + '/' + out):
            exc, _ = clirun.run_cli([fn, '-o', path])
            require(exc is not None, 'nothing tells that %s cannot be written', path)
        exc, _ = clirun.run_cli([fn, '-o', '/dev/full', '-ofmt', case['out']])
        require(exc is not None, 'nothing tells that /dev/full is full')
        require(listing() == before, 'files %s', sorted(listing()))
    ctx.nontrivial(len(case['faults']) > 0)


def write_nat(V, F):
    files, _ = meshio.out_nat(V.tolist(), geom.polys_of(F),
                              {'num': 'e', 'pad': 0, 'crlf': False, 'per_line': 3, 'sections': 1, 'mixed': False,
                               'ids': 'plain', 'seed': 0, 'extra_vars': 0, 'double': True, 'lines': 0, 'binary': False})
    write(files)
    return list(files)


def check_process(case, ctx):
    """Exit status of the program when the disk is full"""
    clean()
    V, F = gen.build(case['mesh'])
    fn, = write_nat(V, F)
    args = {'full': [fn, '-o', '/dev/full', '-ofmt', case['out']],
            'missing': [fn, '-o', 'missing/mesh.' + case['out']],
            'limit': [fn, '-o', 'mesh.' + case['out']]}[case['what']]
    env = dict(os.environ, PYTHONPATH=REPO)
    soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
    pre = (lambda: resource.setrlimit(resource.RLIMIT_FSIZE, (100, hard))) if case['what'] == 'limit' else None
    p = subprocess.run([sys.executable, '-B', '-m', 'meshmagick.cli'] + args, env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, timeout=120, preexec_fn=pre)
    require(p.returncode != 0, 'exit status 0 whereas the file could not be written (%s)', ' '.join(args))
    require(p.returncode > 0, 'the program is killed by signal %d (%s)', -p.returncode, ' '.join(args))
    ctx.label(case['what'], case['out'])
    ctx.nontrivial(True)


def check_unreadable(case, ctx):
    """Files that do not exist, directories, empty files"""
    clean()
    fmt = case['format']
    name = case['name']
    os.mkdir('dir.' + name)
    write({'empty.' + name: '', 'blank.' + name: case['blank']})
    before = listing()
    for fn in ('missing.' + name, 'dir.' + name, 'empty.' + name, 'blank.' + name, 'blank.%s/mesh.%s' % (name, name)):
        exc, _ = attempt(lambda: mmio.load_mesh(fn, fmt))
        require(exc is not None, '%s: a mesh is read from %s', fmt, fn)
        exc, _ = clirun.run_cli([fn, '-ifmt', fmt, '-o', 'out.mar'])
        require(exc is not None, '%s: nothing tells that %s cannot be read', fmt, fn)
        require(listing() == before, '%s: files %s after reading %s', fmt, sorted(listing()), fn)
    ctx.label(fmt)
    ctx.nontrivial(True)


# --------------------------------------------------------------------------------------------------------------------

def faults_st(n=4):
    return st.lists(st.tuples(st.sampled_from(['full', 'full', 'full', 'directory', 'enough']), place_st()).map(list),
                    min_size=1, max_size=n)


OUT = ('mar', 'gdf', 'hst', 'nat', 'stl', 'vtu', 'vtp', 'vtk', 'tec', 'nem', 'pnl', 'obj')

PROPERTY = Property('C28', [
    Sub('writers', lambda: st.fixed_dictionaries({
        'format': st.sampled_from(sorted(meshio.RW)), 'direct': st.booleans(), 'faults': faults_st(),
        'mesh': gen.any_mesh(max_bodies=2, smax=8.)}), check_writers, quick=1200),
    Sub('large', lambda: gen.with_large(st.fixed_dictionaries({
        'format': st.sampled_from(sorted(meshio.RW)), 'direct': st.booleans(), 'faults': faults_st(2),
        'mesh': gen.any_mesh(max_bodies=2, smax=8.)}), False), check_writers, quick=80),
    Sub('save', lambda: st.fixed_dictionaries({
        'mesh': gen.any_mesh(max_bodies=2, smax=8.), 'faults': faults_st(),
        'what': st.sampled_from(['default', 'named', 'appended', 'viewer', 'screenshot'])}), check_save, quick=300),
    Sub('cli', lambda: st.fixed_dictionaries({
        'mesh': gen.closed_mesh(smax=6.), 'out': st.sampled_from(OUT), 'faults': faults_st(3), 'ofmt': st.booleans(),
        'report': st.booleans(), 'mesh_out': st.booleans(),
        'args': st.sampled_from([[], ['-tx', '1.5'], ['--flip-normals'], ['-i']])}).map(
            lambda c: c if c['report'] or c['mesh_out'] else dict(c, mesh_out=True)), check_cli, quick=400),
    Sub('process', lambda: st.fixed_dictionaries({
        'mesh': gen.closed_mesh(smax=4.), 'out': st.sampled_from(OUT),
        'what': st.sampled_from(['full', 'missing', 'limit', 'limit'])}), check_process, quick=16, factor=4),
    Sub('unreadable', lambda: st.fixed_dictionaries({
        'key': st.sampled_from(sorted(meshio.RW) + list(meshio.READ_ONLY)),
        'blank': st.sampled_from(['\n', ' ', '\n\n\n', '#\n', '$\n'])}).map(
            lambda c: {'format': c['key'], 'blank': c['blank'], 'name': {'diodore-dat': 'DAT', 'diodore-inp': 'inp'}.get(
                c['key'], meshio.RW.get(c['key'], c['key']))}), check_unreadable, quick=200),
], rule='Every writer (write_mesh and write_* for the 20 keywords, quick_save, save of the viewer, output and report of the '
        'command line) is run while a fault is injected: no room beyond any byte of the file (RLIMIT_FSIZE), target that '
        'is a directory, missing directory, full device; non-trivial: at least one fault, or unreadable input.',
    assumptions=['a full disk is simulated by the limit on the size of files: writing beyond it gives an error (EFBIG)'])
