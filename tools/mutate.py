#!/usr/bin/env python3
"""Mutation testing of the checks: small changes of meshmagick's source are made one at a time in scratch copies of
/repo and the checks of the concerned properties are run against them (VERIF_REPO). It lists the changes that no check
sees, and tells for these whether the stable tests see them. It is a development tool: no check uses it.

    mutate.py FILE.py [--jobs 7] [--sample N] [--seed S] [--only REGEX(function name)] [--props C01,C02] --out OUT.jsonl
"""
import argparse, ast, json, os, random, re, shutil, subprocess, sys, threading, queue

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = {
    'mesh.py': {'_rodrigues': 'C19', '_get_rot': 'C19', 'conformal': 'C04', 'quality': 'C27', 'quick_save': 'C16', 'show': 'C26', '_vtk_polydata': 'C26 C27', 'Plane': 'C19 C08 C07 C18', '*': 'C01 C03 C02 C07 C05 C06 C04 C08 C18 C16'},
    'mesh_clipper.py': {'*': 'C08 C09 C10 C01'},
    'hydrostatics.py': {'compute_hydrostatics': 'C10 C13 C12', 'displacement_equilibrium': 'C11 C12', 'full_equilibrium': 'C12 C13',
                        '*': 'C13 C10'},
    'mmio.py': {'load': 'C15 C14 C17 C16', 'write': 'C16 C14 C15 C18', '*': 'C14 C16 C15 C17'},
    'cli.py': {'*': 'C18 C13 C25'},
    'hydrostatics_old.py': {'show': 'C26', 'Force': 'C23', '*': 'C23 C24'},
    'MMviewer.py': {'*': 'C26'},
    'rotations.py': {'*': 'C20 C02 C12 C13'},
    'inertia.py': {'RigidBodyInertia': 'C21 C03 C10', '*': 'C22 C21'},
    'densities.py': {'*': 'C22 C18'},
    'tools.py': {'*': 'C05 C09 C15 C07'},
}
SKIP = re.compile(r'screenshot|^hide$|finalize|^test$|RotationalInertia3D|AngularVelocityVector|verbose|^_print|__str__$')


def mutants(src):
    """Yields (function, line, description, new source)"""
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()))
    raw = src.encode()

    def span(n):
        return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset

    def put(n, text):
        a, b = span(n)
        return (raw[:a] + text.encode() + raw[b:]).decode()

    out = []

    def expr(n, new, fn, what):
        text = '(' + ast.unparse(new) + ')'
        out.append((fn, n.lineno, '%s -> %s' % (ast.unparse(n), ast.unparse(new)), n, text))

    CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq],
           ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
    BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.Pow: [ast.Mult]}

    def is_print(n):
        return isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and getattr(n.value.func, 'id', '') in ('print', 'warn')

    def visit(n, fn):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            fn = fn + [n.name]
            if SKIP.search(n.name):
                return
            for c in n.body:
                visit(c, fn)
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        if is_print(n) or isinstance(n, (ast.Import, ast.ImportFrom, ast.Raise)):
            return
        if isinstance(n, ast.If) and 'verbose' in ast.unparse(n.test) and not n.orelse:
            return
        if isinstance(n, ast.If) and '__name__' in ast.unparse(n.test):
            return
        if not fn and not isinstance(n, (ast.Assign, ast.If)):
            return
        name = '.'.join(fn)
        if isinstance(n, (ast.Expr, ast.AugAssign, ast.Assign, ast.Delete)) and fn:
            out.append((name, n.lineno, 'delete: ' + ast.unparse(n)[:90], n, 'pass'))
        if isinstance(n, (ast.Break, ast.Continue)):
            out.append((name, n.lineno, 'delete: ' + ast.unparse(n), n, 'pass'))
        if isinstance(n, (ast.If, ast.While)) and fn:
            t = n.test
            for v in ('True', 'False'):
                if not isinstance(t, ast.Constant):
                    out.append((name, t.lineno, 'condition %s -> %s' % (ast.unparse(t)[:80], v), t, v))
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP.get(type(n.ops[0]), []):
                expr(n, ast.Compare(n.left, [o()], n.comparators), name, '')
        if isinstance(n, ast.BinOp) and type(n.op) in BIN and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            for o in BIN[type(n.op)]:
                expr(n, ast.BinOp(n.left, o(), n.right), name, '')
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            expr(n, n.operand, name, '')
        if isinstance(n, ast.BoolOp):
            expr(n, ast.BoolOp(ast.Or() if isinstance(n.op, ast.And) else ast.And(), n.values), name, '')
        if isinstance(n, ast.Constant):
            v = n.value
            if isinstance(v, bool):
                expr(n, ast.Constant(not v), name, '')
            elif isinstance(v, int):
                expr(n, ast.Constant(v + 1), name, '')
                if v > 0:
                    expr(n, ast.Constant(v - 1), name, '')
            elif isinstance(v, float):
                expr(n, ast.Constant(v * 2 if v else 1.), name, '')
        if isinstance(n, ast.Call) and n.keywords and getattr(n.func, 'attr', '') != 'add_argument':
            for k in n.keywords:
                expr(n, ast.Call(n.func, n.args, [x for x in n.keywords if x is not k]), name, '')
        if isinstance(n, ast.Call) and len(n.args) == 2 and not n.keywords:
            expr(n, ast.Call(n.func, n.args[::-1], []), name, '')
        for c in ast.iter_child_nodes(n):
            visit(c, fn)

    for n in tree.body:
        visit(n, [])
    for fn, line, what, n, text in out:
        try:
            new = put(n, text)
            ast.parse(new)
        except (SyntaxError, ValueError):
            continue
        if ast.dump(ast.parse(new)) != ast.dump(tree):
            yield fn, line, what, new


def props_of(fname, fn):
    table = PROPS[fname]
    for k, v in table.items():
        if k != '*' and any(p.startswith(k) for p in fn.split('.')):
            return v.split()
    return table['*'].split()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('file')
    ap.add_argument('--jobs', type=int, default=7)
    ap.add_argument('--sample', type=int)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--only')
    ap.add_argument('--props')
    ap.add_argument('--retry', help='a former output whose survivors are tried again')
    ap.add_argument('--out', required=True)
    ap.add_argument('--list', action='store_true')
    a = ap.parse_args()
    src = open('/repo/meshmagick/' + a.file).read()
    todo = list(mutants(src))
    if a.only:
        todo = [m for m in todo if re.search(a.only, m[0])]
    if a.retry:
        keep = {(r['fn'], r['what'], r['n']) for r in map(json.loads, open(a.retry)) if r['status'] == 'SURVIVED'}
    seen = {}
    todo2 = []
    for m in todo:
        k = (m[0], m[2])
        seen[k] = seen.get(k, 0) + 1
        todo2.append(m + (seen[k],))
    todo = todo2
    if a.retry:
        todo = [m for m in todo if (m[0], m[2], m[4]) in keep]
    if a.sample and a.sample < len(todo):
        todo = random.Random(a.seed).sample(todo, a.sample)
    print(len(todo), 'mutants')
    if a.list:
        for m in todo:
            print(m[0], m[1], m[2])
        return
    q = queue.Queue()
    for m in todo:
        q.put(m)
    lock = threading.Lock()
    out = open(a.out, 'w')
    stats = {}

    def worker(k):
        d = '/tmp/mut/%s_%d' % (os.path.basename(a.out), k)
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree('/repo', d, symlinks=True, ignore=shutil.ignore_patterns('.git', 'doc'))
        path = os.path.join(d, 'meshmagick', a.file)
        while True:
            try:
                fn, line, what, new, n = q.get_nowait()
            except queue.Empty:
                break
            open(path, 'w').write(new)
            status, by = 'SURVIVED', ''
            for p in (a.props.split(',') if a.props else props_of(a.file, fn)):
                env = dict(os.environ, VERIF_REPO=d, VERIF_JOBS='1', VERIF_TIER='quick', VERIF_SEED='1',
                           VERIF_REPLAYS='/tmp/mut/replays', PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
                try:
                    r = subprocess.run(['/opt/venv/bin/python', 'harness/run.py', p], cwd=VERIF, env=env, capture_output=True,
                                       text=True, timeout=400)
                except subprocess.TimeoutExpired:
                    status, by = 'timeout', p
                    break
                if r.returncode == 1 and 'VIOLATION property=' in r.stdout:
                    status, by = 'killed', p
                    break
                if r.returncode != 0:
                    status, by = 'error%d' % r.returncode, p + ' ' + (r.stdout + r.stderr)[-200:]
                    break
            if status == 'SURVIVED':
                r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '--timeout=300', 'meshmagick'],
                                   cwd=d, env=dict(os.environ, PYTHONPATH=d, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg'), capture_output=True, text=True)
                if r.returncode != 0:
                    status = 'tests'
            with lock:
                stats[status] = stats.get(status, 0) + 1
                out.write(json.dumps(dict(status=status, fn=fn, line=line, what=what, by=by, n=n)) + '\n')
                out.flush()
                if status not in ('killed', 'tests'):
                    print(status, by, '%s:%d' % (fn, line), what, flush=True)
        shutil.rmtree(d, ignore_errors=True)

    ts = [threading.Thread(target=worker, args=(k,)) for k in range(a.jobs)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    print(stats)


main()
