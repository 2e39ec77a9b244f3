#!/usr/bin/env python3
"""Lists the lines of meshmagick that no quick check executes (development tool).

    lines.py [IDS...]     runs the quick checks (of all properties by default) with VERIF_COV
"""
import ast, glob, json, os, subprocess, sys, tempfile, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')


def statements(src):
    """Lines of the statements inside functions"""
    out = {}

    def visit(n, fn):
        for c in ast.iter_child_nodes(n):
            f = fn + [c.name] if isinstance(c, (ast.FunctionDef, ast.ClassDef)) else fn
            if isinstance(c, ast.stmt) and fn and not isinstance(c, (ast.FunctionDef, ast.ClassDef, ast.Global)):
                if not (isinstance(c, ast.Expr) and isinstance(c.value, ast.Constant)):
                    out[c.lineno] = '.'.join(fn)
            visit(c, f)
    visit(ast.parse(src), [])
    return out


def main():
    ids = sys.argv[1:] or sorted(os.path.basename(f)[:-3].upper() for f in glob.glob(VERIF + '/harness/props/c[0-9]*.py'))
    d = tempfile.mkdtemp()
    try:
        for i in ids:
            r = subprocess.run(['/opt/venv/bin/python', VERIF + '/harness/run.py', i], env=dict(os.environ, VERIF_COV=d),
                               capture_output=True, text=True)
            print(i, r.returncode, file=sys.stderr)
        seen = set()
        for f in os.listdir(d):
            seen |= {tuple(x) for x in json.load(open(os.path.join(d, f)))}
        for f in sorted(glob.glob(REPO + '/meshmagick/*.py')):
            src, b = open(f).read(), os.path.basename(f)
            st = statements(src)
            miss = [l for l in sorted(st) if (b, l) not in seen]
            print('%s: %d statements, %d not executed' % (b, len(st), len(miss)))
            for l in miss:
                print('    %d %s: %s' % (l, st[l], src.splitlines()[l - 1].strip()[:100]))
    finally:
        shutil.rmtree(d)


main()
