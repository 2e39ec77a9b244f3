"""Runs of the command line, in the same process"""
import contextlib
import io
import os
import sys
import warnings

import numpy as np

from core import HarnessError


def run_cli(args):
    """(exception or None, standard output)"""
    from meshmagick import cli
    out = io.StringIO()
    argv = sys.argv
    sys.argv = ['meshmagick'] + [str(a) for a in args]
    exc = None
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            try:
                cli.main()
            except SystemExit as e:
                if e.code not in (None, 0):
                    exc = e
            except Exception as e:
                exc = e
    finally:
        sys.argv = argv
    return exc, out.getvalue()


def num(x):
    """A number as given on the command line, without loss and without exponent: -1e-17 is not taken as a number there"""
    x = float(x)
    t = repr(x)
    return t if 'e' not in t else np.format_float_positional(x, trim='0')


def fresh(*names):
    """Paths in the current directory, where nothing exists"""
    out = []
    for n in names:
        p = os.path.join(os.getcwd(), n)
        if os.path.exists(p):
            os.remove(p)
        out.append(p)
    return out
