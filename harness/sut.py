"""Thin helpers over the public API of the code under test"""
import contextlib
import io
import os
import sys
import tempfile

import numpy as np

from meshmagick.mesh import Mesh, Plane      # noqa
from core import require, Violation, Reject, HarnessError
import gen
import geom


def as_given(V, F):
    """The same values in one of the forms that users give (it only depends on the sizes, for replays)"""
    V, F = np.array(V, dtype=float), np.array(F, dtype=int)
    k = (7 * len(V) + 3 * len(F)) % 16
    if k == 1:
        return V.tolist(), F.tolist()
    if k == 3:
        return np.asfortranarray(V), np.asfortranarray(F)
    if k in (2, 4) and np.array_equal(V, np.round(V)) and np.abs(V).max() < 1e9:
        return V.astype(int) if k == 2 else V.astype(int).tolist(), F
    if k in (5, 9) and np.array_equal(V, V.astype(np.float32)):
        return V.astype(np.float32), F.astype(np.int16) if len(V) < 30000 else F
    if k == 6:
        return [tuple(v) for v in V], [tuple(f) for f in F]
    if k == 8:
        V.flags.writeable = F.flags.writeable = False
        return V, F.astype(np.int32)
    if k == 11:
        return np.repeat(V, 2, axis=0)[::2], np.tile(F, 2)[:, :4].astype(np.uint32)
    if k == 14:
        return np.tile(V, 2)[:, 3:], np.tile(F[::-1], 2)[::-1, 4:].astype(np.uint64)
    return V, F


FORMS = ['list', 'tuple', 'array', 'view', 'ints', 'int array', 'float32', 'readonly']


def vector(x, how):
    """The same numbers as the caller may give them; how is a name or an index of FORMS (the form is kept for values that
    it can represent only)"""
    how = how if isinstance(how, str) else FORMS[how % len(FORMS)]
    a = np.array(x, dtype=float)
    whole = np.array_equal(a, np.round(a)) and np.abs(a).max(initial=0.) < 1e9
    if how == 'tuple':
        return tuple(a.tolist())
    if how == 'array':
        return a
    if how == 'view':
        return np.repeat(a, 3, axis=0)[::3]
    if how == 'ints' and whole:
        return a.astype(int).tolist()
    if how == 'int array' and whole:
        return a.astype(int)
    if how == 'float32' and np.array_equal(a, a.astype(np.float32)):
        return a.astype(np.float32)
    if how == 'readonly':
        a.flags.writeable = False
        return a
    return a.tolist()


def some_form(x, bad=('float32',)):
    """A form that only depends on the values"""
    how = FORMS[int(round(1e3 * float(np.abs(np.array(x, dtype=float)).sum()))) % len(FORMS)]
    return np.array(x, dtype=float) if how in bad else vector(x, how)


def some_scalar(x):
    return int(x) if abs(x) < 1e9 and x == int(x) else x


def forget(a):
    """The caller goes on using its own array for something else"""
    if isinstance(a, list):
        for x in a:
            if isinstance(x, list):
                x[:] = [7] * len(x)
        if not any(isinstance(x, (list, tuple)) for x in a):
            a[:] = [7] * len(a)
    elif isinstance(a, np.ndarray) and a.flags.writeable:
        a += np.array(3, dtype=a.dtype)


def mk(V, F, name=None):
    m = Mesh(*as_given(V, F), name=name)
    if (len(V) + len(F)) % 4 == 0:
        m.verbose_on()      # must not change anything but messages
    return m


def mesh_of(recipe):
    V, F = gen.build(recipe)
    return mk(V, F), V, F


def snapshot(mesh):
    return np.array(mesh.vertices, dtype=float).copy(), np.array(mesh.faces, dtype=int).copy()


def require_unchanged(mesh, snap, msg):
    v, f = np.asarray(mesh.vertices), np.asarray(mesh.faces)
    require(v.shape == snap[0].shape and np.array_equal(v, snap[0]), '%s: vertices have been modified', msg)
    require(f.shape == snap[1].shape and np.array_equal(f, snap[1]), '%s: faces have been modified', msg)


def rbi_tuple(inertia):
    """mass, cog, matrix of a RigidBodyInertia"""
    return float(inertia.mass), np.asarray(inertia.gravity_center, dtype=float).copy(), \
        np.asarray(inertia.inertia_matrix, dtype=float).copy()


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        yield


def expect_raise(func, msg, exc=Exception):
    try:
        func()
    except exc:
        return
    raise Violation(msg)


def outcome(func):
    """('ok', value) or ('exc', type name)"""
    try:
        return 'ok', func()
    except Exception as exc:
        return 'exc', type(exc).__name__
