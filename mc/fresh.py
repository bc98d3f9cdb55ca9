"""calls of functions in every order: the result of a call does not depend on the earlier calls, nor on what is done with their
results, and the inputs are not changed."""
import numpy as np
import scipy.sparse as sp
from .core import Histories, Violation


def freeze(x):
    if isinstance(x, (list, tuple)):
        return [freeze(y) for y in x]
    if isinstance(x, dict):
        return {k: freeze(y) for k, y in x.items()}
    if sp.issparse(x):
        return ('sparse', np.array(x.toarray()))
    if isinstance(x, np.ndarray):
        return ('dense', np.array(x))
    return x


def differ(a, b, tol):
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        return type(a) is not type(b) or len(a) != len(b) or any(differ(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, dict):
        return list(a) != list(b) or any(differ(a[k], b[k], tol) for k in a)
    if isinstance(a, np.ndarray) or isinstance(a, (int, float, complex, np.number)) and not isinstance(a, bool):
        a, b = np.asarray(a), np.asarray(b)
        return a.shape != b.shape or not np.allclose(a, b, tol, tol, equal_nan=True)
    return a != b


def spoil(x):
    """change the object in place"""
    if isinstance(x, (list, tuple)):
        for y in x:
            spoil(y)
        if isinstance(x, list):
            x.append(None)
    elif isinstance(x, dict):
        x.clear()
    elif sp.issparse(x):
        x.data[...] = 3
    elif isinstance(x, np.ndarray) and x.flags.writeable:
        x[...] = 3


def in_any_order(name, calls, depth=1, tol=1e-9):
    """calls : list of (label, function, function that creates the arguments)"""
    want = {}

    def build():
        if not want:     # before anything is changed in place
            want.update({label: freeze(f(*args())) for label, f, args in calls})
        return {}

    def once(label, f, args):
        given = args()
        was = freeze(given)
        got = f(*given)
        if differ(freeze(got), want[label], tol):
            raise Violation(f'{label}: {freeze(got)!r}, was {want[label]!r}')
        if differ(freeze(given), was, 0):
            raise Violation(f'{label}: arguments are changed to {freeze(given)!r}')
        return got

    def op(call):
        return (call[0], lambda w: spoil(once(*call)))

    def final(w):
        for call in calls * 2:
            spoil(once(*call))
    return Histories(name, build, [op(c) for c in calls], final, depth)
