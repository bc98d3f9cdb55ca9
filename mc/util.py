import numpy as np
import quanguru as qg
from .core import Violation

OPF = {'number': qg.number, 'destroy': qg.destroy, 'create': qg.create, 'identity': qg.identity, 'Jz': qg.Jz,
       'Jp': qg.Jp, 'Jm': qg.Jm, 'Jx': qg.Jx, 'Jy': qg.Jy, 'Js': qg.Js, 'paritySUM': qg.paritySUM, 'sigmax': qg.sigmax, 'sigmay': qg.sigmay,
       'sigmaz': qg.sigmaz, 'sigmap': qg.sigmap, 'sigmam': qg.sigmam}


def dense(m):
    if hasattr(m, 'toarray'):
        return m.toarray()
    return np.asarray(m)


def same(got, want, what, tol=1e-8):
    """shape and values"""
    if got is None:
        raise Violation(f'{what}: nothing returned')
    g = dense(got)
    w = dense(want)
    if g.shape != w.shape:
        if g.shape == () and not np.any(w) and g == 0:   # an empty sum
            return
        raise Violation(f'{what}: shape {g.shape}, expected {w.shape}')
    scale = max(1.0, float(np.max(np.abs(w))) if w.size else 1.0)
    if not np.all(np.abs(g - w) <= tol * scale):
        k = np.unravel_index(int(np.argmax(np.abs(g - w))), g.shape)
        raise Violation(f'{what}: element {tuple(int(i) for i in k)} is {g[k]}, expected {w[k]}')


def close(got, want, what, tol=1e-8):
    g, w = complex(dense(got).item() if hasattr(got, 'shape') else got), complex(want)
    if not abs(g - w) <= tol * max(1.0, abs(w)):
        raise Violation(f'{what}: {got}, expected {want}')


def equal(got, want, what):
    if got != want:
        raise Violation(f'{what}: {got!r}, expected {want!r}')


def raises(func, types, what):
    """func has to raise one of the types"""
    try:
        func()
    except types:
        return
    raise Violation(f'{what}: accepted, has to be rejected')
