"""
Independent reference semantics: plain numpy, written from the definitions, no code shared with the library.
"""
import math

import numpy as np


# ---------------------------------------------------------------- operators
def destroy(d):
    m = np.zeros((d, d), complex)
    for n in range(1, d):
        m[n - 1, n] = math.sqrt(n)
    return m


def create(d):
    return destroy(d).conj().T


def number(d):
    return np.diag(np.arange(d)).astype(complex)


def identity(d):
    return np.eye(d, dtype=complex)


def jz(d):
    j = (d - 1) / 2
    return np.diag([j - n for n in range(d)]).astype(complex)


def jp(d):
    j = (d - 1) / 2
    m = np.zeros((d, d), complex)
    for n in range(d - 1):   # |j, m> -> |j, m+1>, states ordered from m = j down to m = -j
        mm = j - (n + 1)
        m[n, n + 1] = math.sqrt(j * (j + 1) - mm * (mm + 1))
    return m


def jm(d):
    return jp(d).conj().T


def jx(d):
    return (jp(d) + jm(d)) / 2


def jy(d):
    return (jp(d) - jm(d)) / 2j


def parity(d):
    return np.diag([(-1) ** n for n in range(d)]).astype(complex)


def js(d):
    j = (d - 1) / 2
    return j * (j + 1) * np.eye(d, dtype=complex)


SX = np.array([[0, 1], [1, 0]], complex)
SY = np.array([[0, -1j], [1j, 0]], complex)
SZ = np.array([[1, 0], [0, -1]], complex)
SP = np.array([[0, 1], [0, 0]], complex)
SM = np.array([[0, 0], [1, 0]], complex)

#: name -> function of the dimension
OPS = {'number': number, 'destroy': destroy, 'create': create, 'identity': identity, 'Jz': jz, 'Jp': jp, 'Jm': jm,
       'Jx': jx, 'Jy': jy, 'Js': js, 'paritySUM': parity, 'sigmax': lambda d: SX, 'sigmay': lambda d: SY, 'sigmaz': lambda d: SZ,
       'sigmap': lambda d: SP, 'sigmam': lambda d: SM}
PAULI = ('sigmax', 'sigmay', 'sigmaz', 'sigmap', 'sigmam')


def mpow(m, n):
    out = np.eye(m.shape[0], dtype=complex)
    for _ in range(n):
        out = out @ m
    return out


def kron(*ms):
    out = np.ones((1, 1), complex)
    for m in ms:
        out = np.kron(out, m)
    return out


def expm(a):
    """scaling and squaring of the Taylor series, accurate for the small matrices used here"""
    a = np.asarray(a, complex)
    nrm = np.linalg.norm(a, 1)
    s = max(0, int(math.ceil(math.log2(nrm))) + 4) if nrm > 0 else 0
    b = a / (2 ** s)
    out = np.eye(a.shape[0], dtype=complex)
    term = np.eye(a.shape[0], dtype=complex)
    for k in range(1, 19):
        term = term @ b / k
        out = out + term
    for _ in range(s):
        out = out @ out
    return out


def uexp(h, t):
    """exp(-i h t)"""
    h = np.asarray(h, complex)
    if np.allclose(h, h.conj().T, atol=1e-12):
        w, v = np.linalg.eigh(h)
        return (v * np.exp(-1j * w * t)) @ v.conj().T
    return expm(-1j * h * t)


# ---------------------------------------------------------------- super-operators (column stacking)
def vec(m):
    return np.asarray(m, complex).T.reshape(-1, 1)


def unvec(v):
    v = np.asarray(v, complex).reshape(-1)
    d = int(round(math.sqrt(v.size)))
    return v.reshape(d, d).T


def liouvillian(h, cops, rates):
    d = (h if h is not None else cops[0]).shape[0]
    i = np.eye(d)
    out = np.zeros((d * d, d * d), complex)
    if h is not None:
        out += -1j * (np.kron(i, h) - np.kron(h.T, i))
    for c, r in zip(cops, rates):
        cd = c.conj().T
        out += r * (np.kron(c.conj(), c) - 0.5 * np.kron(i, cd @ c) - 0.5 * np.kron((cd @ c).T, i))
    return out


# ---------------------------------------------------------------- states
def ket(d, inp, coef=False):
    """state from the input: int, list of ints (equal superposition), dict of populations (or amplitudes if coef)"""
    v = np.zeros((d, 1), complex)
    if isinstance(inp, dict):
        for k, p in inp.items():
            v[k, 0] += p if coef else math.sqrt(p)
    elif isinstance(inp, (int, np.integer)):
        v[inp, 0] = 1
    else:
        for k in sorted(set(inp)):
            v[k, 0] = 1
    return v / np.linalg.norm(v)


# ---------------------------------------------------------------- systems
class RTerm:
    def __init__(self, freq, ops, orders, systems):
        self.freq, self.ops, self.orders, self.systems = freq, list(ops), list(orders), list(systems)

    def key(self):
        return (self.freq, tuple(self.ops), tuple(self.orders), tuple(s.name for s in self.systems))


class RSys:
    """a quantum system: a leaf with a dimension, or a composite of ordered sub-systems; terms in any of them"""
    def __init__(self, name, dim=None, subs=()):
        self.name, self._dim, self.subs, self.sup, self.terms = name, dim, [], None, []
        self.state = None
        for s in subs:
            self.add(s)

    def add(self, s):
        self.subs.append(s)
        s.sup = self

    def nested(self):
        return [self] + [x for s in self.subs for x in s.nested()]

    def remove(self, s):
        """remove s from this composite; couplings of (anything in) s are gone"""
        self.subs.remove(s)
        s.sup = None
        gone = s.nested()
        c = self
        while c is not None:
            c.terms = [t for t in c.terms if not (len(t.systems) > 1 and any(x in gone for x in t.systems))]
            c = c.sup

    @property
    def dim(self):
        if self._dim is not None:
            return self._dim
        d = 1
        for s in self.subs:
            d *= s.dim
        return d

    @dim.setter
    def dim(self, d):
        self._dim = d

    @property
    def root(self):
        r = self
        while r.sup is not None:
            r = r.sup
        return r

    def before_after(self):
        b = a = 1
        node = self
        while node.sup is not None:
            sibs = node.sup.subs
            i = sibs.index(node)
            for s in sibs[:i]:
                b *= s.dim
            for s in sibs[i + 1:]:
                a *= s.dim
            node = node.sup
        return b, a

    def embed(self, m):
        b, a = self.before_after()
        return np.kron(np.kron(np.eye(b), m), np.eye(a))

    def term_matrix(self, t):
        out = None
        for op, order, s in zip(t.ops, t.orders, t.systems):
            m = s.embed(mpow(OPS[op](s.dim), order))
            out = m if out is None else out @ m
        return t.freq * out

    def hamiltonian(self):
        n = self.root.dim
        out = np.zeros((n, n), complex)
        for s in self.subs:
            out = out + s.hamiltonian()
        for t in self.terms:
            out = out + self.term_matrix(t)
        return out

    def key(self):
        return (self.name, self._dim, tuple(t.key() for t in self.terms), tuple(s.key() for s in self.subs),
                _skey(self.state))

    def ket(self):
        """tensor product of the states of the sub-systems"""
        if self.subs:
            return kron(*[s.ket() for s in self.subs])
        return ket(self.dim, self.state)


def _skey(s):
    if isinstance(s, dict):
        return tuple(sorted(s.items()))
    if isinstance(s, np.ndarray):
        return s.tobytes()
    return repr(s)


def selftest():
    """the reference semantics against identities that do not depend on it (run once, as the setup)"""
    for d in range(2, 6):
        a = destroy(d)
        c = a @ a.conj().T - a.conj().T @ a
        assert np.allclose(c[:-1, :-1], np.eye(d)[:-1, :-1])
        assert np.allclose(jx(d) @ jy(d) - jy(d) @ jx(d), 1j * jz(d))
        assert np.allclose(jx(d) @ jx(d) + jy(d) @ jy(d) + jz(d) @ jz(d), js(d))
        assert np.allclose(uexp(jx(d), 2 * math.pi * 2), np.eye(d))
        assert np.allclose(uexp(jx(d) + 0.1 * destroy(d), 0.3), expm(-0.3j * (jx(d) + 0.1 * destroy(d))))
        h, rho = jy(d) + number(d), np.outer(np.arange(1, d + 1), np.arange(1, d + 1)[::-1]).astype(complex)
        rhs = -1j * (h @ rho - rho @ h) + 0.7 * (a @ rho @ a.conj().T
                                                 - (a.conj().T @ a @ rho + rho @ a.conj().T @ a) / 2)
        assert np.allclose(unvec(liouvillian(h, [a], [0.7]) @ vec(rho)), rhs)
    print('reference model: ok')
    return 0
