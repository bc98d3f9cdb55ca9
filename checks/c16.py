"""C16: evolution operators, Liouvillians and vectorisation have the values of their definitions."""
import itertools
import numpy as np
import scipy.sparse as sp
from quanguru import QuantumToolbox as qt
from quanguru.QuantumToolbox import evolution as ev
from mc import ref
from mc.core import Cases, Violation
from mc.fresh import in_any_order
from mc.util import same, equal, dense, raises
from checks.c15 import FORMS, generic

PROPERTY = 'C16'
LEVEL = 'exploration'
RULE = ('all matrix units (and the pairs of them needed for sesquilinear maps) as Hamiltonians, collapse operators and '
        'states up to a dimension, all small lists of collapse operators and rates, a grid of time steps, all matrix types')
ASSUMPTIONS = ['(sesqui)linearity extends the decision from matrix units, and sums of two of them, to all matrices of the dimension',
               'collapse operators are given as a non-empty list with as many rates, or without rates',
               'numbers of steps of evolveOpen are asserted for total times that are exact multiples of the time step']


def typed(m, sparse, what):
    ok = sp.issparse(m) if sparse else (isinstance(m, np.ndarray) and not isinstance(m, np.matrix))
    if not ok:
        raise Violation(f'{what}: type is {type(m).__name__}, the input is {"sparse" if sparse else "dense"}')
    return m


def unit(d, i, j):
    m = np.zeros((d, d), complex)
    m[i, j] = 1
    return m


def units(d):
    return [unit(d, i, j) for i in range(d) for j in range(d)]


def seed(d):
    h = generic((d, d), 2)
    return h + h.conj().T


def rhs(h, cops, rates, rho):
    """right-hand side of the master equation, without super-operators"""
    out = np.zeros_like(rho)
    if h is not None:
        out = out - 1j * (h @ rho - rho @ h)
    for c, r in zip(cops, rates):
        a, b = c if isinstance(c, tuple) else (c, c.conj().T)
        out = out + r * (a @ rho @ b - 0.5 * (b @ a @ rho + rho @ b @ a))
    return out


def act(liou, rho):
    return ref.unvec(dense(liou) @ ref.vec(rho))


# -------------------------------------------------------------- vectorisation
def check_vec(case):
    d, form = case
    for m in units(d) + [generic((d, d), s) for s in range(3)]:
        x = FORMS[form](m.copy())
        v = qt.mat2Vec(x)
        equal(v.shape, (d * d, 1), 'shape of the vector')
        same(v, ref.vec(m), 'columns are stacked', 0)
        same(qt.vec2Mat(v), m, 'reshaping back', 0)
        same(qt.vec2Mat(FORMS[form](ref.vec(m))), m, 'reshaping back', 0)
        same(x, m, 'the matrix is not changed', 0)


# -------------------------------------------------------------- super-operators
def check_super(case):
    """pre- and post-multiplication for all the operators and states (bilinear: matrix units decide)"""
    d, form, ident = case
    sparse = form != 'dense'
    one = None if not ident else sp.identity(d, format='csc')
    us = units(d)
    for a in us:
        x = FORMS[form](a.copy())
        pre, post = qt._preSO(x, one), qt._postSO(x, one)
        typed(pre, sparse, '_preSO')
        typed(post, sparse, '_postSO')
        for r in us:
            same(act(pre, r), a @ r, 'pre-multiplication', 0)
            same(act(post, r), r @ a, 'post-multiplication', 0)
        for b in us:
            pp = qt._prepostSO(x, FORMS[form](b.copy()))
            typed(pp, sparse, '_prepostSO')
            di = ev.dissipator(x, FORMS[form](b.copy()), one)
            typed(di, sparse, 'dissipator')
            for r in us:
                same(act(pp, r), a @ r @ b, 'pre- and post-multiplication', 0)
                same(act(di, r), rhs(None, [(a, b)], [1], r), 'dissipator of two operators', 1e-14)
        same(act(qt._prepostSO(x), a), a @ a @ a, 'default of the second operator')
        same(x, a, 'the operator is not changed', 0)


def check_dissipator(case):
    """D(c) is sesquilinear in c: sums of two matrix units decide all c"""
    d, form, double = case
    us = units(d)
    for p, q in itertools.combinations_with_replacement(range(len(us)), 2):
        for w in (1, 1j, 0.5 - 0.25j):
            c = us[p] + (w * us[q] if q != p else 0)
            x = FORMS[form](c.copy())
            di = typed(ev.dissipator(x, _double=double), form != 'dense', 'dissipator')
            di2 = qt.Liouvillian(None, [x], _double=double)
            typed(di2, form != 'dense', 'Liouvillian of a collapse operator')
            for r in us:
                want = (2 if double else 1) * rhs(None, [c], [1], r)
                same(act(di, r), want, 'dissipator')
                same(act(di2, r), want, 'Liouvillian of a collapse operator')
            same(x, c, 'the operator is not changed', 0)


# -------------------------------------------------------------- Liouvillians
RATES = (1, 0.5, 0, 2.0)


def cop(d, kind):
    return {'a': ref.destroy(d), 'n': ref.number(d), 'z': ref.jz(d), 'g': generic((d, d), 5) / d, 'c': 1j * ref.create(d)}[kind]


def build(d, ham, cops, rates, form, form2=None):
    """(Hamiltonian, list of operators) for the library and for the reference"""
    f, f2 = FORMS[form], FORMS[form2 or form]
    hd = {'none': None, 'zero': np.zeros((d, d), complex), 'generic': seed(d), 'number': ref.number(d)}[ham]
    lib, mine = [], []
    for c in cops:
        if c == 'pair':
            a, b = cop(d, 'a'), cop(d, 'g')
            lib.append((f2(a), f2(b)))
            mine.append((a, b))
        elif c == 'super':
            lib.append(f2(ref.liouvillian(None, [cop(d, 'a')], [1])))
            mine.append(cop(d, 'a'))
        else:
            lib.append(f2(cop(d, c)))
            mine.append(cop(d, c))
    return None if hd is None else f(hd), hd, lib, mine


def check_liouvillian(case):
    d, ham, cops, rates, form, form2, double = case
    h, hd, lib, mine = build(d, ham, cops, rates, form, form2)
    use = [1] * len(cops) if rates is None else rates
    k = 2 if double else 1
    # super-operators are added as they are
    weights = [r * (1 if c == 'super' else k) for r, c in zip(use, cops)]
    args = (h, lib) if rates is None else (h, lib, list(rates))
    got = qt.Liouvillian(*args, _double=double)
    mixed = form != form2
    if not mixed:
        typed(got, form != 'dense', 'Liouvillian')
    for r in units(d):
        same(act(got, r), rhs(hd, mine, weights, r), 'Liouvillian')
    same(qt.LiouvillianExp(h, 0.7, lib, None if rates is None else list(rates), exp=False, _double=double), dense(got),
         'LiouvillianExp without exponentiation')
    for x, y in zip(lib, mine):
        if not isinstance(x, tuple) and x.shape[0] == d:
            same(x, y, 'collapse operators are not changed', 0)
    if hd is not None:
        same(h, hd, 'the Hamiltonian is not changed', 0)


def liouvillian_domain(deep):
    out = []
    for d in (2, 3, 4) if deep else (2, 3):
        for n in (1, 2, 3):
            for cops in itertools.product(('a', 'n', 'g', 'c', 'pair', 'super'), repeat=n):
                if n == 3 and not deep and len(set(cops)) == 3 and d == 3:
                    continue
                for ham in ('none', 'generic', 'number'):
                    if ham == 'none' and cops[0] in ('pair', 'super'):
                        continue                       # the dimension is not known
                    for rates in (None, RATES[:n], RATES[1:1 + n]):
                        for form, form2 in (('csc', 'csc'), ('dense', 'dense')) + ((('csc', 'dense'), ('dense', 'csr')) if n < 3 else ()):
                            if n < 3 or (form == 'csc' and rates):
                                out.append((d, ham, cops, rates, form, form2, n == 2 and rates is None))
    # more collapse operators, and larger dimensions
    for d, n in ((2, 4), (2, 5), (2, 7), (3, 4), (4, 2), (5, 2), (8, 1), (8, 3), (12, 2)):
        for first in range(4):
            cops = tuple('anzgc'[(first + q) % 5] for q in range(n))
            for ham in ('none', 'generic'):
                for rates in (None, tuple(RATES[q % 4] for q in range(n))):
                    out += [(d, ham, cops, rates, f, f, rates is None) for f in ('csc', 'dense')]
    return out


TIMES = (0, 0.1, 1.0, 2.5, 10.0)


def check_exp(case):
    """the exponential is the one of the reference, preserves trace, hermiticity, positivity; and is a semi-group"""
    d, ham, cops, rates, form, t = case
    h, hd, lib, mine = build(d, ham, cops, rates, form)
    got = qt.LiouvillianExp(h, t, lib, list(rates))
    typed(got, form != 'dense', 'LiouvillianExp')
    want = ref.expm(ref.liouvillian(hd, mine, rates) * t)
    same(got, want, 'exponential of the Liouvillian', 1e-8)
    for r in units(d):
        same(np.trace(act(got, r)), np.trace(r), 'trace is preserved', 1e-8)
        same(act(got, r.conj().T), act(got, r).conj().T, 'hermiticity is preserved', 1e-8)
    for k in range(3):
        v = generic((d, 1), k)
        rho = v @ v.conj().T / np.vdot(v, v)
        if np.linalg.eigvalsh(act(got, rho)).min() < -1e-8:
            raise Violation('positivity is lost')
    half = dense(qt.LiouvillianExp(h, timeStep=t / 2, collapseOperators=lib, decayRates=list(rates)))
    same(half @ half, want, 'two halves of the time step', 1e-8)
    if t == 1.0:
        same(qt.LiouvillianExp(h, collapseOperators=lib, decayRates=list(rates)), want, 'default time step', 1e-8)
        if set(rates) == {1}:
            same(qt.LiouvillianExp(h, t, lib), want, 'default rates', 1e-8)


def exp_domain(deep):
    out = []
    for d in (2, 3, 4) if deep else (2, 3):
        for n in (1, 2):
            for cops in itertools.product('anzgc', repeat=n):
                for ham in ('none', 'zero', 'generic', 'number'):
                    for rates in ((1,) * n, RATES[1:1 + n], (2.0, 0.3)[:n]):
                        out += [(d, ham, cops, rates, f, t) for f in ('csc', 'dense') for t in TIMES]
    for d, n in ((2, 4), (2, 6), (3, 3), (4, 2), (5, 1), (7, 1), (8, 2)):
        for first in range(3):
            cops = tuple('anzgc'[(first + q) % 5] for q in range(n))
            out += [(d, 'generic', cops, tuple(RATES[q % 4] for q in range(n)), f, t) for f in ('csc', 'dense') for t in (0.1, 1.0)]
    return out


# -------------------------------------------------------------- unitary
def check_unitary(case):
    kind, d, i, j, t, form = case
    if kind == 'unit':                       # Hermitian basis, and the non-Hermitian matrix units
        h = unit(d, i, j)
        hs = [h, h + h.conj().T, 1j * (h - h.conj().T)]
    elif kind == 'big':
        hs = [50 * seed(d), 300 * ref.jz(d)]
    else:
        hs = [seed(d), ref.number(d), generic((d, d), 3), -1j * ref.number(d) + ref.jx(d)]
    for m in hs:
        x = FORMS[form](m.copy())
        for u in (qt.Unitary(x, t), qt.LiouvillianExp(x, t)) + ((qt.Unitary(x), qt.LiouvillianExp(x)) if t == 1.0 else ()):
            typed(u, form != 'dense', 'Unitary')
            u = dense(u)
            scale = max(1, np.abs(ref.uexp(m, t)).max())
            same(u, ref.uexp(m, t), 'unitary', 1e-8 * scale)
            if np.allclose(m, m.conj().T):
                same(u @ u.conj().T, np.eye(d), 'unitarity', 1e-9)
                same(u @ m, m @ u, 'energy is conserved', 1e-6)
        same(x, m, 'the Hamiltonian is not changed', 0)
        if np.allclose(m, m.conj().T):
            same(dense(qt.Unitary(x, -t)), dense(qt.Unitary(x, t)).conj().T, 'reversed time', 1e-8)


def unitary_domain(deep):
    out = [('unit', d, i, j, t, f) for d in ((2, 3, 4, 5) if deep else (2, 3, 4)) for i in range(d) for j in range(d)
           for t in TIMES for f in ('csc', 'dense')]
    out += [('family', d, 0, 0, t, f) for d in tuple(range(1 if deep else 2, 17 if deep else 10)) + (20, 32, 33, 64) for t in TIMES + (-1.0, 1e-9)
            for f in ('csc', 'csr', 'dense')]
    return out + [('big', d, 0, 0, t, f) for d in (2, 3, 5) for t in (0.1, 1.0) for f in ('csc', 'dense')]


# -------------------------------------------------------------- open evolution and steady states
def check_open(case):
    """all the states of an open evolution, and what the function called at each step is given"""
    d, ham, cops, rates, form, state, steps, dels = case
    h, hd, lib, mine = build(d, ham, cops, rates, form)
    v = generic((d, 1), 1)
    v = v / np.linalg.norm(v)
    rho = v @ v.conj().T
    ini = FORMS[form](v if state == 'ket' else rho)
    dt = 0.1 if steps in (7, 10) else 0.25
    seen = []
    res = ev.evolveOpen(ini, steps * dt, dt, h, lib, list(rates), calcFunc=seen.append, delStates=dels)
    step = ref.expm(ref.liouvillian(hd, mine, rates) * dt)
    want = [rho]
    for _ in range(steps):
        want.append(ref.unvec(step @ ref.vec(want[-1])))
    equal(len(seen), steps + 1, 'number of the calls')
    for k, (g, w) in enumerate(zip(seen, want)):
        same(g, w, f'state {k} given to the function', 1e-8)
    if dels:
        equal(len(res), 1, 'only the initial state is kept')
        want = want[:1]
    equal(len(res), len(want), 'number of the states')
    for k, (g, w) in enumerate(zip(res, want)):
        same(g, w, f'state {k}', 1e-8)
        same(np.trace(dense(g)), 1, f'trace {k}', 1e-8)
    without = ev.evolveOpen(ini, steps * dt, dt, h, lib, list(rates), **({'delStates': True} if dels else {}))
    equal(len(without), len(res), 'number of the states without a function')
    for g, w in zip(without, res):
        same(g, dense(w), 'states without a function', 0)
    same(ini, v if state == 'ket' else rho, 'the initial state is not changed', 0)


def check_steady(case):
    d, cops, rates, form = case
    h, hd, lib, mine = build(d, 'generic', cops, rates, form)
    vals, vecs = ev.steadyState(h, lib, list(rates))
    e = ref.expm(ref.liouvillian(hd, mine, rates))
    equal([len(vals), len(vecs)], [d * d, d * d], 'number of the eigenvalues')
    mags = np.abs(vals)
    if np.any(np.diff(mags) < -1e-9):
        raise Violation(f'eigenvalues are not sorted by magnitude {mags}')
    for val, vec in zip(vals, vecs):
        same(e @ dense(vec), val * dense(vec), 'eigenvectors', 1e-7)
    same(vals[-1], 1, 'the last one is the steady state', 1e-7)
    rho = ref.unvec(dense(vecs[-1]))
    rho = rho / np.trace(rho)
    same(rhs(hd, mine, rates, rho), np.zeros((d, d)), 'the steady state does not change', 1e-7)
    same(rho, rho.conj().T, 'the steady state is Hermitian', 1e-7)


def calls():
    out = []
    for n, f in FORMS.items():
        m = lambda k=1, f=f: f(generic((2, 2), k))
        h = lambda f=f: f(seed(2))
        r = lambda f=f: f(np.eye(2, dtype=complex) / 2)
        out += [(f'Unitary({n}, {t})', ev.Unitary, lambda h=h, t=t: (h(), t)) for t in (0.5, 1.0)]
        out += [(f'Liouvillian({n})', ev.Liouvillian, lambda h=h: (h(),)),
                (f'Liouvillian({n}, collapse)', ev.Liouvillian, lambda h=h, m=m: (h(), [m(), m(2)], [0.5, 0.25])),
                (f'Liouvillian({n}, two operators)', ev.Liouvillian, lambda h=h, m=m: (h(), [(m(), m(2))], [0.5])),
                (f'Liouvillian({n}, no Hamiltonian)', ev.Liouvillian, lambda m=m: (None, [m()], [0.5])),
                (f'LiouvillianExp({n})', ev.LiouvillianExp, lambda h=h, m=m: (h(), 0.5, [m()], [0.5])),
                (f'LiouvillianExp({n}, again)', ev.LiouvillianExp, lambda h=h, m=m: (h(), 1.0, [m()], [0.25])),
                (f'LiouvillianExp({n}, closed)', ev.LiouvillianExp, lambda h=h: (h(), 0.5)),
                (f'dissipator({n})', ev.dissipator, lambda m=m: (m(),)), (f'dissipator({n}, 2)', ev.dissipator, lambda m=m: (m(), m(2))),
                (f'_preSO({n})', ev._preSO, lambda m=m: (m(),)), (f'_postSO({n})', ev._postSO, lambda m=m: (m(),)),
                (f'_prepostSO({n})', ev._prepostSO, lambda m=m: (m(),)),
                (f'evolveOpen({n})', ev.evolveOpen, lambda h=h, m=m, r=r: (r(), 1.0, 0.5, h(), [m()], [0.5])),
                (f'steadyState({n})', ev.steadyState, lambda h=h, m=m: (h(), [m()], [0.5]))]
    return out


def components(tier):
    k = tier == 'thorough'
    return [
        Cases('vectorisation', lambda: list(itertools.product(tuple(range(1, 12 if k else 7)) + (12, 16, 21), FORMS)), check_vec, chunk=1),
        Cases('super-operators', lambda: list(itertools.product((1, 2, 3), ('dense', 'csc', 'csr'), (True, False))), check_super, chunk=1),
        Cases('dissipators', lambda: list(itertools.product((1, 2, 3), ('dense', 'csc', 'csr'), (True, False))), check_dissipator, chunk=1),
        Cases('Liouvillians', lambda: liouvillian_domain(k), check_liouvillian),
        Cases('exponentials', lambda: exp_domain(k), check_exp),
        Cases('unitaries', lambda: unitary_domain(k), check_unitary),
        Cases('open evolution', lambda: [(d, h, c, r, f, s, n, x) for d in (2, 3) for h in ('generic', 'none', 'number')
                                         for c, r in ((('a',), (1,)), (('g',), (0.5,)), (('a', 'c'), (1, 0.2)), (('z', 'g'), (2.0, 0)))
                                         for f in ('csc', 'dense') for s in ('ket', 'rho') for n in (0, 1, 2, 7, 10, 24) for x in (True, False)],
              check_open),
        in_any_order('calls again, after the earlier results are changed in place', calls(), 2 if k else 1),
        Cases('steady states', lambda: [(d, c, r, f) for d in (2, 3) for c, r in (
            (('a',), (1,)), (('g',), (0.5,)), (('a', 'c'), (1, 0.2)), (('a', 'g'), (2.0, 0.1))) for f in ('csc', 'dense')],
            check_steady),
    ]
