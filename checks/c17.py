"""C17: state constructors give the requested, normalised states and keep their inputs."""
import copy
import itertools
import numpy as np
import scipy.sparse as sp
import quanguru as qg
from quanguru import QuantumToolbox as qt
from quanguru.QuantumToolbox import states as st
from mc import ref
from mc.core import Cases, Violation
from mc.fresh import in_any_order
from mc.util import same, equal, dense, raises
from checks.c15 import FORMS, generic

PROPERTY = 'C17'
LEVEL = 'exploration'
RULE = ('every dimension up to the bound with every excitation, every list of up to three excitations (with repetitions, '
        'in every order), every dictionary of up to three of them with values from a grid, both matrix types')
ASSUMPTIONS = ['populations are not negative, and at least one of them is not zero',
               'a ket of dimension one is also a density matrix, its phase is not asserted',
               'rejected inputs: excitations outside of the dimension, and containers with anything but integers']


def typed(m, sparse, what):
    ok = sp.issparse(m) if sparse else (isinstance(m, np.ndarray) and not isinstance(m, np.matrix))
    if not ok:
        raise Violation(f'{what}: type is {type(m).__name__} for sparse={sparse}')
    return m


def unit(d, k):
    v = np.zeros((d, 1), complex)
    v[k, 0] = 1
    return v


# -------------------------------------------------------------- basis states
def check_basis(case):
    d, sparse, typ = case
    dd = typ(d)
    zero = typed(qt.zerosKet(dd, sparse), sparse, 'zerosKet')
    equal(zero.shape, (d, 1), 'shape of the zero ket')
    same(zero, np.zeros((d, 1)), 'zero ket', 0)
    same(typed(qt.zerosMat(dd, sparse), sparse, 'zerosMat'), np.zeros((d, d)), 'zero matrix', 0)
    full = qt.completeBasis(dd, sparse)
    equal(len(full), d, 'size of the basis')
    mats = qt.completeBasisMat(dimension=dd, sparse=sparse)
    equal(len(mats), d, 'size of the basis')
    kets = [x.copy() for x in full]
    mats2 = qt.completeBasisMat(compKetBase=kets)
    equal(len(kets), d, 'the given basis is not changed')
    for k in range(d):
        b = typed(qt.basis(dd, typ(k), sparse), sparse, 'basis')
        same(b, unit(d, k), f'basis({d}, {k})', 0)
        same(typed(qt.basisBra(dd, typ(k), sparse), sparse, 'basisBra'), unit(d, k).T, f'basisBra({d}, {k})', 0)
        same(full[k], unit(d, k), 'complete basis', 0)
        same(typed(mats[k], sparse, 'completeBasisMat'), unit(d, k) @ unit(d, k).T, 'complete basis of matrices', 0)
        same(typed(mats2[k], sparse, 'completeBasisMat'), unit(d, k) @ unit(d, k).T, 'matrices of a given basis', 0)
        same(kets[k], unit(d, k), 'the given basis is not changed', 0)
    if typ is int:
        same(qt.basis(d, d - 1), unit(d, d - 1), 'default type', 0)
        for k in (d, d + 3, -1, -d - 1):
            raises(lambda: qt.basis(d, k, sparse), ValueError, f'basis({d}, {k})')
            raises(lambda: qt.basisBra(d, k, sparse), ValueError, f'basisBra({d}, {k})')
            raises(lambda: qt.superPos(d, k, sparse=sparse), ValueError, f'superPos({d}, {k})')
            raises(lambda: qt.superPos(d, [0, k], sparse=sparse), ValueError, f'superPos({d}, [0, {k}])')
            raises(lambda: qt.superPos(d, {k: 1.0}, sparse=sparse), ValueError, f'superPos({d}, {{{k}: 1}})')
            raises(lambda: qt.compositeState([d, 2], [k, 0], sparse), ValueError, 'compositeState')
        for bad in ([0.0], [0, '1'], ['0'], '0', [None], [[0]]):
            raises(lambda: qt.superPos(d, bad, sparse=sparse), TypeError, f'superPos({d}, {bad!r})')
        raises(lambda: qt.superPos(d, 0.5, sparse=sparse), TypeError, 'superPos of a float')
        raises(lambda: qt.superPos(d, None, sparse=sparse), TypeError, 'superPos of None')
        raises(qt.completeBasisMat, ValueError, 'neither dimension nor basis')


# -------------------------------------------------------------- superpositions
POPS = (1, 0.2, 3, 0.0, 0.25, np.float64(0.7), 1e-6)
AMPS = (1, -1j, 0.3 + 0.4j, -2, 0.5, np.complex128(1 - 1j), 0)


def check_super(case):
    d, kind, exc, pops, sparse = case
    inp = dict(exc) if kind == 'dict' else (list(exc) if kind == 'list' else (tuple(exc) if kind == 'tuple' else (
        np.array(exc) if kind == 'array' else exc)))
    was = copy.deepcopy(inp)
    want = ref.ket(d, dict(exc) if kind == 'dict' else exc, coef=not pops)
    got = qt.superPos(d, inp, pops, sparse)
    typed(got, sparse, 'superPos')
    same(got, want, f'superPos({d}, {inp}, populations={pops})', 1e-12)
    if not (np.array_equal(was, inp) if kind == 'array' else was == inp):
        raise Violation(f'input is changed from {was} to {inp}')
    if kind == 'dict' and pops:
        tot = sum(v for _, v in exc)
        for k, v in exc:
            same(abs(dense(got)[k, 0]) ** 2, v / tot, f'population of {k}', 1e-12)
    if pops:
        same(qt.superPos(d, inp, sparse=sparse), want, 'populations are default', 1e-12)
        same(qt.superPos(d, inp), want, 'defaults', 1e-12)
        # a state of a quantum system is created the same way
        s = qg.QuantumSystem(dimension=d, operator=qt.number, frequency=1.0)
        if kind in ('dict', 'list', 'int'):
            s.initialState = inp
            same(s.initialState, want, 'initial state of a system', 1e-12)
    same(qt.norm(got), 1, 'norm')
    same(qt.normalise(got), want, 'normalised already')


def super_domain(deep):
    out = []
    for d in range(1, 8 if deep else 6):
        out += [(d, 'int', k, True, s) for k in range(d) for s in (True, False)]
        out += [(d, 'int', np.int64(k), True, s) for k in range(d) for s in (True, False)]
        for n in (1, 2, 3):
            out += [(d, t, c, True, s) for c in itertools.product(range(d), repeat=n) for s in (True, False)
                    for t in ('list', 'tuple', 'array')[:3 if n < 3 else 1]]
            for keys in itertools.permutations(range(d), n):
                if n == 3 and d > 4 and not deep and keys != tuple(sorted(keys)):
                    continue
                for i in range(len(POPS)):
                    vals = tuple(POPS[(i + 2 * q) % len(POPS)] for q in range(n))
                    if any(vals):
                        out.append((d, 'dict', tuple(zip(keys, vals)), True, i % 2 == 0))
                    vals = tuple(AMPS[(i + 2 * q) % len(AMPS)] for q in range(n))
                    if any(vals) and d > 1:
                        out.append((d, 'dict', tuple(zip(keys, vals)), False, i % 2 == 1))
    # larger dimensions and longer lists
    for d in (8, 16, 33, 64, 100, 200):
        for n in (1, 2, 4, 5, 7, 8):
            keys = tuple((7 * q + d // 2) % d for q in range(n))
            for s in (True, False):
                out += [(d, t, keys, True, s) for t in ('list', 'tuple', 'array')]
                out.append((d, 'dict', tuple((key, 0.5 + q) for q, key in enumerate(keys)), True, s))
                out.append((d, 'dict', tuple((key, 0.5 - 1j * q) for q, key in enumerate(keys)), False, s))
    return out


# -------------------------------------------------------------- composite states
EXC = {1: (0, [0]), 2: (0, 1, [0, 1], {0: 0.2, 1: 0.8}), 3: (2, [0, 2], {2: 3, 1: 1}, {1: 0.5, 0: 0.2, 2: 0.3})}


def check_composite(case):
    dims, excs, sparse = case
    dims, excs = list(dims), [copy.deepcopy(e) for e in excs]
    was = copy.deepcopy((dims, excs))
    got = qt.compositeState(dims, excs, sparse)
    typed(got, sparse, 'compositeState')
    want = ref.kron(*[ref.ket(d, e) for d, e in zip(dims, excs)])
    same(got, want, 'compositeState', 1e-12)
    equal((dims, excs), was, 'inputs are not changed')
    same(qt.compositeState(dimensions=dims, excitations=excs), want, 'default type', 1e-12)


def composite_domain(deep):
    out = []
    for n in range(1, 5 if deep else 4):
        for dims in itertools.product(EXC, repeat=n):
            out += [(dims, e, s) for e in itertools.product(*[EXC[d] for d in dims]) for s in (True, False)]
    for n in (4, 5, 6):
        for shift in range(4):
            dims = tuple((2, 3, 2, 1)[(q + shift) % 4] for q in range(n))
            out += [(dims, tuple(EXC[d][(q + v) % len(EXC[d])] for q, d in enumerate(dims)), s) for v in range(4) for s in (True, False)]
    return out


# -------------------------------------------------------------- density matrices, normalisation
def check_density(case):
    d, form, n, probs = case
    vs = [generic((d, 1), k) for k in range(n)]
    kets = [FORMS[form[k % len(form)]](v.copy()) for k, v in enumerate(vs)]
    was = None if probs is None else list(probs)
    p = None if probs is None else list(probs)
    got = qt.densityMatrix(kets, p) if p is not None else qt.densityMatrix(kets)
    rho = sum(w * v @ v.conj().T for w, v in zip([1] * n if probs is None else probs, vs))
    same(got, rho / np.trace(rho), 'mixture')
    equal(p, was, 'probabilities are not changed')
    same(qt.trace(got), 1, 'trace')
    same(qt.densityMatrix(kets[0]), vs[0] @ vs[0].conj().T, 'pure state')
    same(qt.purity(got), np.trace(rho @ rho) / np.trace(rho) ** 2, 'purity')
    for k, v in zip(kets, vs):
        same(k, v, 'kets are not changed', 0)
        same(qt.normalise(k), v / np.linalg.norm(v), 'normalised ket')
        same(qt.norm(qt.normalise(k)), 1, 'norm of a normalised ket')
    for f in set(form):
        sparse = f != 'dense'
        m = FORMS[f](rho.copy())
        got = qt.normalise(m)
        same(typed(got, sparse, 'normalise'), rho / np.trace(rho), 'normalised density matrix')
        same(m, rho, 'the matrix is not changed', 0)
    w = list(probs) if probs is not None else [2] * n
    same(st.weightedSum(kets, w), sum(x * v for x, v in zip(w, vs)), 'weighted sum')
    same(st.weightedSum(kets), sum(vs), 'sum')
    same(st.weightedSum(iter(kets), iter(w)), sum(x * v for x, v in zip(w, vs)), 'weighted sum of iterators')


def density_domain(deep):
    out = []
    for d in range(2, 9 if deep else 6):
        for n in (1, 2, 3, 4):
            for form in (('dense',), ('csc',), ('csr',), ('dense', 'csc')):
                for probs in (None, (1, 0, 0, 0)[:n], (0.5, 0.25, 0.125, 0.125)[:n], (3, 1, 2, 0.5)[:n], (0.1, 0.0, 0.9, 0)[:n]):
                    out.append((d, form, n, probs))
    for d, n in ((2, 8), (10, 3), (17, 2), (33, 5), (64, 2)):
        for form in (('dense',), ('csc',), ('dense', 'csc')):
            out += [(d, form, n, None), (d, form, n, tuple(0.1 + q for q in range(n)))]
    return out


BELL = {'Phi+': (1, 0, 0, 1), 'Phi-': (1, 0, 0, -1), 'Psi+': (0, 1, 1, 0), 'Psi-': (0, 1, -1, 0)}
BITS = {'00': 'Phi+', '01': 'Phi-', '10': 'Psi+', '11': 'Psi-'}


def check_bell(case):
    name, sparse = case
    want = np.array(BELL[BITS.get(name, name)]).reshape(4, 1) / np.sqrt(2)
    got = typed(qt.BellStates(name, sparse), sparse, 'BellStates')
    same(got, want, name, 1e-15)
    same(qt.BellStates(bs=name), want, 'default type', 1e-15)
    same(qt.BellStates(), np.array(BELL['Phi+']).reshape(4, 1) / np.sqrt(2), 'default state', 1e-15)
    same(qt.norm(got), 1, 'norm')
    for other in list(BELL) + list(BITS):
        eq = BITS.get(name, name) == BITS.get(other, other)
        same(qt.innerProd(qt.BellStates(other), got), 1 if eq else 0, f'overlap of {name} and {other}')
    same(qt.partialTrace([0], [2, 2], got), np.eye(2) / 2, 'reduced state')
    same(qt.partialTrace([1], [2, 2], got), np.eye(2) / 2, 'reduced state')


def calls():
    out = []
    for s in (True, False):
        out += [(f'basis({d}, {x}, {s})', qt.basis, lambda d=d, x=x, s=s: (d, x, s)) for d, x in ((2, 0), (2, 1), (3, 1))]
        out += [(f'{n}({d}, {s})', getattr(qt, n), lambda d=d, s=s: (d, s)) for n in ('completeBasis', 'zerosKet', 'zerosMat',
                                                                                   'completeBasisMat') for d in (2, 3)
                if n != 'completeBasisMat']
        out += [(f'completeBasisMat({s})', lambda d, s: qt.completeBasisMat(dimension=d, sparse=s), lambda s=s: (2, s)),
                (f'completeBasisMat(basis, {s})', lambda b: qt.completeBasisMat(compKetBase=b),
                 lambda s=s: ([generic((2, 1), 1) if not s else sp.csc_matrix(generic((2, 1), 1)), unit(2, 0)],)),
                (f'basisBra({s})', qt.basisBra, lambda s=s: (3, 1, s))]
        out += [(f'superPos({e}, {p}, {s})', qt.superPos, lambda e=e, p=p, s=s: (3, copy.deepcopy(e), p, s))
                for e in (1, [0, 2], {0: 0.25, 1: 0.75}, {1: 0.5, 2: 0.5j}) for p in (True, False)
                if not (p and isinstance(e, dict) and 2 in e)]
        out += [(f'compositeState({d}, {e}, {s})', qt.compositeState, lambda d=d, e=e, s=s: (list(d), copy.deepcopy(e), s))
                for d, e in (((2, 3), [0, 1]), ((2, 3), [[0, 1], {0: 0.25, 1: 0.75}]), ((2,), [1]))]
        out += [(f'BellStates({b}, {s})', qt.BellStates, lambda b=b, s=s: (b, s)) for b in ('Phi+', 'Psi-')]
    for n, f in FORMS.items():
        out += [(f'densityMatrix({n})', qt.densityMatrix, lambda f=f: (f(generic((3, 1), 1)),)),
                (f'densityMatrix([{n}])', qt.densityMatrix, lambda f=f: ([f(generic((3, 1), 1)), f(generic((3, 1), 2))], [0.25, 0.75])),
                (f'normalise({n})', qt.normalise, lambda f=f: (f(generic((3, 1), 1)),)),
                (f'normalise({n} matrix)', qt.normalise, lambda f=f: (f(generic((3, 3), 1)),)),
                (f'weightedSum({n})', qt.weightedSum, lambda f=f: ([f(generic((3, 1), 1)), f(generic((3, 1), 2))], [0.25, 0.75])),
                (f'weightedSum({n} only)', qt.weightedSum, lambda f=f: ([f(generic((3, 1), 1)), f(generic((3, 1), 2))],)),
                (f'mat2Vec({n})', qt.mat2Vec, lambda f=f: (f(generic((3, 3), 1)),)),
                (f'vec2Mat({n})', qt.vec2Mat, lambda f=f: (f(generic((9, 1), 1)),)),
                (f'purity({n})', qt.purity, lambda f=f: (f(generic((3, 3), 1)),))]
    return out


def components(tier):
    k = tier == 'thorough'
    return [
        Cases('basis states', lambda: list(itertools.product(tuple(range(1, 40 if k else 20)) + (32, 33, 50, 64, 100, 129), (True, False), (int, np.int64))), check_basis),
        Cases('superpositions', lambda: super_domain(k), check_super),
        Cases('composite states', lambda: composite_domain(k), check_composite),
        Cases('density matrices', lambda: density_domain(k), check_density),
        in_any_order('states are created again, after the earlier ones are changed in place', calls(), 2 if k else 1),
        Cases('Bell states', lambda: list(itertools.product(list(BELL) + list(BITS), (True, False))), check_bell),
    ]
