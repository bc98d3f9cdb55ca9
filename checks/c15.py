"""C15: tensor products, partial traces, embeddings and vector products have the values of their definitions."""
import itertools
import numpy as np
import scipy.sparse as sp
from quanguru import QuantumToolbox as qt
from quanguru.QuantumToolbox import linearAlgebra as la, operators as qops
from mc import ref
from mc.core import Cases, Violation
from mc.fresh import in_any_order
from mc.util import same, equal, dense

PROPERTY = 'C15'
LEVEL = 'exploration'
RULE = ('every list of dimensions up to the bounds with every kept sub-set and every matrix unit (all states, by '
        'linearity) or a matrix without any symmetry; every mixture of matrix types')
ASSUMPTIONS = ['the kept sub-systems come out in their order in the composite, in whichever order they are listed',
               'a decision for all the states of given dimensions relies on linearity (the matrix units are enumerated)']

# sizes beyond those enumerated without gaps
LARGE = [(2, 2, 2, 2, 2), (5, 5), (6, 4), (3, 10), (10, 3), (3, 3, 3), (2, 2, 2, 2, 2, 2), (1, 2, 1, 3, 1, 2), (7, 1, 6), (8, 8), (2, 3, 2, 3),
         (32, 2), (2, 32)]
FORMS = {'dense': lambda m: m, 'csc': sp.csc_matrix, 'csr': sp.csr_matrix, 'coo': sp.coo_matrix}


def generic(shape, seed=0):
    """all elements different, no symmetries, deterministic"""
    n = int(np.prod(shape))
    k = np.arange(1, n + 1) + 0.37 * (seed + 1)
    return (np.sqrt(k) - 1.3 + 1j * np.sin(3 * k)).reshape(shape)


def dim_lists(maxlen, maxdim, maxprod):
    return [c for n in range(1, maxlen + 1) for c in itertools.product(range(1, maxdim + 1), repeat=n)
            if np.prod(c) <= maxprod]


def naive_ptrace(keep, dims, rho):
    """element by element"""
    keep = sorted(set(keep))
    kd = [dims[k] for k in keep]
    n = int(np.prod(kd)) if kd else 1
    out = np.zeros((n, n), complex)
    idx = list(itertools.product(*[range(d) for d in dims]))

    def flat(t):
        v = 0
        for k in keep:
            v = v * dims[k] + t[k]
        return v
    rest = [i for i in range(len(dims)) if i not in keep]
    for r, t in enumerate(idx):
        for c, u in enumerate(idx):
            if rho[r, c] and all(t[i] == u[i] for i in rest):
                out[flat(t), flat(u)] += rho[r, c]
    return out


def subsets(n):
    return [c for k in range(n + 1) for c in itertools.combinations(range(n), k)]


# -------------------------------------------------------------- partial traces
def check_units(case):
    """all the matrix units of the composite space"""
    dims, keep, form, typ = case
    n = int(np.prod(dims))
    for i in range(n):
        for j in range(n):
            m = np.zeros((n, n), complex)
            m[i, j] = 1 + 2j
            got = qt.partialTrace(typ(keep), typ(dims), FORMS[form](m))
            same(got, naive_ptrace(keep, dims, m), f'partial trace of |{i}><{j}|', 1e-14)


def check_ptrace(case):
    dims, keep, form, typ = case
    n = int(np.prod(dims))
    for m in (generic((n, n)), generic((n, n), 1)):
        inp = FORMS[form](m.copy())
        k, d = typ(keep), typ(dims)
        got = qt.partialTrace(k, d, inp)
        same(got, naive_ptrace(keep, dims, m), 'partial trace')
        same(inp, m, 'the state is not changed', 0)
        equal([list(k), list(d)], [list(keep), list(dims)], 'the lists are not changed')
        same(np.trace(dense(got)), np.trace(m), 'trace is kept')
        h = m + m.conj().T
        g = dense(qt.partialTrace(k, d, FORMS[form](h)))
        same(g, g.conj().T, 'hermiticity is kept')
    if n > 1:
        v = generic((n, 1), 2)
        same(qt.partialTrace(k, d, FORMS[form](v)), naive_ptrace(keep, dims, v @ v.conj().T), 'partial trace of a ket')


def check_order(case):
    """a different order in the list of kept sub-systems is the same sub-set; tracing in two steps is the same"""
    dims, keep = case
    n = int(np.prod(dims))
    m = generic((n, n))
    want = naive_ptrace(keep, dims, m)
    for p in itertools.permutations(keep):
        same(qt.partialTrace(list(p), list(dims), m), want, f'kept {p}')
    kd = [dims[k] for k in keep]
    for sub in subsets(len(keep)):
        if sub and keep:
            got = qt.partialTrace(list(sub), kd, qt.partialTrace(list(keep), list(dims), m))
            same(got, qt.partialTrace([keep[i] for i in sub], list(dims), m), f'two steps {keep} {sub}')


def check_product(case):
    """partial traces of products are the factors, and expectation values agree with those of embedded operators"""
    dims, keep, kinds = case
    ms, ks = [], []
    for i, (d, kind) in enumerate(zip(dims, kinds)):
        v = generic((d, 1), i)
        m = v @ v.conj().T if kind == 'ket' else generic((d, d), i + 5)
        ms.append(m)
        ks.append(v)
    rho = qt.tensorProd(*ms)
    same(rho, ref.kron(*ms), 'tensor product')
    got = qt.partialTrace(list(keep), list(dims), rho)
    tr = np.prod([np.trace(ms[i]) for i in range(len(dims)) if i not in keep])
    same(got, tr * ref.kron(*[ms[i] for i in keep]), 'factors of a product')
    if all(k == 'ket' for k in kinds):
        st = qt.tensorProd(*ks)
        same(st, ref.kron(*ks), 'tensor product of kets')
        if np.prod(dims) > 1:
            same(qt.partialTrace(list(keep), list(dims), st), got, 'partial trace of the product ket')
    for k in keep:
        op = generic((dims[k], dims[k]), 11)
        b, a = int(np.prod(dims[:k])), int(np.prod(dims[k + 1:]))
        emb = qops.compositeOp(op, b, a)
        red = qt.partialTrace([k], list(dims), rho)
        same(np.trace(dense(emb @ rho)), np.trace(op @ dense(red)), 'expectation value of an embedded operator')
        for q in keep:
            if q != k:
                op2 = qops.compositeOp(generic((dims[q], dims[q]), 13), int(np.prod(dims[:q])), int(np.prod(dims[q + 1:])))
                same(dense(emb @ op2), dense(op2 @ emb), 'operators of different sub-systems commute')


# -------------------------------------------------------------- tensor products
def check_tensor(case):
    dims, kinds, forms = case
    facs, want = [], []
    for i, (d, k, f) in enumerate(zip(dims, kinds, forms)):
        if k in ('int', 'np'):
            facs.append(d if k == 'int' else np.int64(d))
            want.append(np.eye(d))
            continue
        m = generic({'op': (d, d), 'ket': (d, 1), 'bra': (1, d)}[k], i)
        facs.append(FORMS[f](m.copy()))
        want.append(m)
    got = qt.tensorProd(*facs)
    same(got, ref.kron(*want), 'tensor product')
    for f, w in zip(facs, want):
        if not isinstance(f, (int, np.integer)):
            same(f, w, 'factors are not changed', 0)
    if len(facs) > 2:
        same(qt.tensorProd(qt.tensorProd(*facs[:2]), *facs[2:]), ref.kron(*want), 'associativity')
        same(qt.tensorProd(facs[0], qt.tensorProd(*facs[1:])), ref.kron(*want), 'associativity')


def tensor_domain(deep):
    out = []
    for dims in dim_lists(3, 3, 27):
        for kinds in itertools.product(('op', 'ket', 'bra', 'int', 'np'), repeat=len(dims)):
            out.append((dims, kinds, ('dense', 'csc', 'csr')[:len(dims)]))
    for dims in [(2,), (2, 3), (3, 2, 2)]:
        for forms in itertools.product(FORMS, repeat=len(dims)):
            out += [(dims, (k,) * len(dims), forms) for k in ('op', 'ket')]
    for dims in dim_lists(5 if deep else 4, 4 if deep else 3, 64):
        if len(dims) > 3:
            out.append((dims, ('op',) * len(dims), ('csc',) * len(dims)))
            out.append((dims, ('ket',) * len(dims), ('dense',) * len(dims)))
    return out


# -------------------------------------------------------------- vectors
def check_vectors(case):
    d, f1, f2, basis = case
    kets = [np.eye(d, dtype=complex)[:, [i]] for i in range(d)] + [generic((d, 1), 3), generic((d, 1), 4)] \
        if basis else [generic((d, 1), s) for s in range(6)]
    for u in kets:
        x = FORMS[f1](u.copy())
        same(qt.hc(x), u.conj().T, 'hc', 0)
        same(qt.norm(x), np.sqrt(np.sum(np.abs(u) ** 2)), 'norm')
        same(qt.innerProd(x), np.sum(np.abs(u) ** 2), 'norm squared')
        same(qt.outerProd(x), np.outer(u, u.conj()), 'projector')
        same(qt.trace(qt.outerProd(x)), np.sum(np.abs(u) ** 2), 'trace of the projector')
        for v in kets:
            y = FORMS[f2](v.copy())
            same(qt.innerProd(x, y), np.sum(v.conj() * u), '<ket2|ket1>')
            same(qt.innerProd(y, x), np.sum(u.conj() * v), '<ket1|ket2>')
            same(qt.outerProd(x, y), np.outer(u, v.conj()), '|ket1><ket2|')
            same(x, u, 'first ket is not changed', 0)
            same(y, v, 'second ket is not changed', 0)


def check_transitions(case):
    """outer products of vectors of different spaces, and of vectors that are not normalised"""
    d1, d2, f1, f2 = case
    for s in range(3):
        u, v = generic((d1, 1), s), generic((d2, 1), s + 5)
        same(qt.outerProd(FORMS[f1](u.copy()), FORMS[f2](v.copy())), np.outer(u, v.conj()), '|ket1><ket2|')


def check_matrices(case):
    d, f1, f2 = case
    a, b, c = (generic((d, d), s) for s in range(3))
    x, y, z = FORMS[f1](a.copy()), FORMS[f2](b.copy()), FORMS[f1](c.copy())
    same(qt.trace(x), sum(a[i, i] for i in range(d)), 'trace')
    same(qt.hc(x), a.conj().T, 'hc', 0)
    same(qt.hc(qt.hc(x)), a, 'hc twice', 0)
    same(la._matMulInputs(x, y, z), a @ b @ c, 'product of three')
    same(la._matMulInputs(y, x), b @ a, 'product of two')
    same(la._matMulInputs(x), a, 'product of one')
    for p in range(1, 5):
        same(la._matPower(x, p), ref.mpow(a, p), f'power {p}', 1e-9)
    for m, w in ((x, a), (y, b), (z, c)):
        same(m, w, 'inputs are not changed', 0)


def calls():
    out = []
    for n, f in FORMS.items():
        m, v = (lambda k=1, f=f: f(generic((4, 4), k))), (lambda k=1, f=f: f(generic((4, 1), k)))
        out += [(f'{g}({n})', getattr(qt, g), lambda m=m: (m(),)) for g in ('hc', 'trace', 'outerProd', 'innerProd', 'norm', 'tensorProd')
                if g in ('hc', 'trace', 'tensorProd')]
        out += [(f'{g}({n})', getattr(qt, g), lambda v=v: (v(),)) for g in ('outerProd', 'innerProd', 'norm')]
        out += [(f'{g}({n}, {n})', getattr(qt, g), lambda v=v: (v(), v(2))) for g in ('outerProd', 'innerProd', 'tensorProd')]
        out += [(f'{g}({n}, {n} again)', getattr(qt, g), lambda v=v: (v(2), v())) for g in ('outerProd', 'innerProd', 'tensorProd')]
        out += [(f'partialTrace({k}, {n})', qt.partialTrace, lambda k=k, m=m: (list(k), [2, 2], m())) for k in ((0,), (1,), (0, 1), ())]
        out += [(f'partialTrace({k}, {n} ket)', qt.partialTrace, lambda k=k, v=v: (list(k), [2, 2], v())) for k in ((0,), (1,))]
        out += [(f'product({n})', la._matMulInputs, lambda m=m: (m(), m(2))), (f'product of a list({n})', la._matMulInputs,
                                                                            lambda m=m: ([m(), m(2)],)),
                (f'power({n})', la._matPower, lambda m=m: (m(), 2))]
    return out


def components(tier):
    k = tier == 'thorough'
    units = [c for c in dim_lists(4, 4, 12 if k else 8)]
    dims = dim_lists(5 if k else 4, 5 if k else 4, 40 if k else 24)
    large = [d for d in LARGE if d not in dims]
    return [
        Cases('partial traces of matrix units', lambda: [(d, s, f, t) for d in units for s in subsets(len(d))
                                                         for f, t in (('dense', list), ('csc', np.array)) if s or t is list],
              check_units),
        Cases('partial traces', lambda: [(d, s, f, t) for d in dims + large for s in subsets(len(d)) for f, t in
                                         (('dense', list), ('csc', list), ('csr', np.array), ('dense', tuple))
                                         if s or t is list], check_ptrace),
        Cases('order of kept sub-systems', lambda: [(d, s) for d in dims + large[:6] for s in subsets(len(d))], check_order),
        Cases('products', lambda: [(d, s, ks) for d in dim_lists(4, 3, 24) for s in subsets(len(d))
                                   for ks in (('ket',) * len(d), ('mat',) * len(d), ('ket', 'mat', 'ket', 'mat')[:len(d)])],
              check_product),
        Cases('tensor products', lambda: tensor_domain(k), check_tensor),
        Cases('outer products', lambda: list(itertools.product((1, 2, 3, 5), (1, 2, 4, 7), FORMS, FORMS)), check_transitions),
        Cases('vectors', lambda: list(itertools.product(tuple(range(1, 16 if k else 8)) + (17, 32, 33), FORMS, FORMS, (True, False))), check_vectors),
        in_any_order('calls again, after the earlier results are changed in place', calls(), 2 if k else 1),
        Cases('matrices', lambda: list(itertools.product(tuple(range(1, 12 if k else 7)) + (16, 33, 64), FORMS, FORMS)), check_matrices),
    ]
