"""C18: expectation values, fidelities, entropies, distances, and distributions have the values of their definitions."""
import itertools
import math
import numpy as np
import scipy.sparse as sp
from quanguru import QuantumToolbox as qt
from quanguru.QuantumToolbox import functions as fn, eigenVecVal as ev, IPR, thermodynamics as th
from quanguru.QuantumToolbox import quasiProbabilities as qp, rmtDistributions as rmt
from mc import ref
from mc.core import Cases, Violation
from mc.fresh import in_any_order
from mc.util import same, equal, dense, raises
from checks.c15 import FORMS, generic

PROPERTY = 'C18'
LEVEL = 'exploration'
RULE = ('all pairs of states (kets and density matrices: basis, superpositions, generic, mixed, degenerate) and operators '
        'from finite families in every dimension up to the bound, in all the matrix types')
ASSUMPTIONS = ['fidelities of pairs in which both states are mixed are not asserted, except their symmetry',
               'concurrence is asserted to 1e-6 (square roots of eigenvalues that are zero up to rounding)',
               'Wigner and Husimi functions are normalised on the (x, y) plane']


def norm(v):
    return v / np.linalg.norm(v)


def kets(d):
    """name -> ket"""
    out = {f'b{k}': np.eye(d, dtype=complex)[:, [k]] for k in range(d)}
    out['sup'] = norm(np.ones((d, 1), complex))
    out['phase'] = norm(np.exp(2j * np.pi * np.arange(d) / d).reshape(d, 1))
    out['pair'] = norm(out['b0'] - 1j * out[f'b{d - 1}'])
    for s in range(3):
        out[f'g{s}'] = norm(generic((d, 1), s))
    return out


def mixed(d):
    """name -> density matrix"""
    k = kets(d)
    pr = lambda v: v @ v.conj().T
    out = {'max': np.eye(d, dtype=complex) / d, 'half': 0.5 * pr(k['b0']) + 0.5 * pr(k[f'b{d - 1}']),
           'mix': 0.25 * pr(k['g0']) + 0.75 * pr(k['g1'])}
    h = generic((d, d), 3)
    out['full'] = h @ h.conj().T / np.trace(h @ h.conj().T)
    e = np.exp(-np.arange(d))
    out['thermal'] = np.diag(e / e.sum()).astype(complex)
    return out


def states(d):
    """(name, matrix given to the library, density matrix, pure)"""
    out = [(n, v, v @ v.conj().T, True) for n, v in kets(d).items()]
    out += [(n + '_dm', r, r, True) for n, _, r, _ in list(out)]
    return out + [(n, r, r, False) for n, r in mixed(d).items()]


def opers(d):
    g = generic((d, d), 7)
    return {'n': ref.number(d), 'x': ref.jx(d), 'y': ref.jy(d), 'a': ref.destroy(d), 'h': g + g.conj().T, 'g': g,
            'i': np.eye(d, dtype=complex)}


# -------------------------------------------------------------- expectation values
def check_expectation(case):
    d, oname, f1, f2 = case
    o = opers(d)[oname]
    for name, v, rho, _ in states(d):
        x, y = FORMS[f1](o.copy()), FORMS[f2](v.copy())
        want = np.trace(o @ rho)
        got = qt.expectation(x, y)
        same(got, want, f'<{oname}> in {name}', 1e-12)
        if oname in 'nxyhi' and np.iscomplexobj(got):
            raise Violation(f'expectation value {got} of a Hermitian operator is a complex number')
        same(x, o, 'the operator is not changed', 0)
        same(y, v, 'the state is not changed', 0)
        if oname in 'nxyhi':
            var = max(0.0, (np.trace(o @ o @ rho) - want ** 2).real)
            got = fn.standardDev(x, y)
            same(got ** 2, var, f'variance of {oname} in {name}', 1e-10)
            sd, ex = fn.standardDev(x, y, expect=True)
            same(sd, got, 'standard deviation', 0)
            same(ex, want, 'expectation value', 1e-12)
    cols = np.hstack([v for v in kets(d).values()])
    same(fn._expectationColArr(FORMS[f1](o), cols), [np.vdot(v, o @ v) for v in kets(d).values()], 'columns', 1e-12)
    w, vecs = np.linalg.eigh(o + o.conj().T)
    same(fn._expectationColArr(FORMS[f1](o), vecs), np.diag(vecs.conj().T @ o @ vecs), 'columns', 1e-12)
    s, vals = fn.spectralNorm(FORMS[f1](o))
    same(s, np.linalg.norm(o, 2), 'spectral norm', 1e-7)
    same(vals, np.linalg.svd(o)[1][::-1] ** 2, 'squared singular values', 1e-7)


# -------------------------------------------------------------- pairs of states
def sqrtm(r):
    w, v = np.linalg.eigh(r)
    return (v * np.sqrt(np.clip(w, 0, None))) @ v.conj().T


def check_pair(case):
    d, i, j, f1, f2 = case
    all_ = states(d)
    (n1, v1, r1, p1), (n2, v2, r2, p2) = all_[i], all_[j]
    x, y = FORMS[f1](v1.copy()), FORMS[f2](v2.copy())
    what = f'{n1}, {n2}'
    got = qt.fidelityPure(x, y)
    same(got, qt.fidelityPure(y, x), f'symmetry of the fidelity of {what}', 1e-12)
    if p1 or p2:
        same(got, np.trace(r1 @ r2).real, f'fidelity of {what}', 1e-12)
        if not -1e-12 <= got <= 1 + 1e-12 or np.iscomplexobj(got):
            raise Violation(f'fidelity of {what} is {got}')
    if i == j and p1:
        same(got, 1, f'fidelity of {what}', 1e-12)
    if v1.shape == v2.shape == (d, d):
        td = qt.traceDistance(x, y)
        same(td, 0.5 * np.abs(np.linalg.eigvalsh(r1 - r2)).sum(), f'trace distance of {what}', 1e-7)
        same(td, qt.traceDistance(y, x), 'symmetry of the trace distance', 1e-7)
        if p1 and p2:
            same(td, np.sqrt(max(0, 1 - got)), 'trace distance of pure states', 1e-6)
    same(x, v1, 'first state is not changed', 0)
    same(y, v2, 'second state is not changed', 0)


def pair_domain(deep):
    out = []
    for d in (2, 3, 4, 5) if deep else (2, 3):
        n = len(states(d))
        out += [(d, i, j, f1, f2) for i in range(n) for j in range(n)
                for f1, f2 in (('dense', 'dense'), ('csc', 'csc'), ('csc', 'dense'), ('dense', 'csr'))]
    for d in (8, 12):
        n = len(states(d))
        out += [(d, i, j, 'csc', 'dense') for i in range(0, n, 3) for j in range(0, n, 2)]
    return out


# -------------------------------------------------------------- single states
def vn(r, base2=False):
    w = np.linalg.eigvalsh(r)
    w = w[w > 1e-14]
    return float(-(w * (np.log2(w) if base2 else np.log(w))).sum())


def check_state(case):
    d, form = case
    for name, v, rho, pure in states(d):
        x = FORMS[form](v.copy())
        for b2 in (False, True):
            s = qt.entropy(x, b2)
            same(s, vn(rho, b2), f'entropy of {name}', 1e-9)
            if not isinstance(s, float):
                raise Violation(f'entropy is a {type(s).__name__}')
        same(qt.entropy(x), vn(rho), f'entropy of {name}', 1e-9)
        if v.shape == (d, d):
            same(qt.purity(x), np.trace(rho @ rho), f'purity of {name}', 1e-12)
        if pure:
            same(qt.entropy(x), 0, f'entropy of {name}', 1e-9)
        if v.shape == (d, 1):
            same(qt.entropy(qt.densityMatrix(x)), qt.entropy(x), 'entropy of ket and density matrix', 1e-10)
            ipr = 1 / np.sum(np.abs(v) ** 4)
            same(qt.iprKetNB(x), ipr, f'participation of {name}', 1e-12)
            basis = qt.completeBasis(d, sparse=form != 'dense')
            same(qt.iprKet(basis, x), ipr, f'participation of {name} in the basis', 1e-12)
            w, vecs = np.linalg.eigh(opers(d)['h'])
            other = [FORMS[form](vecs[:, [k]]) for k in range(d)]
            amps = np.abs(vecs.conj().T @ v).ravel() ** 2
            same(qt.iprKet(other, x), 1 / np.sum(amps ** 2), 'participation in another basis', 1e-10)
            reg, sym = ev.eigVecStatKet(other, x)
            same(reg, amps, 'components in a basis', 1e-12)
            same(sym, [amps[2 * k] + amps[2 * k + 1] for k in range(d // 2)], 'sums of pairs', 1e-12)
            reg, sym = ev.eigVecStatKet(other, x, symp=False)
            same(reg, amps, 'components in a basis', 1e-12)
            equal(list(sym), [], 'no sums of pairs')
        same(x, v, 'state is not changed', 0)


WEIGHTS = [(0.7, 0.15, 0.1, 0.05), (0.55, 0.25, 0.2, 0.0), (0.6, 0.3, 0.07, 0.03), (0.4, 0.3, 0.2, 0.1), (0.9, 0.06, 0.03, 0.01)]


def check_concurrence(case):
    kind, a, b, form = case
    cs = (0, 1, 0.5, 1j, -0.3 + 0.8j)
    if kind == 'ket':
        v = np.array([cs[a], cs[b], cs[(a + 2 * b) % 5], cs[(3 * a + b + 1) % 5]], complex).reshape(4, 1)
        if not np.any(v):
            return
        v = norm(v)
        want = 2 * abs(v[0, 0] * v[3, 0] - v[1, 0] * v[2, 0])
        for m in (v, v @ v.conj().T):
            x = FORMS[form](m.copy())
            same(qt.concurrence(x), want, f'concurrence of {v.ravel()}', 1e-6)
            same(x, m, 'the state is not changed', 0)
        return
    if kind == 'werner':
        p = a / 10
        bell = np.array([[0, 1, -1, 0]]).T / np.sqrt(2)
        rho = p * bell @ bell.T + (1 - p) * np.eye(4) / 4
        u = np.kron(ref.uexp(ref.jx(2), b), ref.uexp(ref.jy(2) + 0.3 * ref.jz(2), 2 * b + 0.1))     # local rotations
        rho = u @ rho @ u.conj().T
        want = max(0, (3 * p - 1) / 2)
    elif kind == 'bell':       # mixtures of the four Bell states with distinct weights, in every order
        ws = list(itertools.permutations(WEIGHTS[a % len(WEIGHTS)]))[(5 * b) % 24]
        bells = [np.array([x], complex).T / np.sqrt(2) for x in ([1, 0, 0, 1], [1, 0, 0, -1], [0, 1, 1, 0], [0, 1, -1, 0])]
        rho = sum(w * v @ v.conj().T for w, v in zip(ws, bells))
        u = np.kron(ref.uexp(ref.jx(2) - ref.jz(2), b), ref.uexp(ref.jy(2) + 0.3 * ref.jz(2), a + 0.1))
        rho = u @ rho @ u.conj().T
        want = max(0, 2 * max(ws) - 1)
    elif kind == 'x':
        d = [(0.4, 0.1, 0.2, 0.3), (0.05, 0.5, 0.4, 0.05), (0.25, 0.25, 0.25, 0.25), (0.0, 0.6, 0.4, 0.0), (0.45, 0.05, 0.1, 0.4)][a % 5]
        z = (0, 1, 0.5, -0.7j, 0.9)[b % 5] * np.sqrt(d[0] * d[3])
        y = (1, 0.3, 0.8j, 0, -1)[(a + b) % 5] * np.sqrt(d[1] * d[2])
        rho = np.diag(d).astype(complex)
        rho[0, 3], rho[3, 0], rho[1, 2], rho[2, 1] = z, np.conj(z), y, np.conj(y)
        want = 2 * max(0, abs(z) - np.sqrt(d[1] * d[2]), abs(y) - np.sqrt(d[0] * d[3]))
    else:
        ks = [norm(generic((2, 1), s)) for s in range(4)]                         # separable mixture
        pr = [np.kron(ks[i] @ ks[i].conj().T, ks[j] @ ks[j].conj().T) for i, j in ((0, 1), (a % 4, b % 4), (3, 2))]
        rho, want = (0.5 * pr[0] + 0.3 * pr[1] + 0.2 * pr[2]), 0
    same(qt.concurrence(FORMS[form](rho)), want, f'concurrence {kind} {a} {b}', 1e-6)


# -------------------------------------------------------------- eigenvalues
def check_eigens(case):
    d, oname, form = case
    o = opers(d)[oname]
    if oname == 'a':
        o = o + 0.5 * np.diag(np.arange(d))            # not defective
    x = FORMS[form](o.copy())
    for mag in (False, True):
        vals, vecs = qt.sortedEigens(x, mag) if mag else qt.sortedEigens(x)
        equal([len(vals), len(vecs)], [d, d], 'number of the eigenvalues')
        key = np.abs(vals) if mag else np.real(vals)
        if np.any(np.diff(key) < -1e-8):
            raise Violation(f'eigenvalues are not sorted {vals}')
        for val, vec in zip(vals, vecs):
            equal(dense(vec).shape, (d, 1), 'eigenvectors are kets')
            same(o @ dense(vec), val * dense(vec), 'eigenvectors', 1e-8)
            same(np.linalg.norm(dense(vec)), 1, 'norm of eigenvectors', 1e-10)
        want = np.linalg.eigvals(o)
        same(np.sum(vals), np.trace(o), 'trace', 1e-8)
        if d < 9:                                      # without cancellations of large numbers
            same(np.prod(vals), np.linalg.det(o), 'determinant', 1e-6)
        same(np.sort(np.abs(vals)), np.sort(np.abs(want)), 'eigenvalues', 1e-7)
    same(x, o, 'the matrix is not changed', 0)
    vecs = ev._eigs(x)[1]
    want = np.sort((np.abs(vecs) ** 2).ravel())
    same(np.sort(ev._eigStat(x)), want, 'amplitudes of eigenvectors', 1e-12)
    same(np.sort(ev._eigStatEig(vecs)), want, 'amplitudes of given eigenvectors', 1e-12)
    if d % 2 == 0:
        amps = np.abs(vecs) ** 2
        pairs = [amps[2 * k, i] + amps[2 * k + 1, i] for i in range(d) for k in range(d // 2)]
        same(np.sort(ev._eigStat(x, symp=True)), np.sort(pairs), 'sums of pairs', 1e-12)
        same(ev._eigStatEig(vecs, symp=True), pairs, 'sums of pairs of given eigenvectors', 1e-12)


# -------------------------------------------------------------- thermodynamics
def thermal_domain():
    """also low temperatures; exponentials that overflow are left out"""
    return [(w, t, h, k) for w, t, h, k in itertools.product((1e-3, 0.1, 1, 2.5, 5), (0, 1e-3, 0.2, 1, 10.0), (1, 2.0), (1, 0.5))
            if t == 0 or h * w / (t * k) < 300]


def check_thermal(case):
    w, t, h, k = case
    x = h * w / (t * k) if t else np.inf
    got = th.nBarThermal(w, t, h, k)
    same(got, 0 if t == 0 else 1 / math.expm1(x), 'average excitation number', 1e-9 * max(1, abs(got)))
    if t and h == k == 1:
        same(th.nBarThermal(w, t), got, 'default units', 0)
        p1 = 1 / (1 + math.exp(w / t))
        same(th.qubitPolarisation(w, t), 2 * p1 - 1, 'polarisation', 1e-12)
        same(th.qubitPolarisation(w, t), -math.tanh(w / (2 * t)), 'polarisation', 1e-12)
    raises(lambda: th.nBarThermal(0, t or 1, h, k), ValueError, 'infinite number')


def check_heat(case):
    d, cop, form, oname = case
    o = opers(d)[oname]
    c = {'a': ref.destroy(d), 'g': generic((d, d), 9), 'n': ref.number(d)}[cop]
    li = ref.liouvillian(None, [c], [0.7])
    for name, v, rho, _ in states(d):
        if v.shape != (d, d):
            continue
        drho = 0.7 * (c @ rho @ c.conj().T - 0.5 * (c.conj().T @ c @ rho + rho @ c.conj().T @ c))
        got = th.HeatCurrent(FORMS[form](li), FORMS[form](o), FORMS[form](rho.copy()))
        same(got, np.trace(drho @ o).real, f'heat current {name}', 1e-10)


# -------------------------------------------------------------- phase space
BIG = 70


def disp(alpha):
    a = ref.destroy(BIG)
    return ref.expm(alpha * a.conj().T - np.conj(alpha) * a)


VEC = (-1.5, -0.4, 0.0, 0.9)


def phase_ref(d, g):
    """for each point: matrices whose traces with a density matrix are the functions"""
    par = np.diag((-1.0) ** np.arange(BIG))
    w = {}
    for x, y in itertools.product(VEC, VEC):
        al = 0.5 * g * (x + 1j * y)
        dm = disp(al)
        wm = 0.5 * g ** 2 / np.pi * (dm @ par @ dm.conj().T)[:d, :d]
        co = dm[:d, [0]]
        w[x, y] = (wm, 0.25 * g ** 2 / np.pi * (co @ co.conj().T))
    return w


def check_phase(case):
    d, g, form = case
    want = phase_ref(d, g)
    for name, v, rho, _ in states(d):
        x = FORMS[form](v.copy())
        for k, f in ((0, qp.Wigner), (1, qp.HusimiQ)):
            grids = [f(x, np.array(VEC), g), f(x, list(VEC), g=g)] + ([f(x, np.array(VEC))] if g == np.sqrt(2) else [])
            for grid in grids:
                equal(np.shape(grid), (len(VEC),) * 2, 'shape of the grid')
                for (ix, a), (iy, b) in itertools.product(enumerate(VEC), enumerate(VEC)):
                    same(grid[iy, ix], np.trace(want[a, b][k] @ rho).real, f'{f.__name__} of {name} at {a}, {b}', 1e-6)
        same(x, v, 'the state is not changed', 0)


def check_phase_norm(case):
    """sums over the plane are one, and marginals of pure states are the probability densities"""
    d, g, name = case
    rho = {n: r for n, _, r, _ in states(d)}[name]
    m = 12 / g
    vec = np.linspace(-m, m, 161)
    step = vec[1] - vec[0]
    for f in (qp.Wigner, qp.HusimiQ):
        same(f(rho, vec, g).sum() * step ** 2, 1, f'integral of {f.__name__}', 1e-6)


# -------------------------------------------------------------- distributions
def integrate(f, a, b, n=400):
    """Gauss-Legendre"""
    x, w = np.polynomial.legendre.leggauss(n)
    x = 0.5 * (b - a) * x + 0.5 * (a + b)
    return 0.5 * (b - a) * sum(wi * f(xi) for xi, wi in zip(x, w))


def check_distribution(case):
    kind, par, beta = case
    if kind == 'eigenvector':
        d = par
        # x = s^2 removes the singularity at the origin (beta 1)
        f = lambda s: rmt.EigenVectorDist(s * s, d, beta) * 2 * s
        g = lambda s: s * s * f(s)
        tot, mean = integrate(f, 0, 1), integrate(g, 0, 1)
        tol = 2e-3 if (beta == 1 and d < 6) else 1e-8
        same(tot, 1, f'sum of the distribution {par}, {beta}', tol)
        same(mean, 2 / d if beta == 4 else 1 / d, f'mean of the distribution {par}, {beta}', tol)
        if beta == 2:
            same(rmt.EigenVectorDist(0.25, d, 2), (d - 1) * 0.75 ** (d - 2), 'CUE', 1e-12)
            return
        if beta == 1:
            same(rmt.EigenVectorDist(0.25, d), rmt.EigenVectorDist(0.25, d, 1), 'default', 0)
    elif kind == 'Wigner-Dyson':
        f = lambda x: rmt.WignerDyson(x, beta)
        same(integrate(f, 0, 40), 1, f'sum {beta}', 1e-8)
        same(integrate(lambda x: x * f(x), 0, 40), 1, f'mean {beta}', 1e-8)
        same(rmt.WignerSurmise(0.7, beta), f(0.7), 'other name', 0)
        if beta:
            same(f(2e-3) / f(1e-3), 2.0 ** beta, 'level repulsion', 1e-4)
        if beta == 1:
            same(rmt.WignerDyson(0.7), f(0.7), 'default', 0)
    else:
        p = [rmt.Poissonian(k, par) for k in range(120)]
        same(sum(p), 1, 'sum', 1e-9)
        same(sum(k * x for k, x in enumerate(p)), par, 'mean', 1e-8)
        for k in range(20):
            same(p[k], par ** k * math.exp(-par) / math.factorial(k), f'P({k})', 1e-12)


def distribution_domain(deep):
    out = [('eigenvector', d, b) for d in range(4, 40 if deep else 20, 2) for b in (1, 2, 4)]
    out += [('eigenvector', d, b) for d in range(5, 20, 2) for b in (1, 2)]
    out += [('Wigner-Dyson', None, b) for b in (0, 1, 2, 4)]
    return out + [('Poisson', lam, None) for lam in (0.1, 1, 2.5, 7, 20)]


def calls():
    out = []
    pure, mix = (lambda: kets(4)['g0']), (lambda: mixed(4)['mix'])
    for n, f in FORMS.items():
        v, w, m = (lambda f=f: f(kets(4)['g0'])), (lambda f=f: f(kets(4)['g1'])), (lambda f=f: f(mixed(4)['mix']))
        h = lambda f=f: f(opers(4)['h'])
        out += [(f'expectation({n})', fn.expectation, lambda h=h, v=v: (h(), v())), (f'expectation({n}, mixed)', fn.expectation,
                                                                                  lambda h=h, m=m: (h(), m())),
                (f'fidelityPure({n})', fn.fidelityPure, lambda v=v, w=w: (v(), w())),
                (f'fidelityPure({n}, mixed)', fn.fidelityPure, lambda v=v, m=m: (v(), m())),
                (f'entropy({n})', fn.entropy, lambda m=m: (m(),)), (f'entropy({n}, 2)', fn.entropy, lambda m=m: (m(), True)),
                (f'entropy({n} ket)', fn.entropy, lambda v=v: (v(),)),
                (f'traceDistance({n})', fn.traceDistance, lambda f=f, m=m: (f(mixed(4)['half']), m())),
                (f'concurrence({n})', fn.concurrence, lambda v=v: (v(),)), (f'concurrence({n}, mixed)', fn.concurrence, lambda m=m: (m(),)),
                (f'standardDev({n})', fn.standardDev, lambda h=h, v=v: (h(), v())),
                (f'spectralNorm({n})', fn.spectralNorm, lambda h=h: (h(),)),
                (f'sortedEigens({n})', lambda x: fn.sortedEigens(x)[0], lambda h=h: (h(),)),
                (f'HeatCurrent({n})', th.HeatCurrent, lambda f=f, h=h, m=m: (f(generic((16, 16), 1)), h(), m())),
                (f'iprKet({n})', IPR.iprKet, lambda f=f, v=v: ([f(x) for x in np.eye(4, dtype=complex)[:, :, None]], v())),
                (f'iprKetNB({n})', IPR.iprKetNB, lambda v=v: (v(),)),
                (f'Wigner({n})', qp.Wigner, lambda m=m: (m(), np.linspace(-1, 1, 3))),
                (f'HusimiQ({n})', qp.HusimiQ, lambda v=v: (v(), np.linspace(-1, 1, 3)))]
    return out


def components(tier):
    k = tier == 'thorough'
    ds = (2, 3, 4, 5, 6) if k else (2, 3, 4)
    forms = ('dense', 'csc', 'csr')
    return [
        Cases('expectation values', lambda: list(itertools.product(ds + (8, 12), 'nxyahgi', forms, forms)), check_expectation),
        Cases('pairs of states', lambda: pair_domain(k), check_pair),
        Cases('single states', lambda: list(itertools.product(tuple(range(2, 9 if k else 7)) + (9, 12, 16), forms)), check_state, chunk=1),
        Cases('concurrence', lambda: list(itertools.product(('ket', 'werner', 'separable', 'bell', 'x'), range(11), range(6), forms))
              if not k else list(itertools.product(('ket', 'werner', 'separable', 'bell', 'x'), range(11), range(11), forms)), check_concurrence_safe),
        Cases('eigenvalues', lambda: list(itertools.product(tuple(range(2, 12 if k else 8)) + (12, 16, 21, 32), 'nxyahg', forms)), check_eigens),
        in_any_order('calls again, after the earlier results are changed in place', calls(), 2 if k else 1),
        Cases('thermodynamics', thermal_domain, check_thermal),
        Cases('heat currents', lambda: list(itertools.product(ds, 'agn', forms, 'nxyh')), check_heat),
        Cases('phase space', lambda: list(itertools.product(ds + (6, 9), (np.sqrt(2), 2.0, 1.0), ('dense', 'csc'))), check_phase, chunk=1),
        Cases('integrals over phase space', lambda: [(d, g, n) for d in ds for g in (np.sqrt(2), 2.0) for n in
                                                     ('b0', 'b1', 'sup', 'g0', 'mix', 'full', 'max')], check_phase_norm),
        Cases('distributions', lambda: distribution_domain(k), check_distribution),
    ]


def check_concurrence_safe(case):
    kind, a, b, form = case
    check_concurrence((kind, a % 5, b % 5, form) if kind == 'ket' else case)
