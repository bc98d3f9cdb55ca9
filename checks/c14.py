"""C14: operators have the matrix elements of their definitions in every dimension, and obey their algebra."""
import itertools
import numpy as np
import scipy.sparse as sp
import quanguru as qg
from quanguru import QuantumToolbox as qt
from quanguru.QuantumToolbox import operators as qops
from mc import ref
from mc.core import Cases, Violation
from mc.fresh import in_any_order
from mc.util import same, equal, dense, raises

PROPERTY = 'C14'
LEVEL = 'exploration'
RULE = ('every operator in every dimension up to the bound and in both matrix types; parameters of displacements, '
        'rotations and Hamiltonians from full grids')
ASSUMPTIONS = ['displacement and squeezing operators are the exponentials of the truncated generators']


def typed(m, sparse, what):
    """right matrix type"""
    ok = sp.issparse(m) if sparse else (isinstance(m, np.ndarray) and not isinstance(m, np.matrix))
    if not ok:
        raise Violation(f'{what}: type is {type(m).__name__} for sparse={sparse}')
    return m


LARGE = (32, 33, 50, 64, 100, 101, 128, 129, 200, 256, 300)        # sizes beyond those enumerated without gaps
BOSON = ('number', 'destroy', 'create', 'identity')
SPIN = ('Jz', 'Jp', 'Jm', 'Jx', 'Jy', 'Js')
ALL = {**ref.OPS, 'Js': ref.js}


def check_operator(case):
    name, d, sparse, how = case
    f = getattr(qt, name)
    if name in SPIN:
        if how == 'j':
            got = f((d - 1) / 2, sparse=sparse)
        elif how == 'dim':
            got = f(d, sparse=sparse, isDim=True)
        elif how == 'default':
            got = f((d - 1) / 2)
        else:
            got = f(np.int64(d), sparse, True)
    elif name in BOSON:
        got = f(d) if how == 'default' else f(np.int64(d) if how == 'np' else d, sparse)
    else:
        got = f() if how == 'default' else f(sparse)
    typed(got, sparse or how == 'default', name)
    same(got, ALL[name](d), f'{name}({d})', 1e-12)


def operator_domain(deep):
    dims = list(range(2, 60 if deep else 26)) + [d for d in LARGE if d > (59 if deep else 25)]
    out = [(n, d, s, h) for n in BOSON + SPIN for d in dims for s in (True, False)
           for h in (('j', 'dim', 'np', 'default') if n in SPIN else ('dim', 'np', 'default'))]
    return out + [(n, 2, s, h) for n in ref.PAULI for s in (True, False) for h in ('dim', 'default')]


def check_algebra(case):
    """relations between the operators of the library, which do not use the reference"""
    d, sparse = case
    a, c, n = (dense(f(d, sparse)) for f in (qt.destroy, qt.create, qt.number))
    j = (d - 1) / 2
    x, y, z, p, m, s = (dense(getattr(qt, k)(j, sparse)) for k in ('Jx', 'Jy', 'Jz', 'Jp', 'Jm', 'Js'))
    same(c @ a, n, 'a^dagger a = n')
    same((a @ c - c @ a)[:-1, :-1], np.eye(d - 1), '[a, a^dagger] = 1')
    same(c, a.conj().T, 'adjoint of a')
    for u, v, w, what in ((x, y, z, 'x, y'), (y, z, x, 'y, z'), (z, x, y, 'z, x')):
        same(u @ v - v @ u, 1j * w, f'commutator of {what}')
    same(x + 1j * y, p, 'J+')
    same(x - 1j * y, m, 'J-')
    same(s, j * (j + 1) * np.eye(d), 'J^2')
    for u, what in ((x, 'Jx'), (y, 'Jy'), (z, 'Jz')):
        same(u, u.conj().T, f'{what} is Hermitian')
        same(np.sort(np.linalg.eigvalsh(u)), np.arange(d) - j, f'spectrum of {what}')
    if d == 2:
        for k, u in (('x', x), ('y', y), ('z', z), ('p', p), ('m', m)):
            same(dense(getattr(qt, 'sigma' + k)(sparse)), u if k in 'pm' else 2 * u, f'sigma{k} from spins')


# -------------------------------------------------------------- powers, embeddings
OPNAMES = list(ref.OPS)


def check_power(case):
    name, d, power, sparse = case
    f = getattr(qt, name)
    m = ALL[name](d)
    arg = (d - 1) / 2 if name in SPIN else d
    if power == 0:
        raises(lambda: qt.operatorPow(f, arg, 0, sparse), Exception, 'power 0')
        return
    got = qt.operatorPow(f, arg, power, sparse)
    same(typed(got, sparse, 'power'), ref.mpow(m, power), f'{name}^{power}')
    mat = f(sparse) if name in ref.PAULI else f(arg, sparse)
    before = dense(mat).copy()
    same(qt._matPower(mat, power), ref.mpow(m, power), '_matPower')
    same(qt._matMulInputs(*[mat] * power), ref.mpow(m, power), '_matMulInputs')
    same(mat, before, 'the input is not changed', 0)


def power_domain(deep):
    return [(n, d, p, s) for n in OPNAMES for d in ((2,) if n in ref.PAULI else range(2, 9 if deep else 6))
            for p in range(0, 8 if deep else 6) for s in (True, False)] + [
        (n, d, p, s) for n in OPNAMES for d, ps in ((2, (9, 12)), (3, (7, 9, 12)), (10, (1, 2, 3, 4)), (17, (2, 3)), (33, (2, 3)), (64, (1, 2)))
        if d == 2 or n not in ref.PAULI for p in ps for s in (True, False)]


def check_large(case):
    """elements beyond the 64-bit integers"""
    d, power, how = case
    want = np.diag([float(n) ** power for n in range(d)])
    if how == 'function':
        got = qt.operatorPow(qt.number, d, power)
    else:
        s = qg.Cavity(dimension=d, frequency=1.0)
        s.order = power
        got = s.totalHamiltonian
    same(got, want, f'number({d})^{power}')


def check_embed(case):
    name, d, b, a, typ, sparse = case
    f = getattr(qt, name)
    mat = f(sparse) if name in ref.PAULI else f((d - 1) / 2 if name in SPIN else d, sparse)
    t = {'int': int, 'np': np.int64}[typ]
    want = np.kron(np.kron(np.eye(b), ALL[name](d)), np.eye(a))
    same(qops.compositeOp(mat, t(b), t(a)), want, f'compositeOp({name}, {b}, {a})')
    same(qops.compositeOp(operator=mat, dimA=t(a), dimB=t(b)), want, 'compositeOp by keywords')
    if b == 1:
        same(qops.compositeOp(mat, dimA=t(a)), want, 'default of dimB')
    if a == 1:
        same(qops.compositeOp(mat, t(b)), want, 'default of dimA')
    same(qt.tensorProd(t(b), mat, t(a)), want, 'tensorProd')


def embed_domain(deep):
    r = range(1, 7 if deep else 5)
    return [(n, d, b, a, t, s) for n in OPNAMES for d in ((2,) if n in ref.PAULI else (2, 3)) for b, a in
            list(itertools.product(r, r)) + [(1, 16), (16, 1), (7, 9), (2, 32), (32, 2), (12, 12), (64, 1), (1, 65)]
            for t in ('int', 'np') for s in (True, False)]


# -------------------------------------------------------------- displacement, squeezing, parity
ALPHAS = (0, 0.5, 1, -0.3j, 0.4 + 0.7j, -1.1, 2j)


def check_exponential(case):
    name, alpha, d, sparse = case
    a = ref.destroy(d)
    c = a.conj().T
    if name == 'displacement':
        got, want = qt.displacement(alpha, d, sparse), ref.expm(alpha * c - np.conj(alpha) * a)
    else:
        got, want = qt.squeeze(alpha, d, sparse), ref.expm((np.conj(alpha) * a @ a - alpha * c @ c) / 2)
    typed(got, sparse, name)
    same(got, want, f'{name}({alpha})')
    g = dense(got)
    same(g @ g.conj().T, np.eye(d), f'{name}({alpha}) is unitary')


def check_parity(case):
    d, sparse = case
    got = qops.paritySUM(d, sparse)
    want = np.diag([(-1.0) ** n for n in range(d)])
    same(typed(got, sparse, 'paritySUM'), want, 'paritySUM')
    same(typed(qops.parityEXP(qt.number(d, sparse)), sparse, 'parityEXP'), want, 'parityEXP of the number operator')
    h = ref.number(d) + 0.25 * (ref.destroy(d) + ref.create(d))
    hm = sp.csc_matrix(h) if sparse else h
    same(qops.parityEXP(hm), ref.expm(1j * np.pi * h), 'parityEXP')


# -------------------------------------------------------------- rotations and gates
ANGLES = tuple(k * np.pi / 6 for k in range(-13, 26)) + (0.1, 1.0, -2.3, 1e-9, 100.0)


def check_rotation(case):
    kind, axis, angle, d, sparse = case
    j = {'x': ref.jx, 'y': ref.jy, 'z': ref.jz}[axis.lower()](d)
    want = ref.uexp(j, angle)
    if kind == 'qub':
        got = qt.qubRotation(axis, angle, sparse)
        same(getattr(qt, axis.lower() + 'Rotation')(angle, sparse), want, 'rotation of the axis')
    elif kind == 'j':
        got = qt.spinRotations.spinRotation(axis, angle, (d - 1) / 2, sparse)
    else:
        got = qt.spinRotations.spinRotation(axis, angle, d, sparse, isDim=True)
    same(typed(got, sparse, 'rotation'), want, f'rotation about {axis} by {angle}')


def rotation_domain(deep):
    out = [('qub', ax, an, 2, s) for ax in 'xyzXYZ' for an in ANGLES for s in (True, False)]
    dims = tuple(range(2, 9) if deep else (2, 3, 4, 7)) + (12, 21, 32)
    return out + [(k, ax, an, d, s) for k in ('j', 'dim') for ax in 'xyZ' for an in ANGLES[::1 if deep else 3]
                  for d in dims for s in (True, False)]


def check_gate(case):
    name, phase, sparse = case
    if name == 'CNOT':
        got = qt.CNOT(sparse)
        want = np.array([[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 0, 1], [0, 0, 1, 0]])
    elif name == 'Hadamard':
        got, want = qt.Hadamard(sparse), np.array([[1, 1], [1, -1]]) / np.sqrt(2)
    elif name == 'CPHASE':
        got, want = qt.CPHASE(phase, sparse), np.diag([1, 1, 1, np.exp(1j * phase)])
    else:
        raises(lambda: qt.qubRotation('w', phase, sparse), ValueError, 'unknown axis')
        raises(lambda: qt.spinRotations.spinRotation('w', phase, 1, sparse), ValueError, 'unknown axis')
        return
    same(typed(got, sparse, name), want, name, 1e-14)


# -------------------------------------------------------------- Hamiltonians
def check_hamiltonian(case):
    name, wq, wc, g, d = case
    n, a, i2, ic = ref.number(d), ref.destroy(d), np.eye(2), np.eye(d)
    c = a.conj().T
    cav, qub = wc * np.kron(i2, n), wq * np.kron(ref.SZ, ic)
    if name == 'free':
        got = qt.Hamiltonians.qubCavFreeHam(wq, wc, d)
        equal(len(got), 2, 'two Hamiltonians')
        same(got[0], cav, 'cavity')
        same(got[1], qub, 'qubit')
        return
    coup = {'RabiHam': np.kron(ref.SX, a + c), 'JCHam': np.kron(ref.SM, c) + np.kron(ref.SP, a),
            'aJCHam': np.kron(ref.SP, c) + np.kron(ref.SM, a)}[name]
    got = getattr(qt, name)(wq, wc, g, d)
    same(got, cav + qub + g * coup, name)
    x = dense(got)
    same(x, x.conj().T, f'{name} is Hermitian')
    nexc = np.kron(i2, n) + np.kron((np.eye(2) + ref.SZ) / 2, ic) * (-1 if name == 'aJCHam' else 1)
    if name != 'RabiHam':
        same(x @ nexc, nexc @ x, f'{name} conserves the excitations')


def check_ujc(case):
    wq, wc, g, t, d, sparse = case
    up = np.array([[0, 0], [1, 0]])       # |e><g| with the ground state first
    h = wc * np.kron(ref.number(d), np.eye(2)) + wq / 2 * np.kron(np.eye(d), np.diag([-1, 1]))
    h = h + g * (np.kron(ref.destroy(d), up) + np.kron(ref.create(d), up.T))
    got = qt.Hamiltonians.UJC(wq, wc, g, t, d, sparse)
    same(typed(got, sparse, 'UJC'), ref.uexp(h, t), 'UJC')


# -------------------------------------------------------------- the same through quantum systems
def check_system(case):
    """an operator, order and frequency given to a system is the operator of the library in its dimension"""
    name, d, order, freq = case
    s = qg.Qubit() if d == 2 and name in SPIN + ref.PAULI else qg.QuantumSystem(dimension=d)
    s.operator = getattr(qt, name)
    s.order = order
    s.frequency = freq
    same(s.totalHamiltonian, freq * ref.mpow(ALL[name](d), order), f'{freq}*{name}^{order}')


def system_domain(deep):
    return [(n, d, o, f) for n in OPNAMES + ['Js'] for d in ((2,) if n in ref.PAULI else range(2, 10 if deep else 6))
            for o in (1, 2, 3) for f in (1.0, -0.5, 2, 0.25j)] + [
        (n, d, o, f) for n in OPNAMES + ['Js'] for d in ((2,) if n in ref.PAULI else (2, 10, 21, 64))
            for o in ((4, 5, 6) if d < 20 else (1, 2, 3)) for f in (1.0, 0.25j)]


def calls():
    out = []
    for s in (True, False):
        for n in BOSON:
            out += [(f'{n}({d}, {s})', getattr(qt, n), lambda d=d, s=s: (d, s)) for d in (2, 3)]
        for n in SPIN:
            out += [(f'{n}({d}, {s})', getattr(qt, n), lambda d=d, s=s: (d, s, True)) for d in (2, 3)]
        out += [(f'{n}({s})', getattr(qt, n), lambda s=s: (s,)) for n in ref.PAULI]
        out += [(f'{n}({a}, {s})', getattr(qt, n), lambda a=a, s=s: (a, 3, s)) for n in ('displacement', 'squeeze') for a in (0.5, 0.5j)]
        out += [(f'operatorPow({n}, {p}, {s})', qt.operatorPow, lambda n=n, p=p, s=s: (getattr(qt, n), 3, p, s))
                for n in ('number', 'Jx') for p in (1, 2)]
        out += [(f'paritySUM({s})', qt.paritySUM, lambda s=s: (3, s)), (f'CNOT({s})', qt.CNOT, lambda s=s: (s,)),
                (f'Hadamard({s})', qt.Hadamard, lambda s=s: (s,)), (f'CPHASE({s})', qt.CPHASE, lambda s=s: (0.5, s))]
        out += [(f'spinRotation({x}, {s})', qt.spinRotations.spinRotation, lambda x=x, s=s: (x, 0.5, 1, s)) for x in 'xyz']
        out += [(f'compositeOp({n}, {s})', qt.compositeOp, lambda s=s, n=n: (qt.number(2, s), *n)) for n in ((1, 2), (2, 1), (1, 1))]
    out += [(f'{n}({c})', getattr(qt, n), lambda c=c: (1.0, 0.5, c, 3)) for n in ('RabiHam', 'JCHam', 'aJCHam') for c in (0.1, 0.2)]
    return out + [('qubCavFreeHam', qt.qubCavFreeHam, lambda: (1.0, 0.5, 3))]


def components(tier):
    k = tier == 'thorough'
    dims = tuple(range(2, 14 if k else 9)) + (16, 25, 33, 50)
    return [
        Cases('elements', lambda: operator_domain(k), check_operator),
        Cases('algebra', lambda: [(d, s) for d in tuple(range(2, 60 if k else 30)) + (64, 100, 101, 128) for s in (True, False)], check_algebra),
        Cases('powers', lambda: power_domain(k), check_power),
        Cases('large powers', [(d, p, h) for d, p in ((100, 9), (100, 10), (26, 13), (11, 18)) for h in
                               ('function', 'system')], check_large),
        Cases('embeddings', lambda: embed_domain(k), check_embed),
        Cases('displacement and squeezing', lambda: list(itertools.product(
            ('displacement', 'squeeze'), ALPHAS + (3.0, -2 + 2j), tuple(range(2, 24 if k else 14)) + (25, 32, 50, 64), (True, False))), check_exponential),
        Cases('parity', lambda: list(itertools.product(tuple(range(2, 30 if k else 16)) + (32, 33, 50, 64, 101), (True, False))), check_parity),
        Cases('rotations', lambda: rotation_domain(k), check_rotation),
        Cases('gates', lambda: list(itertools.product(('CNOT', 'Hadamard', 'CPHASE', 'unknown'), ANGLES, (True, False))),
              check_gate),
        Cases('Hamiltonians', lambda: list(itertools.product(
            ('free', 'RabiHam', 'JCHam', 'aJCHam'), (1.0, 0.5, 0, -1.5), (1.0, 0.3, 0), (0.1, 0, 2.0), dims)),
            check_hamiltonian),
        Cases('Jaynes-Cummings evolution', lambda: list(itertools.product(
            (1.0, 0.5, -1.5), (1.0, 0.3, 0), (0.1, 2.0, -0.7), (0, 0.5, 3.0, -1.0), dims, (True, False))), check_ujc),
        in_any_order('operators are created again, after the earlier ones are changed in place', calls(), 2 if k else 1),
        Cases('operators of systems', lambda: system_domain(k), check_system),
    ]
