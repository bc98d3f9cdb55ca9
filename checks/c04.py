"""C04: initial states always reflect the latest inputs, dimensions and structure."""
import itertools
import numpy as np
import scipy.sparse as sp
import quanguru as qg
from mc.core import Cases, Histories, Disabled, Violation
from mc.ref import RSys, ket, kron
from mc.util import dense, same
from .c01 import World, leaf, s_freq
from .c02 import s_add, s_rem

PROPERTY = 'C04'
LEVEL = 'model_checking'
ASSUMPTIONS = ['full state vectors are normalised by the user, as documented',
               'inputs that do not fit the dimension have no state (None), until the dimension fits again']


class SWorld(World):
    """RSys.state: input of a leaf, or the vector that is set for a composite (None: product of the sub-systems)"""
    def __init__(self):
        super().__init__()
        self.pi = {}
        self.own = {}     # protocol -> its own input, or absent if it uses the state of its system
        self.psys = {}
        self.up = {}


class NoState(Exception):
    """no state can be created: an input is missing or does not fit"""


def largest(inp):
    return max(inp) if isinstance(inp, (dict, list)) else inp


def rket(r, inp='own', coef=False):
    """state of the system for its own or another input"""
    inp = r.state if isinstance(inp, str) else inp
    if isinstance(inp, np.ndarray):
        if inp.shape[0] != r.dim:
            raise NoState()
        return inp
    if r.subs:
        if inp is None:
            return product([rket(s) for s in r.subs])
        return product([rket(s, i) for s, i in zip(r.subs, inp)])
    if r._dim is None or inp is None or largest(inp) >= r.dim:
        raise NoState()
    return ket(r.dim, inp, r.name in COEF)


def product(parts):
    """of kets, or of density matrices if any of them is one"""
    if any(p.shape[1] > 1 for p in parts):
        parts = [p if p.shape[1] > 1 else p @ p.conj().T for p in parts]
    return kron(*parts)


COEF = set()


def read(w, n):
    """compare the state, or check that there is none"""
    try:
        want = rket(w.r[n])
    except NoState:
        want = None
    check(lambda: w.i[n].initialState, want, n)


def check(func, want, n):
    if want is None:
        try:
            got = func()
        except Exception:
            return
        if got is not None:
            raise Violation(f'{n}.initialState: {got!r}, but there is no state')
    else:
        same(func(), want, f'{n}.initialState')


def pread(w, name):
    n = name
    r = w.psys[n]
    while n not in w.own and n in w.up:   # a step uses the state of its protocol
        n = w.up[n]
    try:
        want = rket(r) if n not in w.own else rket(r, w.own[n])
    except NoState:
        want = None
    check(lambda: w.pi[name].initialState, want, name)


def fit(r, inp):
    """the input can be set: it fits in the current dimension"""
    if isinstance(inp, np.ndarray):
        return inp.shape[0] == r.dim
    if r.subs:
        return isinstance(inp, list) and len(inp) == len(r.subs) and all(fit(s, i) for s, i in zip(r.subs, inp))
    return not (isinstance(inp, list) and any(isinstance(i, list) for i in inp)) and largest(inp) < r.dim


def assign(r, inp):
    if isinstance(inp, np.ndarray):
        r.state = inp
        return
    if r.subs:
        r.state = None
        for s, i in zip(r.subs, inp):
            assign(s, i)
    else:
        r.state = inp


def s_state(name, inp, via='initialState'):
    def op(w):
        r = w.r[name]
        if (r.subs and not isinstance(inp, (np.ndarray, list))) or not fit(r, inp):
            raise Disabled()
        if r._dim is None and not r.subs:
            raise Disabled()
        w.i[name].initialState = inp
        assign(r, inp)
    return (f'{name}.initialState={inp if not isinstance(inp, np.ndarray) else "%dx%d" % inp.shape}', op)


def vecs(n):
    v = (np.arange(1, n + 1) - 0.3j * np.arange(n)).reshape(-1, 1)
    return v / np.linalg.norm(v)


def rhos(n):
    """density matrix of a mixed state"""
    k = np.arange(1, n + 1)
    m = np.exp(0.4j * k).reshape(-1, 1)
    out = 0.6 * np.diag(k) / np.sum(k) + 0.4 * (m @ m.conj().T) / n
    return out


def has_vec(r):
    return any(isinstance(x.state, np.ndarray) for x in r.nested() if x.subs)


def s_dim(name, val):
    def op(w):
        r = w.r[name]
        s = r
        while s is not None:   # a full state vector cannot be converted
            if isinstance(s.state, np.ndarray):
                raise Disabled()
            s = s.sup
        for p, inp in w.own.items():
            if isinstance(inp, np.ndarray):
                raise Disabled()
        w.i[name].dimension = val
        r.dim = val
    return (f'{name}.dimension={val}', op)


def novec(op):
    """structural changes of a composite with a full state vector are not defined"""
    def new(w):
        if any(has_vec(r) for r in w.r.values() if r._dim is None) or w.own:
            raise Disabled()
        op[1](w)
    return (op[0], new)


def s_read(name):
    return (f'read {name}', lambda w: read(w, name) if name in w.i else pread(w, name))


def s_pstate(name, inp):
    def op(w):
        r = w.psys[name]
        if not fit(r, inp):
            raise Disabled()
        w.pi[name].initialState = inp
        w.own[name] = inp
    return (f'{name}.initialState={inp if not isinstance(inp, np.ndarray) else "%dx%d" % inp.shape}', op)


def s_step(name):
    """a time parameter does not matter for the state"""
    def op(w):
        obj = w.i.get(name) or w.pi[name]
        getattr(obj, 'simulation', obj).stepSize = 0.1
    return (f'{name}.stepSize', op)


def final(order):
    def chk(w):
        for _ in range(2):
            for n in order:
                if n in w.i:
                    read(w, n)
                else:
                    pread(w, n)
    return chk


def state(w):
    return ([r.key() for r in w.r.values() if r.sup is None],
            [(n, i if not isinstance(i, np.ndarray) else i.shape) for n, i in w.own.items()])


def b_leaf(cls, dim, coef=False):
    def build():
        COEF.clear()
        w = SWorld()
        leaf(w, 'a', cls, dim, 1.0, 'Jz' if cls is qg.Spin else 'number')
        if coef:
            w.i['a']._inpCoef = True
            COEF.add('a')
        w.pi['P'] = qg.freeEvolution(system=w.i['a'])
        w.psys['P'] = w.r['a']
        return w
    return build


def b_pair(plus=True):
    def build():
        COEF.clear()
        w = SWorld()
        a = leaf(w, 'a', qg.Qubit, 2, 1.0, 'Jz')
        b = leaf(w, 'b', qg.Cavity, 3, 2.0, 'number')
        leaf(w, 'd', qg.Spin, 2, 2.0, 'Jz')
        a.initialState = 1
        w.r['a'].state = 1
        b.initialState = 2
        w.r['b'].state = 2
        w.i['c'] = a + b if plus else qg.QuantumSystem(subSys=[a, b])
        w.r['c'] = RSys('c', None, [w.r['a'], w.r['b']])
        w.pi['P'] = qg.freeEvolution(system=w.i['c'])
        w.psys['P'] = w.r['c']
        w.pi['Q'] = qg.qProtocol(system=w.i['c'], steps=[w.pi['P']])
        w.psys['Q'] = w.r['c']
        w.up['P'] = 'Q'
        return w
    return build


def b_nested():
    COEF.clear()
    w = SWorld()
    for n, c, d in (('a', qg.Qubit, 2), ('b', qg.Cavity, 3), ('d', qg.Spin, 2), ('e', qg.Cavity, 2)):
        leaf(w, n, c, d, 1.0, 'number' if c is qg.Cavity else 'Jz')
        w.i[n].initialState = 0
        w.r[n].state = 0
    w.i['c'] = qg.QuantumSystem(subSys=[w.i['a'], w.i['b']])
    w.i['o'] = qg.QuantumSystem()
    w.i['o'].addSubSys(w.i['d'])
    w.i['o'].addSubSys(w.i['c'])
    w.r['c'] = RSys('c', None, [w.r['a'], w.r['b']])
    w.r['o'] = RSys('o', None, [w.r['d'], w.r['c']])
    w.pi['P'] = qg.freeEvolution(system=w.i['o'])
    w.psys['P'] = w.r['o']
    return w


def b_unset():
    COEF.clear()
    w = SWorld()
    a = leaf(w, 'a', qg.Spin, 3, 1.0, 'Jz')
    b = leaf(w, 'b', qg.Cavity, 2, 2.0, 'number')
    d = leaf(w, 'd', qg.Qubit, 2, 2.0, 'Jz')
    w.i['c'] = qg.QuantumSystem()
    w.r['c'] = RSys('c', None, [])
    w.i['o'] = qg.QuantumSystem()
    w.r['o'] = RSys('o', None, [])
    assert a and b and d
    return w


def b_insim(nested, leaves):
    """the systems are in an explicit simulation"""
    def build():
        COEF.clear()
        w = SWorld()
        for n, cls, d, st in (('a', qg.Qubit, 2, 0), ('b', qg.Cavity, 3, 2), ('d', qg.Spin, 2, 1), ('e', qg.Cavity, 3, 0)):
            leaf(w, n, cls, d, 1.0, 'number' if cls is qg.Cavity else 'Jz')
            w.i[n].initialState = st
            w.r[n].state = st
        w.i['c'] = qg.QuantumSystem(subSys=[w.i['a'], w.i['b']])
        w.r['c'] = RSys('c', None, [w.r['a'], w.r['b']])
        top = 'c'
        if nested:
            w.i['o'] = qg.QuantumSystem(subSys=[w.i['c'], w.i['d']])
            w.r['o'] = RSys('o', None, [w.r['c'], w.r['d']])
            top = 'o'
        w.pi['P'] = qg.freeEvolution(system=w.i[top])
        w.psys['P'] = w.r[top]
        w.i['S'] = qg.Simulation(subSys=w.i[top], totalTime=1.0, stepSize=0.5)
        w.i['S'].addSubSys(w.i[top], w.pi['P'])
        for n in leaves:
            w.i['S'].addSubSys(w.i[n])
        return w
    return build


def s_run(top):
    """the states of a run start from the initial states"""
    def op(w):
        try:
            wants = [(w.i[top].name, rket(w.r[top])), (w.pi['P'].name, rket(w.r[top], w.own.get('P', 'own')))]
        except NoState:
            raise Disabled()
        w.i['S'].run()
        for name, want in wants:
            same(w.i['S'].states[name + 'Results'][0], want, f'first state of {name}')
    return ('S.run()', op)


# ---------------------------------------------------------------- values of the inputs
def column(*v):
    v = np.array(v, complex).reshape(-1, 1)
    return v / np.linalg.norm(v)


INPUTS = [0, 1, 3, np.int64(2), np.int32(1), [0], [0, 1], [1, 0], [3, 1, 0], [np.int64(2), 0], {0: 1}, {3: 0.25},
          {0: 0.5, 1: 0.5}, {1: 0.3, 0: 0.7}, {0: 0.7, 1: 0.3}, {0: 0.7 + 1e-8, 1: 0.3 - 1e-8}, {2: 3, 0: 1, 1: 2},
          {0: 1, 1: 0}, {np.int64(1): np.float64(0.3), 2: 0.7}, column(1, 1j, 0, 0), column(1, 1j, 0, 1e-8),
          column(1, 0, 0, -1), sp.csc_matrix(column(1, 0, 0, -1)), sp.csr_matrix(column(0, 1, 2, 3j)),
          rhos(4), sp.csc_matrix(rhos(4).conj()), sp.csr_matrix(np.diag([0.5, 0, 0.5 - 1e-8, 1e-8]))]
AMPS = [0, 2, [0, 1], {0: 1}, {0: 1j}, {0: -1, 1: 1}, {0: 1, 1: -1}, {0: 0.6, 1: 0.8}, {0: 0.6, 1: 0.8j}, {0: 0.6 + 1e-9, 1: 0.8j},
        {3: 0.6j, 1: np.complex128(0.8)}, {2: 1 + 1j, 1: 1 - 1j}]


def show(inp):
    return f'{dense(inp).ravel()}' if hasattr(inp, 'shape') and inp.shape else repr(inp)


def check_inputs(case):
    where, inps, reads = case
    COEF.clear()
    w = SWorld()
    leaf(w, 'a', qg.Cavity, 4, 1.0, 'number')
    leaf(w, 'b', qg.Qubit, 2, 1.0, 'Jz')
    w.i['b'].initialState = 1
    w.r['b'].state = 1
    if where == 'amplitudes':
        w.i['a']._inpCoef = True
        COEF.add('a')
    w.i['c'] = w.i['b'] + w.i['a']
    w.r['c'] = RSys('c', None, [w.r['b'], w.r['a']])
    w.pi['P'] = qg.freeEvolution(system=w.i['a'])
    w.psys['P'] = w.r['a']
    w.i['S'] = qg.Simulation(subSys=w.i['a'])
    for inp in inps:
        val = dense(inp) if hasattr(inp, 'shape') and inp.shape else inp
        if where == 'list':
            w.i['c'].initialState = [0, inp]
            w.r['b'].state = 0
        elif where == 'protocol':
            w.pi['P'].initialState = inp
            w.own['P'] = val
        else:
            w.i['a'].initialState = inp
        if where != 'protocol':
            w.r['a'].state = val
        for n in reads:
            what = f'{n}.initialState after the inputs {[show(i) for i in inps]} ({where})'
            if n in w.pi:
                want = rket(w.r['a'], w.own.get(n, 'own'))
                got = w.pi[n].initialState
            else:
                want, got = rket(w.r[n]), w.i[n].initialState
            if not np.max(np.abs(dense(got) - want)) < 2e-12:
                raise Violation(f'{what}: {dense(got).ravel()}, expected {want.ravel()}')


def input_cases(length):
    out = []
    for where, inps, reads in (('system', INPUTS, 'acP'), ('system', INPUTS, 'ca'), ('protocol', INPUTS, 'P'), ('amplitudes', AMPS, 'acP'),
                               ('list', [i for i in INPUTS if not isinstance(i, (np.ndarray, sp.spmatrix))], 'caP')):
        out += [(where, x, reads) for x in itertools.product(inps, repeat=length)]
    return out


def no_double(labels):
    return any(a == b for a, b in zip(labels, labels[1:]))


def components(tier):
    k = 1 if tier == 'thorough' else 0
    single = [s_state('a', rhos(3)), s_pstate('P', rhos(4)), s_state('a', 0), s_state('a', 2), s_state('a', [0, 2]), s_state('a', {0: 0.2, 1: 0.8}),
              s_state('a', {1: 1, 2: 3}), s_state('a', vecs(3)), s_state('a', vecs(4)), s_dim('a', 2), s_dim('a', 4),
              s_dim('a', 3), s_read('a'), s_read('P'), s_pstate('P', 1), s_pstate('P', [1, 2]), s_step('P'), s_step('a')]
    coef = [s_state('a', {0: 0.6, 1: 0.8j}), s_state('a', {2: 1, 0: -1}), s_state('a', 1), s_dim('a', 2), s_dim('a', 4),
            s_dim('a', 3), s_read('a'), s_read('P'), s_pstate('P', {1: 1j, 0: 1})]
    pair = [s_state('a', rhos(2)), s_state('c', rhos(6)), s_state('c', [rhos(2), 1]), s_state('a', 0), s_state('b', [0, 1]), s_state('c', [0, 1]), s_state('c', [[0, 1], {0: 1, 2: 2}]),
            s_state('c', vecs(6)), s_dim('b', 2), s_dim('b', 4), novec(s_add('c', 'd')), novec(s_rem('c', 'a')),
            s_state('d', 1), s_read('c'), s_read('b'), s_read('Q'), s_pstate('P', [1, 1]), s_pstate('Q', [0, 2]),
            s_state('c', [1, 0, 1]), s_freq('a', 2), s_step('P')]
    nested = [s_state('b', rhos(3)), s_state('c', rhos(6)), s_state('a', 1), s_state('d', [0, 1]), s_state('c', [1, 2]), s_state('c', vecs(6)),
              s_state('o', [1, [0, 1]]), s_state('o', vecs(12)), s_dim('b', 2), s_dim('b', 4),
              novec(s_rem('o', 'c')), novec(s_add('o', 'e')), novec(s_add('c', 'e')), novec(s_rem('o', 'a')),
              s_state('e', 1), s_read('o'), s_read('c'), s_read('b'), s_read('P')]
    unset = [s_state('a', 1), s_state('b', 1), s_state('d', 0), novec(s_add('c', 'a')), novec(s_add('c', 'b')),
             novec(s_add('o', 'c')), novec(s_add('o', 'd')), s_state('c', [2, 0]), s_state('c', [0]), s_read('c'),
             s_read('o'), s_read('a'), s_dim('a', 2), s_state('o', [[1, 1], 1])]
    insim = [s_state('b', rhos(3)), s_state('a', 1), s_state('b', [0, 1]), s_state('c', [0, 1]), s_state('c', vecs(6)), s_dim('b', 2), s_dim('b', 4),
             novec(s_rem('c', 'b')), novec(s_rem('c', 'a')), novec(s_add('c', 'd')), novec(s_add('c', 'e')), s_state('e', 1), s_read('c'),
             s_read('a'), s_read('P'), s_pstate('P', [1, 1]), s_step('S'), s_run('c')]
    innest = [s_state('d', rhos(2)), s_state('a', 1), s_state('o', [[1, 0], 0]), s_dim('b', 2), novec(s_rem('c', 'b')), novec(s_rem('o', 'c')),
              novec(s_rem('o', 'd')), novec(s_add('c', 'e')), novec(s_add('o', 'e')), s_state('e', 1), s_state('d', [0, 1]),
              s_read('o'), s_read('c'), s_read('P'), s_step('S')]
    return [
        Histories('in a simulation', b_insim(False, ''), insim, final('cPabde'), 3 + k, state, no_double),
        Histories('parts in a simulation', b_insim(False, 'ab'), insim[:-1], final('Pcabde'), 3 + k, state, no_double),
        Histories('nested, in a simulation', b_insim(True, 'c'), innest, final('oPcabde'), 3 + k, state, no_double),
        Cases('values', input_cases(2), check_inputs, 40),
        Histories('single system', b_leaf(qg.Cavity, 3), single, final('aP'), 3 + k, state, no_double),
        Histories('amplitudes', b_leaf(qg.Spin, 3, True), coef, final('Pa'), 4 + k, state, no_double),
        Histories('pair', b_pair(), pair, final('cabPQd'), 3 + k, state, no_double),
        Histories('pair, protocols first', b_pair(False), pair, final('QPabcd'), 3 + k, state, no_double),
        Histories('nested', b_nested, nested, final('oPcabde'), 3 + k, state, no_double),
        Histories('from nothing', b_unset, unset, final('abdco'), 4 + k, state, no_double),
    ]
