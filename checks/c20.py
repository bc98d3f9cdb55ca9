"""C20: open-system simulations follow the master equation with the current dissipators."""
import math
import numpy as np
import quanguru as qg
from mc.core import Histories, Cases, Disabled
from mc.ref import RSys, OPS, expm, liouvillian, uexp, vec, unvec
from mc.util import same, equal, close, OPF, dense
from .c01 import World, leaf, coupling, s_freq, s_new, s_del, s_oper
from .c02 import s_add, s_rem
from .c03 import RGate, PAU, JS
from .c04 import rket, rhos, product

PROPERTY = 'C20'
LEVEL = 'model_checking'
ASSUMPTIONS = ['operators of dissipators have the dimension of their system, types of dissipators do not change',
               'operators of single steps of an open protocol are not compared (they depend on the protocol)',
               'samples of the steps only for the steps of the protocol that is run']


def nbar(freq, temp):
    return 0.0 if temp == 0 else 1 / (math.exp(freq / temp) - 1)


class RBath:
    def __init__(self, temp=0, freq=1):
        self.temp, self.freq = temp, freq

    def key(self):
        return (self.temp, self.freq)


class RDiss:
    def __init__(self, sys, op, rate, typ=1, bath=None):
        self.sys, self.op, self.rate, self.typ, self.bath = sys, op, rate, typ, bath or RBath()

    def value(self):
        return self.rate * (nbar(self.bath.freq, self.bath.temp) + self.typ)

    def matrix(self):
        return self.sys.embed(OPS[self.op](self.sys.dim))

    def key(self):
        return (self.sys.name, self.op, self.rate, self.typ, self.bath.key())


class OStep:
    """matrix(w, dissipators of the protocols it is in), or the unitary of a closed system for None"""
    def __init__(self):
        self.diss = []

    def open(self):
        return bool(self.diss)

    def key(self):
        return (type(self).__name__, [d.key() for d in self.diss], self.more())


class OFree(OStep):
    def __init__(self, sys):
        super().__init__()
        self.sys, self.ratio, self.samples = sys, 1, 1

    def matrix(self, w, diss):
        dt = w.dt * self.ratio / self.samples
        if diss is None:
            return uexp(self.sys.hamiltonian(), dt)
        diss = diss + self.diss
        return expm(liouvillian(self.sys.hamiltonian(), [d.matrix() for d in diss], [d.value() for d in diss])
                    * dt)

    def more(self):
        return (self.sys.name, self.ratio, self.samples)


class OGate(OStep):
    def __init__(self, gate, hc=False):
        super().__init__()
        self.gate, self.hc = gate, hc

    def matrix(self, w, diss):
        u = self.gate.matrix(w)
        if self.hc:
            u = u.conj().T
        return u if diss is None else np.kron(u.conj(), u)

    def more(self):
        return (self.gate.key(), self.hc)


class OPro(OStep):
    def __init__(self, sys, steps=()):
        super().__init__()
        self.sys, self.steps = sys, list(steps)

    def matrix(self, w, diss):
        diss = None if diss is None else diss + self.diss
        out = np.eye(self.sys.root.dim ** (1 if diss is None else 2), dtype=complex)
        for s in self.steps:
            out = s.matrix(w, diss) @ out
        return out

    def open(self):
        return bool(self.diss) or any(s.open() for s in self.steps)

    def more(self):
        return (self.sys.name, [s.key() for s in self.steps])


class OWorld(World):
    def __init__(self):
        super().__init__()
        self.dt = 0.5
        self.di, self.dr = {}, {}      # dissipators
        self.bi, self.br = {}, {}      # baths
        self.pi, self.pr = {}, {}      # protocols
        self.S = None
        self.entries = []


def add_diss(w, name, sys, op, rate, typ=1, attrs=False):
    dim = w.r[sys].dim
    if attrs:
        d = qg.dissipatorObj()
        d.system = w.i[sys]
        d.jRate = rate
        d.jOper = dense(OPF[op](dim))
        d.type = typ
    else:
        d = qg.dissipatorObj(system=w.i[sys], jOper=OPF[op](dim), jRate=rate, **({} if typ == 1 else {'type': typ}))
    w.di[name], w.dr[name] = d, RDiss(w.r[sys], op, rate, typ)
    # every system has its own free evolution that includes its dissipators
    if 'F' + sys not in w.pi:
        own(w, sys)
    w.pr['F' + sys].diss.append(w.dr[name])


def own(w, sys):
    w.pi['F' + sys], w.pr['F' + sys] = w.i[sys]._freeEvol, OFree(w.r[sys])


# ---------------------------------------------------------------- operations
def d_new(name, sys, op, rate, typ=1, attrs=False):
    def f(w):
        if name in w.di:
            raise Disabled()
        add_diss(w, name, sys, op, rate, typ, attrs)
    return (f'{name}=dissipator({sys},{op},{rate},{typ})', f)


def d_to(name, pro):
    def f(w):
        if name not in w.di or w.dr[name] in w.pr[pro].diss:
            raise Disabled()
        w.di[name].addToProtocol(w.pi[pro])
        w.pr[pro].diss.append(w.dr[name])
    return (f'{name}.addToProtocol({pro})', f)


def d_again(name, pro):
    """adding a second time changes nothing"""
    def f(w):
        if name not in w.di or w.dr[name] not in w.pr[pro].diss:
            raise Disabled()
        w.di[name].addToProtocol(w.pi[pro])
    return (f'{name}.addToProtocol({pro}) again', f)


def d_set(name, attr, val):
    def f(w):
        if name not in w.di:
            raise Disabled()
        d, r = w.di[name], w.dr[name]
        if attr == 'op':
            d.jOper = OPF[val](r.sys.dim)
            r.op = val
        elif attr == 'rate':
            d.jRate = val
            r.rate = val
        else:
            d.temperature = val
            r.bath.temp = val
    return (f'{name}.{attr}={val}', f)


def b_set(name, attr, val):
    def f(w):
        setattr(w.bi[name], {'temp': 'temperature', 'freq': 'charFreq'}[attr], val)
        setattr(w.br[name], attr, val)
    return (f'{name}.{attr}={val}', f)


def b_attach(name, diss):
    def f(w):
        if diss not in w.di or w.dr[diss].bath is w.br[name]:
            raise Disabled()
        w.bi[name].dissipator = w.di[diss]
        w.dr[diss].bath = w.br[name]
    return (f'{name}.dissipator={diss}', f)


def p_read(name):
    def f(w):
        r = w.pr[name]
        want = r.matrix(w, [])
        if not r.open():
            raise Disabled()
        same(w.pi[name].unitary(), want, f'{name}.unitary (read)')
    return (f'read {name}', f)


def p_touch(name):
    def f(w):
        w.pi[name].unitary()
    return (f'read {name} (not compared)', f)


def p_set(name, attr, val):
    def f(w):
        r = w.pr[name].gate if isinstance(w.pr[name], OGate) else w.pr[name]
        setattr(w.pi[name], attr, val)
        setattr(r, {'implementation': 'impl'}.get(attr, attr), val)
    return (f'{name}.{attr}={val}', f)


def p_step(pro, step, most=3):
    def f(w):
        if len(w.pr[pro].steps) >= most:
            raise Disabled()
        w.pi[pro].addStep(w.pi[step])
        w.pr[pro].steps.append(w.pr[step])
    return (f'{pro}.addStep({step})', f)


def d_read(name):
    def f(w):
        if name not in w.di:
            raise Disabled()
        close(w.di[name].jRate, w.dr[name].value(), f'{name}.jRate')
        same(w.di[name].jOperMatrix, w.dr[name].matrix(), f'{name}.jOperMatrix')
    return (f'read {name}', f)


def s_dt(name, val):
    def f(w):
        w.i[name].simulation.stepSize = val
        w.dt = val
    return (f'{name}.stepSize={val}', f)


def s_state(name, val):
    def f(w):
        w.i[name].initialState = val
        w.r[name].state = val
    return (f'{name}.initialState={val}', f)


def evolve(w, sysn, pro, n):
    k = rket(w.r[sysn])
    r = w.pr[pro]
    diss = [] if r.open() else None
    m = r.matrix(w, diss)
    if isinstance(r, OPro) and any(getattr(s, 'samples', 1) > 1 for s in r.steps):
        m = np.eye(len(m))
        for s in r.steps:
            for _ in range(getattr(s, 'samples', 1)):
                m = s.matrix(w, r.diss if r.open() else None) @ m
    out = [k @ k.conj().T if r.open() else k]
    for _ in range(n):
        out.append(unvec(m @ vec(out[-1])) if r.open() else m @ out[-1])
    return out


def run(w, label):
    w.S.stepSize = w.dt
    n = 3
    w.S.totalTime = w.dt * 2
    w.S.run()
    states = w.S.states
    for sysn, pro in w.entries:
        key = (w.i[sysn].name if pro == 'F' + sysn else w.pi[pro].name) + 'Results'
        got, want = states[key], evolve(w, sysn, pro, n)
        equal(len(got), n + 1, f'{label}: number of states of {pro}')
        for k, (a, b) in enumerate(zip(got, want)):
            if not w.pr[pro].open() and dense(a).shape[1] > 1:   # shares steps with open protocols
                b = b @ b.conj().T
            same(a, b, f'{label}: state {k} of {pro}')
            if w.pr[pro].open():
                a = dense(a)
                close(np.trace(a), 1, f'{label}: trace of the state {k} of {pro}')
                same(a, a.conj().T, f'{label}: Hermitian conjugate of the state {k} of {pro}')
                if not np.min(np.linalg.eigvalsh(a)) > -1e-9:
                    equal(np.min(np.linalg.eigvalsh(a)), 0, f'{label}: eigenvalue of the state {k} of {pro}')


def s_run():
    return ('run', lambda w: run(w, 'run'))


def final(w):
    run(w, 'final run')
    for n in w.di:
        d_read(n)[1](w)
    for n in w.pi:
        if w.pr[n].open() and n in w.tops:
            same(w.pi[n].unitary(), w.pr[n].matrix(w, []), f'{n}.unitary')
    run(w, 'second final run')


def state(w):
    return ([r.key() for r in w.r.values() if r.sup is None], [(n, d.key()) for n, d in w.dr.items()],
            [(n, p.key()) for n, p in w.pr.items()], [(n, b.key(), [d for d in w.dr if w.dr[d].bath is b]) for n, b in w.br.items()], w.dt)


def no_double(labels):
    return any(a == b and (a.startswith('read') or a == 'run') for a, b in zip(labels, labels[1:]))


# ---------------------------------------------------------------- worlds
def entry(w, sysn, pro):
    w.entries.append((sysn, pro))
    w.tops = {p for _, p in w.entries}
    if pro == 'F' + sysn:
        w.S.addSubSys(w.i[sysn])
    else:
        w.S.addProtocol(protocol=w.pi[pro], system=w.i[sysn])


def pro(w, name, sys, steps):
    w.pi[name] = qg.qProtocol(system=w.i[sys])
    w.pr[name] = OPro(w.r[sys])
    for s in steps:
        hc = s.endswith('.hc')
        s = s[:-3] if hc else s
        w.pi[name].addStep(w.pi[s].hc if hc else w.pi[s])
        w.pr[name].steps.append(OGate(w.pr[s].gate, True) if hc else w.pr[s])


def gate(w, name, systems, axis, angle, cls=qg.SpinRotation, impl=None):
    g = cls(angle=angle, **({} if cls is qg.xGate else {'rotationAxis': axis}))
    for s in systems:
        g.addSubSys(w.i[s])
    r = RGate([w.r[s] for s in systems], axis, angle)
    if impl is not None:
        g.implementation = impl
        r.impl = impl
    w.pi[name], w.pr[name] = g, OGate(r)


def free(w, name, sys):
    w.pi[name], w.pr[name] = qg.freeEvolution(system=w.i[sys]), OFree(w.r[sys])


def b_single():
    w = OWorld()
    leaf(w, 'a', qg.Cavity, 3, 1.0, 'number')
    s_state('a', 1)[1](w)
    w.bi['B'], w.br['B'] = qg.thermalBath(temperature=1.5, charFreq=0.5), RBath(1.5, 0.5)
    own(w, 'a')
    w.S = qg.Simulation()
    w.S.stepSize = w.dt
    entry(w, 'a', 'Fa')
    return w


def b_baths():
    """two systems that are coupled to the same environment"""
    w = OWorld()
    leaf(w, 'a', qg.Cavity, 3, 1.0, 'number')
    leaf(w, 'b', qg.Qubit, 2, 0.5, 'Jz')
    for n, v in (('a', 1), ('b', [0, 1])):
        s_state(n, v)[1](w)
        own(w, n)
    w.bi['B'], w.br['B'] = qg.thermalBath(temperature=1.5, charFreq=0.5), RBath(1.5, 0.5)
    w.bi['A'], w.br['A'] = qg.thermalBath(), RBath()
    w.S = qg.Simulation()
    w.S.stepSize = w.dt
    for n in 'ab':
        entry(w, n, 'F' + n)
    add_diss(w, 'x', 'a', 'destroy', 0.2)
    add_diss(w, 'y', 'b', 'sigmam', 0.1)
    add_diss(w, 'z', 'b', 'sigmap', 0.15, 0)
    for d in 'xy':
        b_attach('B', d)[1](w)
    return w


def b_comp():
    w = OWorld()
    a = leaf(w, 'a', qg.Qubit, 2, 1.0, 'Jz')
    b = leaf(w, 'b', qg.Cavity, 2, 2.0, 'number')
    leaf(w, 'd', qg.Qubit, 2, 0.5, 'Jz')
    w.i['c'] = a + b
    w.r['c'] = RSys('c', None, [w.r['a'], w.r['b']])
    coupling(w, 'h', 'c', ['a', 'b'], ['sigmax', 'number'], 0.3)
    for n, v in (('a', 0), ('b', 1), ('d', [0, 1])):
        s_state(n, v)[1](w)
    own(w, 'c')
    w.S = qg.Simulation()
    w.S.stepSize = w.dt
    entry(w, 'c', 'Fc')
    add_diss(w, 'x', 'b', 'destroy', 0.2)
    d_to('x', 'Fc')[1](w)
    return w


def b_pro():
    """a protocol with a free evolution and gates"""
    w = OWorld()
    leaf(w, 'a', qg.Qubit, 2, 1.0, 'Jz')
    s_state('a', [0, 1])[1](w)
    free(w, 'F', 'a')
    gate(w, 'X', ['a'], 'x', 0.7)
    pro(w, 'P', 'a', ['F', 'X'])
    w.S = qg.Simulation()
    w.S.stepSize = w.dt
    entry(w, 'a', 'P')
    return w


def b_inside():
    """dissipators of the protocol and of its step, the same free evolution twice, and a conjugate of a gate"""
    w = OWorld()
    leaf(w, 'a', qg.Qubit, 2, 1.0, 'Jz')
    s_state('a', [0, 1])[1](w)
    free(w, 'F', 'a')
    gate(w, 'X', ['a'], 'x', 0.7, qg.xGate, 'instant')
    pro(w, 'P', 'a', ['F', 'X', 'F', 'X.hc'])
    w.S = qg.Simulation()
    w.S.stepSize = w.dt
    entry(w, 'a', 'P')
    add_diss(w, 'x', 'a', 'sigmam', 0.2)
    add_diss(w, 'y', 'a', 'sigmaz', 0.1)
    d_to('x', 'P')[1](w)
    return w


def b_nested():
    """a protocol inside of another one, in a composite system, next to a closed one"""
    w = OWorld()
    a = leaf(w, 'a', qg.Qubit, 2, 1.0, 'Jz')
    b = leaf(w, 'b', qg.Cavity, 2, 2.0, 'number')
    w.i['c'] = a + b
    w.r['c'] = RSys('c', None, [w.r['a'], w.r['b']])
    coupling(w, 'h', 'c', ['a', 'b'], ['sigmax', 'number'], 0.3)
    for n, v in (('a', [0, 1]), ('b', 1)):
        s_state(n, v)[1](w)
    for n in 'FGH':
        free(w, n, 'c')
    gate(w, 'X', ['a', 'b'], 'y', 0.4)
    gate(w, 'Y', ['a'], 'y', 0.4)
    pro(w, 'P', 'c', ['F', 'X'])
    pro(w, 'R', 'c', ['P', 'G'])
    pro(w, 'Q', 'c', ['H', 'Y'])
    w.S = qg.Simulation()
    w.S.stepSize = w.dt
    entry(w, 'c', 'R')
    entry(w, 'c', 'Q')
    add_diss(w, 'x', 'b', 'destroy', 0.2)
    add_diss(w, 'y', 'a', 'sigmam', 0.1)
    return w


def p_samples(name, val):
    def f(w):
        w.pi[name].simulation.samples = val
        w.pr[name].samples = val
    return (f'{name}.samples={val}', f)


def b_share():
    """a free evolution that is shared by two protocols with different dissipators, and by a closed one"""
    w = OWorld()
    leaf(w, 'a', qg.Qubit, 2, 1.0, 'Jz')
    s_state('a', [0, 1])[1](w)
    free(w, 'F', 'a')
    gate(w, 'X', ['a'], 'x', 0.7)
    pro(w, 'P', 'a', ['F', 'X'])
    pro(w, 'Q', 'a', ['X', 'F'])
    w.S = qg.Simulation()
    w.S.stepSize = w.dt
    entry(w, 'a', 'P')
    entry(w, 'a', 'Q')
    add_diss(w, 'x', 'a', 'sigmam', 0.2)
    add_diss(w, 'y', 'a', 'sigmaz', 0.1)
    d_to('x', 'P')[1](w)
    return w


KEYS = {'rate': [0.1, 0.4, 0.2], 'temp': [0.0, 1.5], 'bath': [0.5, 2.0], 'freq': [2.0, 1.0], 'angle': [0.3, 0.9],
        'dt': [0.5, 0.25]}


def sweeps_domain():
    keys = list(KEYS)
    out = [(k, l, comb, multi) for k in keys for l in [None] + keys if l != k for comb in (False, True)
           for multi in (False, True) if not (l is None and comb)]
    return [c for c in out if c[1] is None or c[2] or len(KEYS[c[0]]) == len(KEYS[c[1]])]


def c_sweep(case):
    """sweeps over rates, temperatures and other parameters of open systems"""
    k1, k2, comb, twice = case
    w = b_inside()
    w.bi['B'], w.br['B'] = qg.thermalBath(temperature=1.0), RBath(1.0, 1)
    w.bi['B'].dissipator = w.di['y']
    w.dr['y'].bath = w.br['B']
    w.S.totalTime, w.S.stepSize = 0.5, 0.5
    got = []
    w.S.compute = lambda sim, states: got.append(dense(states[0]))
    obj = {'rate': (w.di['x'], 'jRate'), 'temp': (w.di['x'], 'temperature'), 'bath': (w.bi['B'], 'temperature'),
           'freq': (w.i['a'], 'frequency'), 'angle': (w.pi['X'], 'angle'), 'dt': (w.S, 'stepSize')}
    ref = {'rate': (w.dr['x'], 'rate'), 'temp': (w.dr['x'].bath, 'temp'), 'bath': (w.br['B'], 'temp'),
           'freq': (w.tr['a'][1], 'freq'), 'angle': (w.pr['X'].gate, 'angle'), 'dt': (w, 'dt')}
    for n, k in enumerate((k1, k2)):
        if k is not None:
            w.S.Sweep.createSweep(system=obj[k][0], sweepKey=obj[k][1], sweepList=KEYS[k],
                                  **({'combinatorial': True} if n and comb else {}))
    if k2 is None:
        points = [((k1, v),) for v in KEYS[k1]]
    elif comb:
        points = [((k1, u), (k2, v)) for u in KEYS[k1] for v in KEYS[k2]]
    else:
        points = [((k1, u), (k2, v)) for u, v in zip(KEYS[k1], KEYS[k2])]
    for rnd in range(2 if twice else 1):
        got.clear()
        w.S.run()
        want = []
        for p in points:
            for k, v in p:
                setattr(*ref[k], v)
            n = int(0.5 // w.dt + 1)
            want += evolve(w, 'a', 'P', n)
        equal(len(got), len(want), f'number of states of the run {rnd}')
        for k, (a, b) in enumerate(zip(got, want)):
            same(a, b, f'state {k} of the run {rnd}')


# ---------------------------------------------------------------- kinds
LAYOUTS = {'alone': 'b', 'first': 'ba', 'middle': 'abd', 'last': 'ab'}
JUMPS = {'destroy': lambda n: OPS['destroy'](n), 'complex': lambda n: OPS['destroy'](n) + 0.7j * OPS['number'](n),
         'hermitian': lambda n: 1j * (OPS['create'](n) - OPS['destroy'](n))}


def kinds_domain():
    out = [(lay, jump, where, state, dep, then) for lay in LAYOUTS for jump in JUMPS for where in ('own', 'P', 'F')
           for state in ('ket', 'part', 'full') for dep in ('', 'term', 'rates') for then in ('rates', 'operator', 'dimension')]
    return [c for c in out if c[1] == 'complex' or c[5] == 'rates']


def c_kind(case):
    """kinds of operators, initial states, time dependencies and positions in a composite system"""
    lay, jump, where, state, dep, then = case
    names = LAYOUTS[lay]
    dims, freqs = {'a': 2, 'b': 3, 'd': 2}, {'a': 1.0, 'b': 1.5, 'd': 0.5}
    objs = {n: qg.Cavity(dimension=dims[n], frequency=freqs[n]) if n == 'b' else qg.Qubit(frequency=freqs[n]) for n in names}
    sub = {'a': np.array([[1], [1]]) / np.sqrt(2), 'b': np.array([[0], [1], [0]]), 'd': np.array([[0], [1]])}
    if lay == 'alone':
        s = objs['b']
    else:
        s = qg.QuantumSystem()
        for n in names:
            s.addSubSys(objs[n])
        s.createTerm(operator=[qg.sigmax, qg.number], frequency=0.3, qSystem=[objs['a'], objs['b']])
    f = qg.freeEvolution(system=s)
    x = qg.SpinRotation(system=objs['a'], angle=0.7, rotationAxis='x') if 'a' in objs else qg.freeEvolution(system=s, ratio=0.5)
    p = qg.qProtocol(system=s, steps=[x, f])
    top = {'own': s._freeEvol, 'P': p, 'F': p}[where]
    rates = {'b': 0.2, 'a': 0.05}
    d = {'b': qg.dissipatorObj(system=objs['b'], jOper=JUMPS[jump](3), jRate=rates['b'])}
    if 'a' in names:
        d['a'] = qg.dissipatorObj(system=objs['a'], jOper=OPS['sigmam'](2), jRate=rates['a'])
    for k in d.values():
        if where != 'own' or lay != 'alone':
            k.addToProtocol({'own': s._freeEvol, 'P': p, 'F': f}[where])
    sim = qg.Simulation()
    sim.stepSize, sim.totalTime, dt = 0.5, 1.0, 0.5
    if where == 'own':
        sim.addSubSys(s)
    else:
        sim.addProtocol(protocol=p, system=s)
    steps = {'rates': [0.1, 0.3, 0.6]}.get(dep)
    if dep == 'term':
        def td(term, time):
            term.frequency = 1.5 + time
        list(objs['b'].terms.values())[0].timeDependency = td
    elif dep == 'rates':
        sim.timeDependency.createSweep(system=d['b'], sweepKey='jRate', sweepList=steps)
    seen = []
    sim.compute = lambda qs, states: seen.append(dense(states[0]))

    def initial():
        """sets the initial state, and returns the density matrix"""
        parts = {n: sub[n] @ sub[n].conj().T for n in names}
        n = dims['b']
        if state == 'part':
            parts['b'] = rhos(n)
        if state == 'full':
            mat = rhos(int(np.prod([dims[k] for k in names])))
            s.initialState = mat.copy()
            return mat
        vals = {k: parts['b'].copy() if (k, state) == ('b', 'part') else [0, 1] if k == 'a' else 1 for k in names}
        if lay == 'alone':
            s.initialState = vals['b']
        else:
            s.initialState = [vals[k] for k in names]
        return product([parts[k] for k in names])

    def embed(mats):
        return product([mats.get(n, np.eye(dims[n])) for n in names])

    def run(label):
        n = dims['b']
        rho = initial()
        for rnd in (1, 2):
            seen.clear()
            sim.run()
            got = sim.states[(s if where == 'own' else p).name + 'Results']
            equal((len(got), len(seen)), (4, 4), f'{label}: number of states')
            m = rho
            for k in range(4):
                same(got[k], m, f'{label}: state {k} of the run {rnd}')
                same(seen[k], m, f'{label}: state {k} of the run {rnd} in compute')
                close(np.trace(dense(got[k])), 1, f'{label}: trace of the state {k} of the run {rnd}')
                if k == 3:
                    break
                freq = 1.5 + (k + 1) * dt if dep == 'term' else freqs['b']
                h = embed({'b': freq * OPS['number'](n)})
                for q in names:
                    if q != 'b':
                        h = h + embed({q: freqs[q] * OPS['Jz'](2)})
                if 'a' in names:
                    h = h + 0.3 * embed({'a': OPS['sigmax'](2), 'b': OPS['number'](n)})
                ops = [embed({'b': jumps['b'](n)})]
                rs = [steps[k] if dep == 'rates' else rates['b']]
                if 'a' in names:
                    ops.append(embed({'a': OPS['sigmam'](2)}))
                    rs.append(rates['a'])
                big = expm(liouvillian(h, ops, rs) * dt)
                if where != 'own':
                    if 'a' in names:
                        u = embed({'a': uexp(OPS['sigmax'](2) / 2, 0.7)})
                        big = big @ np.kron(u.conj(), u)
                    else:
                        on = where == 'P'
                        big = big @ expm(liouvillian(h, ops if on else [], rs if on else []) * dt / 2)
                m = unvec(big @ vec(m))
    jumps = {'b': JUMPS[jump]}
    run('first')
    if then == 'rates':
        if dep != 'rates':
            d['b'].jRate = rates['b'] = 0.5
        if 'a' in d:
            d['a'].jRate = rates['a'] = 0.3
    elif then == 'operator':
        jumps['b'] = lambda n: OPS['number'](n) + 0.5j * OPS['create'](n)
        d['b'].jOper = jumps['b'](3)
    else:
        dims['b'] = 2
        sub['b'] = sub['b'][:2]
        objs['b'].dimension = 2
        d['b'].jOper = jumps['b'](2)
    run('second')


def components(tier):
    k = 1 if tier == 'thorough' else 0
    single = [d_new('x', 'a', 'destroy', 0.2), d_new('y', 'a', 'number', 0.1, 1, True), d_new('z', 'a', 'create', 0.15, 0),
              d_again('x', 'Fa'), d_set('x', 'rate', 0.4), d_set('x', 'op', 'create'), d_set('x', 'temp', 2.0),
              d_set('z', 'temp', 1.0), b_attach('B', 'x'), b_attach('B', 'z'), b_set('B', 'temp', 2.5),
              b_set('B', 'freq', 0.7), s_freq('a', 2.0), s_dt('a', 0.25), p_read('Fa'), d_read('x'), s_run()]
    comp = [d_new('y', 'a', 'sigmam', 0.1), d_to('y', 'Fc'), d_set('x', 'rate', 0.4), d_set('x', 'temp', 2.0),
            d_set('x', 'op', 'number'), s_add('c', 'd'), s_rem('c', 'd'), s_freq('h', 0.6), s_freq('a', 2.0),
            s_state('a', 1), p_read('Fc'), d_read('x'), s_run()]
    pr = [d_new('x', 'a', 'sigmam', 0.2), d_to('x', 'P'), d_to('x', 'F'), d_new('y', 'a', 'sigmaz', 0.1), d_to('y', 'P'),
          d_set('x', 'rate', 0.4), d_set('x', 'temp', 2.0), d_set('x', 'op', 'sigmap'), p_set('X', 'angle', 1.1),
          p_set('F', 'ratio', 0.5), s_freq('a', 2.0), p_step('P', 'X'), p_samples('F', 2), p_read('P'), p_touch('F'), p_touch('X'), s_run()]
    inside = [d_to('y', 'P'), d_to('y', 'F'), d_to('x', 'F'), d_set('x', 'rate', 0.4), d_set('y', 'rate', 0.3),
              d_set('x', 'temp', 2.0), d_set('x', 'op', 'sigmap'), p_set('X', 'angle', 1.1), p_set('F', 'ratio', 0.5),
              p_samples('F', 3), s_dt('a', 0.25), p_read('P'), p_touch('F'), p_touch('X'), s_run()]
    nest = [d_to('x', 'R'), d_to('x', 'P'), d_to('y', 'P'), d_to('y', 'G'), d_set('x', 'rate', 0.4), d_set('y', 'temp', 2.0),
            p_set('X', 'angle', 1.1), p_set('F', 'ratio', 0.5), s_freq('h', 0.6), s_state('a', 1), p_read('R'), p_read('Q'),
            p_touch('P'), p_touch('F'), s_run()]
    share = [d_to('y', 'Q'), d_to('x', 'Q'), d_to('y', 'P'), d_set('x', 'rate', 0.4), d_set('y', 'op', 'sigmap'),
             p_set('X', 'angle', 1.1), p_set('F', 'ratio', 0.5), p_step('P', 'F'), p_step('Q', 'X'), p_read('P'), p_read('Q'),
             p_touch('F'), s_run()]
    baths = [b_attach('B', 'x'), b_attach('B', 'z'), b_attach('A', 'x'), b_attach('A', 'y'), b_set('B', 'temp', 2.5),
             b_set('B', 'freq', 0.7), b_set('A', 'temp', 1.0), b_set('B', 'temp', 0), d_set('x', 'temp', 2.0), d_set('z', 'temp', 0.5),
             d_set('y', 'rate', 0.3), p_read('Fa'), p_read('Fb'), s_run()]
    return [
        Histories('shared environments', b_baths, baths, final, 3 + k, state, no_double),
        Cases('kinds', kinds_domain, c_kind, 4),
        Cases('sweeps', sweeps_domain, c_sweep, 2),
        Histories('shared steps', b_share, share, final, 3 + k, state, no_double),
        Histories('dissipators of a protocol and its steps', b_inside, inside, final, 3 + k, state, no_double),
        Histories('nested protocol', b_nested, nest, final, 3 + k, state, no_double),
        Histories('one system', b_single, single, final, 3 + k, state, no_double),
        Histories('composite system', b_comp, comp, final, 3 + k, state, no_double),
        Histories('protocol', b_pro, pr, final, 3 + k, state, no_double),
    ]
