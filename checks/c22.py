"""C22: failing operations leave objects consistent."""
import itertools
import multiprocessing
import numpy as np
import quanguru as qg
from mc.core import Histories, Cases, Disabled, Violation, reset_library
from mc.ref import RSys, RTerm, uexp, OPS
from mc.util import same, equal, dense, raises, OPF
from .c01 import World, leaf, coupling, s_freq, s_oper
from .c01 import s_read as s_hread
from .c02 import s_add, s_rem, final as structure
from . import c04, c08
from .c04 import s_state, s_dim, novec, vecs

PROPERTY = 'C22'
LEVEL = 'model_checking'
ASSUMPTIONS = ['the parameters that are swept, or are changed by the user-supplied functions, stay as they are at the exception',
               'results are compared after a run that resets the results']


class Fault(Exception):
    pass


# ---------------------------------------------------------------- exceptions in a run
class FWorld(World):
    def __init__(self, faults=()):
        super().__init__()
        self.calls, self.faults, self.log, self.point = 0, set(faults), [], None

    def user(self, label, f=None):
        _CURRENT[0] = self
        return Call(label, f)


_CURRENT = [None]


class Call:
    """a function of the user that raises at some of its calls (a simulation is sent to other processes with it)"""
    def __init__(self, label, f):
        self.label, self.f = label, f

    def __call__(self, *args):
        w = _CURRENT[0]
        if self.label == 'S.pre' and w.point is not None:
            # the calls of every point of the sweep are counted in the parallel runs
            w.calls, w.point = 0, list(args[0].Sweep.sweeps.values())[0].system.frequency
        w.calls += 1
        w.log.append(self.label)
        if w.calls in w.faults or (w.point, w.calls) in w.faults:
            raise Fault(self.label)
        return self.f(*args) if self.f is not None else None


def linear(term, time):
    term.frequency = 1.0 + time


def swept(s):
    s.system.frequency = s.sweepList[s.index]


def value(states):
    return [float(np.sum(np.abs(dense(s)) ** 4)) for s in (states if isinstance(states, list) else [states])]


def build(config, faults=()):
    sweep, td, upd, evol, parallel = config
    w = FWorld(faults)
    a = leaf(w, 'a', qg.Qubit, 2, 1.0, 'Jz')
    leaf(w, 'b', qg.Cavity, 2, 2.0, 'number')
    a.operator = w.user('operator', qg.number)
    w.tr['a'][1].ops = ['number']
    c = w.i['c'] = a + w.i['b']
    w.r['c'] = RSys('c', None, [w.r['a'], w.r['b']])
    coupling(w, 'g', 'c', ['a', 'b'], ['sigmay', 'number'], 0.3)
    a.initialState, w.i['b'].initialState = [0, 1], 1
    c.simulation.stepSize = 0.5
    w.F, w.G = qg.freeEvolution(system=c), qg.freeEvolution(system=c)
    w.X = qg.SpinRotation(system=a, angle=0.7, rotationAxis='x')
    w.P = qg.qProtocol(system=c)
    w.P.addStep(w.F, w.X, w.G, w.F)
    w.upd = upd
    if upd:
        w.F.createUpdate(system=w.i['a'], key='frequency', value=3.0)
        w.F.createUpdate(system=w.ti['g'], key='frequency', value=2.0, updateFunction=w.user('update', scale))
        w.G.createUpdate(system=[w.i['a'], w.i['b']], key='frequency', value=0.1)
        if upd == 2:
            w.P.createUpdate(system=w.X, key='angle', value=0.2, updateFunction=w.user('update of P', scale))
    S = w.S = qg.Simulation()
    S.stepSize, S.totalTime = 0.5, 0.5
    S.addSubSys(c)
    S.addProtocol(protocol=w.P, system=c)
    if td:
        w.i['a'].terms and list(w.i['a'].terms.values())[0]
        t = list(w.i['a'].terms.values())[0]
        t.timeDependency = w.user('time dependency', linear)
    if sweep == 'list':
        S.Sweep.createSweep(system=w.i['b'], sweepKey='frequency', sweepList=[2.0, 3.0])
    elif sweep == 'func':
        sw = S.Sweep.createSweep(system=w.i['b'], sweepKey='frequency', sweepList=[2.0, 3.0])
        sw.sweepFunction = w.user('sweep', swept)
    elif sweep == 'two':
        S.Sweep.createSweep(system=w.i['b'], sweepKey='frequency', sweepList=[2.0, 3.0])
        S.Sweep.createSweep(system=w.X, sweepKey='angle', sweepList=[0.7, 0.1], combinatorial=True)
    for name, o in (('S', S), ('P', w.P), ('c', c)):
        o.compute = w.user(name + '.compute', store)
        o.preCompute = w.user(name + '.pre')
        o.postCompute = w.user(name + '.post', last)
    if evol:
        default = S.evolFunc
        S.evolFunc = w.user('evolFunc', default)
    return w


def scale(upd):
    for s in upd.subSys.values():
        setattr(s, upd.key, getattr(s, upd.key) * upd.value)


def store(obj, states):
    obj.qRes.singleResult = 'x', value(states)
    obj.qRes.resAverage = 'avg', value(states)[0]


def last(obj):
    obj.qRes.calculated = 'last', 1


def run(w, parallel):
    if parallel:
        # the process of the check is a daemon, which is not allowed to have children
        multiprocessing.current_process()._config['daemon'] = False
        w.S.run(p=True, coreCount=2)
    else:
        w.S.run(p=False)


def plain(x):
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if hasattr(x, 'shape'):
        return dense(x)
    return x


def collect(w):
    out = {}
    for name, o in (('S', w.S), ('P', w.P), ('c', w.i['c'])):
        out[name + ' results'] = plain(dict(o.qRes.resultsDict))
        out[name + ' calculated'] = plain(dict(o.qRes.calculated or {}))
        out[name + ' states'] = {rename(w, k): v for k, v in plain(dict(o.qRes.states)).items()}
    out['parameters'] = parameters(w)
    return out


def rename(w, key):
    return key.replace(str(w.P.name), 'P').replace(str(w.i['c'].name), 'c').replace(str(w.S.name), 'S')


def parameters(w):
    return {'a': w.i['a'].frequency, 'b': w.i['b'].frequency, 'g': w.ti['g'].frequency, 'angle': w.X.angle,
            'ratio': w.F.ratio, 'dt': w.S.stepSize, 'T': w.S.totalTime, 'n': w.S.stepCount}


def compare(got, want, path):
    if isinstance(want, dict):
        equal(sorted(got), sorted(want), f'{path}: keys')
        for k in want:
            compare(got[k], want[k], f'{path} {k}')
    elif isinstance(want, list):
        equal(len(got), len(want), f'{path}: length')
        for k, (a, b) in enumerate(zip(got, want)):
            compare(a, b, f'{path}[{k}]')
    elif hasattr(want, 'shape') or isinstance(want, (float, complex)):
        same(got, want, path)
    else:
        equal(got, want, path)


def consistent(w, label):
    """operators are those of the current parameters"""
    w.tr['a'][1].freq, w.tr['b'][1].freq, w.tr['g'][1].freq = \
        w.i['a'].frequency, w.i['b'].frequency, w.ti['g'].frequency
    same(w.i['c'].totalHamiltonian, w.r['c'].hamiltonian(), f'{label}: Hamiltonian')
    same(w.i['c'].unitary(), uexp(w.r['c'].hamiltonian(), 0.5), f'{label}: unitary of the system')
    fa, fb, fg = w.tr['a'][1], w.tr['b'][1], w.tr['g'][1]
    old = fa.freq, fb.freq, fg.freq
    if w.upd:
        fa.freq, fg.freq = 3.0, old[2] * 2.0
    uf = uexp(w.r['c'].hamiltonian(), 0.5)
    fa.freq, fb.freq, fg.freq = old
    if w.upd:
        fa.freq, fb.freq = 0.1, 0.1
    ug = uexp(w.r['c'].hamiltonian(), 0.5)
    fa.freq, fb.freq, fg.freq = old
    ux = w.r['a'].embed(uexp(OPS['Jx'](2), w.X.angle * (0.2 if w.upd == 2 else 1)))
    same(w.P.unitary(), uf @ ug @ ux @ uf, f'{label}: unitary of the protocol')
    same(w.F.unitary(), uf, f'{label}: unitary of a step')


_TWIN = {}


def twin(config):
    """results of a simulation in which nothing fails"""
    if config not in _TWIN:
        w = build(config)
        run(w, False)
        _TWIN[config] = collect(w)
        reset_library()
    return _TWIN[config]


def c_fault(case):
    config, faults, wrong = case
    want = twin(config)
    w = build(config)
    before = parameters(w)
    parallel = config[4]
    for n, k in enumerate(faults):
        w.calls, w.faults, w.point = 0, {k}, (0 if parallel else None)
        try:
            run(w, parallel)
        except Fault:
            pass
        else:
            if n == 0 or w.calls >= k:     # a second run might have fewer calls
                raise Violation(f'the exception of call {k} ({n}) is lost')
        finally:
            w.faults = set()
        if parallel:
            equal(len(multiprocessing.active_children()), 0, 'number of processes left running')
        now = parameters(w)
        for p in before:
            if not (p == 'b' and config[0]) and not (p == 'angle' and config[0] == 'two') and not (p == 'a' and config[1]):
                equal(now[p], before[p], f'{p} after the exception')
        if not config[1]:     # the time of a time-dependent term is not known here
            consistent(w, f'after the exception {n}')
    run(w, parallel)
    got = collect(w)
    if parallel:
        # the parameters are changed in the other processes
        want = {**want, 'parameters': {p: v for p, v in want['parameters'].items() if p not in 'ab'}}
        got['parameters'] = {p: v for p, v in got['parameters'].items() if p not in 'ab'}
    compare(got, want, 'after correcting the fault:')
    if not config[1]:
        consistent(w, 'at the end')


# ---------------------------------------------------------------- rejected operations
def rejected(label, f):
    """an operation that has to be rejected (and changes nothing)"""
    return ('rejected: ' + label, lambda w: raises(lambda: f(w), Exception, label))


def pauli(label, systems, f):
    """Pauli operators are rejected when the dimension of one of the systems is not two"""
    def op(w):
        if all(w.r[n].dim == 2 for n in systems):
            raise Disabled()
        raises(lambda: f(w), Exception, label)
    return ('rejected: ' + label, op)


def rejected_pauli():
    """operators are set together, or not at all"""
    return [pauli('b.operator=sigmax', 'b', put('b', 'operator', qg.sigmax)),
            pauli('b.createTerm(sigmaz)', 'b', lambda w: w.i['b'].createTerm(operator=qg.sigmaz, frequency=0.4)),
            pauli('g.operator=[sigmay, sigmax]', 'ab', put('g', 'operator', [qg.sigmay, qg.sigmax], True)),
            pauli('k.operator=[sigmap, number]', 'b', put('k', 'operator', [qg.sigmap, qg.number], True)),
            pauli('coupling with Pauli operators', 'b', create('o', ['sigmax', 'sigmaz'], ['d', 'b'])),
            pauli('c.createTerm(sigmaz)', 'c', lambda w: w.i['c'].createTerm(operator=qg.sigmaz, frequency=0.4))]


def nothing(label, f):
    """an operation that has nothing to do"""
    return ('nothing: ' + label, lambda w: f(w))


def b_systems():
    """o = (d, c = (a, b)) with couplings, e is not in any of them"""
    w = c04.b_nested()
    coupling(w, 'g', 'c', ['a', 'b'], ['sigmax', 'create'], 0.5)
    coupling(w, 'h', 'c', ['a', 'b'], ['sigmax', 'destroy'], 0.5)
    coupling(w, 'k', 'o', ['b', 'd'], ['number', 'sigmaz'], 0.7)
    return w


def final_systems(w):
    structure('oceadb')(w)
    for n, want in (('g', 2), ('h', 2), ('k', 2)):
        equal(len(w.ti[n].qSystem), want, f'number of systems of the coupling {n}')
    c04.final('oPcabde')(w)


def low(w, name):
    """first term of a system"""
    return list(w.i[name].terms.values())[0]


def create(owner, ops, systems, **kw):
    def f(w):
        w.i[owner].createTerm(operator=[OPF[o] for o in ops], frequency=0.1, qSystem=[w.i[s] for s in systems], **kw)
    return f


def put(name, attr, val, term=False):
    def f(w):
        setattr(w.ti[name] if term else w.i[name], attr, val(w) if callable(val) and attr != 'operator' else val)
    return f


def rejected_systems():
    """operations that are rejected in every state of the systems"""
    bad = [('o.addSubSys(o)', lambda w: w.i['o'].addSubSys(w.i['o'])),
           ('c.addSubSys(c)', lambda w: w.i['c'].addSubSys(w.i['c'])),
           ('a.addSubSys(e)', lambda w: w.i['a'].addSubSys(w.i['e'])),
           ('a.addSubSys(a)', lambda w: w.i['a'].addSubSys(w.i['a'])),
           ('c.addSubSys(5)', lambda w: w.i['c'].addSubSys(5)),
           ('c.addSubSys(unknown)', lambda w: w.i['c'].addSubSys('unknown')),
           ('c.addSubSys(protocol)', lambda w: w.i['c'].addSubSys(w.pi['P'])),
           ('c.addSubSys(simulation)', lambda w: w.i['c'].addSubSys(qg.Simulation())),
           ('c.addSubSys([e, 5])', lambda w: w.i['c'].addSubSys([w.i['e'], 5])),
           ('o.addSubSys((e, o))', lambda w: w.i['o'].addSubSys((w.i['e'], w.i['o']))),
           ('o.addSubSys([Qubit, unknown])', lambda w: w.i['o'].addSubSys([qg.Qubit, 'unknown'])),
           ('c.subSys=5', lambda w: setattr(w.i['c'], 'subSys', 5)),
           ('c.subSys=[a, o]', lambda w: setattr(w.i['c'], 'subSys', [w.i['a'], qg.Simulation()])),
           ('o.subSys=[e, unknown]', lambda w: setattr(w.i['o'], 'subSys', [w.i['e'], 'unknown'])),
           ('a.subSys=e', lambda w: setattr(w.i['a'], 'subSys', w.i['e'])),
           ('c + 5', lambda w: w.i['c'] + 5),
           ('c.removeSubSys(unknown)', lambda w: w.i['c'].removeSubSys('unknown')),
           ('a.removeSubSys(b)', lambda w: w.i['a'].removeSubSys(w.i['b'])),
           ('c.removeTerm(unknown)', lambda w: w.i['c'].removeTerm('unknown')),
           ('coupling with another system', create('c', ['sigmax', 'number'], ['d', 'e'])),
           ('coupling with the owner', create('c', ['sigmax', 'number'], ['a', 'o'])),
           ('coupling with less operators', create('o', ['sigmax'], ['a', 'd'])),
           ('coupling with more operators', create('o', ['sigmax', 'sigmax', 'sigmax'], ['a', 'd'])),
           ('coupling with one order', create('o', ['sigmax', 'sigmax'], ['a', 'd'], order=2)),
           ('coupling with three orders', create('o', ['sigmax', 'sigmax'], ['a', 'd'], order=[1, 2, 3])),
           ('coupling with an unknown argument', create('o', ['sigmax', 'sigmax'], ['a', 'd'], unknown=2)),
           ('a.unknown', put('a', 'unknown', 2)),
           ('copy with an unknown argument', lambda w: w.i['c'].copy(unknown=2)),
           ('new system with an unknown argument', lambda w: qg.QuantumSystem(subSys=[], unknown=2)),
           ('c * 1.5', lambda w: 1.5 * w.i['c']),
           ('a.terms=5', put('a', 'terms', 5)),
           ('a.terms=unknown', put('a', 'terms', 'unknown')),
           ('a.terms=e', lambda w: setattr(w.i['a'], 'terms', w.i['e'])),
           ('c.terms=[g, 5]', lambda w: setattr(w.i['c'], 'terms', [w.ti['g'], 5])),
           ('c.terms=(g, unknown)', lambda w: setattr(w.i['c'], 'terms', (w.ti['g'], 'unknown'))),
           ('a.addTerms(5)', lambda w: w.i['a'].addTerms(5)),
           ('a.addTerms(unknown)', lambda w: w.i['a'].addTerms('unknown')),
           ('a.addTerms([new, 5])', lambda w: w.i['a'].addTerms([qg.QTerm(qSystem=w.i['a'], operator=qg.number, frequency=0.3), 5])),
           ('c.removeTerm([g, unknown])', lambda w: w.i['c'].removeTerm([w.ti['g'], 'unknown'])),
           ('c.removeTerm([g, a])', lambda w: w.i['c'].removeTerm([w.ti['g'], w.i['a']])),
           ('c.removeSubSys([a, unknown])', lambda w: w.i['c'].removeSubSys([w.i['a'], 'unknown'])),
           ('o.removeSubSys((d, protocol))', lambda w: w.i['o'].removeSubSys((w.i['d'], w.pi['P']))),
           ('c - [a, 5]', lambda w: w.i['c'] - [w.i['a'], 5])]
    for n in 'abd':
        bad += [(f'{n}.frequency=x', put(n, 'frequency', 'x'))]
    for n in 'ghk':
        bad += [(f'{n}.frequency=x', put(n, 'frequency', 'x', True)), (f'{n}.order=2', put(n, 'order', 2, True)),
                (f'{n}.order=[1]', put(n, 'order', [1], True)),
                (f'{n}.operator=number', put(n, 'operator', qg.number, True)),
                (f'{n}.operator=[number]', put(n, 'operator', [qg.number], True))]
    for n in 'abe':
        bad += [(f'{n}.dimension={v}', put(n, 'dimension', v)) for v in (0, -1, 1.5, 'x', None, [2])]
        bad += [(f'{n}.initialState={v}', put(n, 'initialState', v)) for v in ('x', -1, None, 1.5, ['x'], [0, -1])]
        bad += [(f'{n}.initialState=vector', put(n, 'initialState', vecs(5)))]
    return bad


def rejected_states():
    bad = []
    for n, vals in (('c', ([1], [1, 1, 0, 0], [1, 'x'], ['x', 1], [1, -1], [-1, 1], [1, None], [None, 1], 1, {0: 1, 1: 1}, None,
                           [1, [0, 'x']], 'x')),
                    ('o', ([1], [1, [1]], [1, [1, 'x']], ['x', [1, 1]], [1, [1, -1]], [1, 1], [1, [1, 1, 1, 1]], [-1, [1, 1]],
                           [1, None], [1, [None, 1]]))):
        bad += [(f'{n}.initialState={v}', put(n, 'initialState', v)) for v in vals]
        bad += [(f'{n}.initialState=vector', put(n, 'initialState', vecs(5))),
                (f'{n}.initialState=sparse vector', put(n, 'initialState', lambda w: qg.basis(5, 1)))]
    bad += [(f'P.initialState={v}', lambda w, v=v: setattr(w.pi['P'], 'initialState', v))
            for v in ([1, [1, 'x']], ['x', [1, 1]], 'x', [-1, [1, 1]], vecs(5))]
    bad += [('o.simulation.initialState=x', lambda w: setattr(w.i['o'].simulation, 'initialState', [0, ['x', 1]])),
            ('o.initialState=[1, vector]', put('o', 'initialState', [1, vecs(5)])),
            ('o.initialState=[1, [1, vector]]', put('o', 'initialState', [1, [1, vecs(7)]]))]
    return bad


def c_ambiguous(case):
    """rejected operations do not decide the type of a new system"""
    bad, then = case
    q = qg.QuantumSystem()
    a, b = qg.Qubit(frequency=1.0), qg.Cavity(dimension=3, frequency=2.0)
    bads = {'simulation': lambda: q.addSubSys(qg.Simulation()), 'itself': lambda: q.addSubSys(q), 'number': lambda: q.addSubSys(5),
            'unknown': lambda: q.addSubSys('unknown'), 'state': lambda: setattr(q, 'initialState', 0),
            'float': lambda: setattr(q, 'dimension', 1.5), 'dimension': lambda: setattr(q, 'dimension', 0),
            'attribute': lambda: setattr(q, 'unknown', 0), 'remove': lambda: q.removeSubSys('unknown'),
            'frequency': lambda: setattr(q, 'frequency', 'x')}
    for x in bad:
        raises(bads[x], Exception, x)
    if then == 'single':
        q.dimension = 3
        q.operator, q.frequency = qg.number, 2.0
        q.initialState = 1
        same(q.totalHamiltonian, np.diag([0, 2, 4]), f'single after {bad}')
        same(q.initialState, [[0], [1], [0]], f'state after {bad}')
    else:
        q.addSubSys(a)
        q.addSubSys(b)
        equal(q.dimension, 6, f'composite after {bad}')
        q.initialState = [1, 2]
        same(q.initialState, np.eye(6)[:, 5:], f'state after {bad}')


def ambiguous():
    bads = ['simulation', 'itself', 'number', 'unknown', 'state', 'float', 'dimension', 'attribute', 'frequency']
    return [(x, then) for n in (1, 2) for x in itertools.product(bads, repeat=n) for then in ('single', 'composite')]


def b_protocols():
    return c08.b_sim((('a', 'P'), ('b', None)))()


def final_protocols(w):
    for n in 'abd' if 'd' in w.i else 'ab':
        same(w.i[n].totalHamiltonian, w.r[n].hamiltonian(), f'{n}.totalHamiltonian')
    for n in 'FPQGX':
        same(w.pi[n].unitary(), w.pr[n].matrix(w), f'{n}.unitary')
    for n in 'SPQab':
        sim = w.S if n == 'S' else (w.pi.get(n) or w.i[n]).simulation
        if n != 'Q':     # not in the simulation
            same(sim.stepSize, w.nodes[n].dt, f'{n}.stepSize')
            same(sim.totalTime, w.nodes[n].t, f'{n}.totalTime')
            equal(sim.stepCount, int(w.nodes[n].t // w.nodes[n].dt + 1), f'{n}.stepCount')
    c08.final_S('P', 'b')(w)


def rejected_protocols():
    sims = {'S': lambda w: w.S, 'P': lambda w: w.pi['P'].simulation, 'a': lambda w: w.i['a'].simulation}
    bad = [('P.addStep(P)', lambda w: w.pi['P'].addStep(w.pi['P'])),
           ('P.addStep(P.hc)', lambda w: w.pi['P'].addStep(w.pi['P'].hc)),
           ('P.addStep(X, P)', lambda w: w.pi['P'].addStep(w.pi['X'], w.pi['P'])),
           ('P.addStep(5)', lambda w: w.pi['P'].addStep(5)),
           ('P.addStep(X, 5)', lambda w: w.pi['P'].addStep(w.pi['X'], 5)),
           ('P.addStep(a)', lambda w: w.pi['P'].addStep(w.i['a'])),
           ('P.unknown', lambda w: setattr(w.pi['P'], 'unknown', 2)),
           ('X.rotationAxis', lambda w: setattr(w.pi['X'], 'rotationAxis', 'q')),
           ('S.addSubSys(5)', lambda w: w.S.addSubSys(5)),
           ('S.addProtocol(Q, unknown)', lambda w: w.S.addProtocol(w.pi['Q'], 'unknown')),
           ('S.addQSystems(unknown)', lambda w: w.S.addQSystems('unknown')),
           ('S.removeQSystems(unknown)', lambda w: w.S.removeQSystems('unknown')),
           ('S.createSweep without system', lambda w: w.S.Sweep.createSweep(sweepKey='frequency', sweepList=[1, 2])),
           ('S.createSweep without key', lambda w: w.S.Sweep.createSweep(system=w.i['a'], sweepList=[1, 2])),
           ('S.createSweep with unknown argument', lambda w: w.S.Sweep.createSweep(system=w.i['a'], sweepKey='frequency',
                                                                                  unknown=1)),
           ('createUpdate with unknown argument', lambda w: w.pi['F'].createUpdate(system=w.i['a'], key='frequency', value=2,
                                                                                   unknown=1)),
           ('new protocol with unknown argument', lambda w: qg.qProtocol(system=w.i['a'], unknown=1)),
           ('new gate with unknown axis', lambda w: qg.SpinRotation(system=w.i['a'], angle=1, rotationAxis='q')),
           ('new simulation with unknown argument', lambda w: qg.Simulation(unknown=1)),
           ('P.subSys=5', lambda w: setattr(w.pi['P'], 'subSys', 5)),
           ('P.subSys=unknown', lambda w: setattr(w.pi['P'], 'subSys', 'unknown')),
           ('P.subSys=a', lambda w: setattr(w.pi['P'], 'subSys', w.i['a'])),
           ('P.subSys=P', lambda w: setattr(w.pi['P'], 'subSys', w.pi['P'])),
           ('P.subSys=[X, 5]', lambda w: setattr(w.pi['P'], 'subSys', [w.pi['X'], 5])),
           ('P.removeSubSys(unknown)', lambda w: w.pi['P'].removeSubSys('unknown')),
           ('P.removeSubSys([F, unknown])', lambda w: w.pi['P'].removeSubSys([w.pi['F'], 'unknown'])),
           ('P.removeSubSys(Q)', lambda w: w.pi['P'].removeSubSys(w.pi['Q'])),
           ('F.addUpdate(5)', lambda w: w.pi['F'].addUpdate(5)),
           ('F.addUpdate(update, 5)', lambda w: w.pi['F'].addUpdate(qg.classes.QPro.Update(system=w.i['a'], key='frequency', value=7),
                                                                   5)),
           ('S.subSys=5', lambda w: setattr(w.S, 'subSys', 5)),
           ('S.subSys=[a, 5]', lambda w: setattr(w.S, 'subSys', [w.i['a'], 5])),
           ('S.subSys=unknown', lambda w: setattr(w.S, 'subSys', 'unknown')),
           ('S.addSubSys([new, 5])', lambda w: w.S.addSubSys([qg.Qubit(frequency=1), 5])),
           ('S.addSubSys(unknown)', lambda w: w.S.addSubSys('unknown')),
           ('S.addSubSys(a sweep)', lambda w: w.S.addSubSys(w.S.Sweep)),
           ('S.removeQSystems([a, new])', lambda w: w.S.removeQSystems([w.i['a'], qg.Qubit()])),
           ('S.removeQSystems([a, unknown])', lambda w: w.S.removeQSystems([w.i['a'], 'unknown']))]
    for n, s in sims.items():
        for attr, vals in (('stepSize', (0, 'x', [0.1])), ('totalTime', ('x', [1])), ('stepCount', (0, 'x'))):
            bad += [(f'{n}.{attr}={v}', lambda w, s=s, attr=attr, v=v: setattr(s(w), attr, v)) for v in vals]
        if n != 'S':
            bad += [(f'{n}.simulation.initialState={v}', lambda w, s=s, v=v: setattr(s(w), 'initialState', v)) for v in ('x', -1)]
    return bad


def no_double(labels):
    return any(a == b for a, b in zip(labels, labels[1:]))


CONFIGS = [(None, False, 0, False, False), (None, False, 1, False, False), ('list', False, 2, False, False), ('func', True, 0, True, False),
           (None, True, 1, True, False), ('two', False, 1, False, False), ('two', True, 2, True, False)]
PARALLEL = [('list', False, 2, True, True), ('func', True, 1, False, True)]


def count(config):
    w = build(config)
    run(w, False)
    n = w.calls
    reset_library()
    return n


def faults_domain(pairs):
    def dom():
        out = []
        for c in CONFIGS:
            n = count(c)
            out += [(c, (k,), 0) for k in range(1, n + 1)]
            if pairs == 'all' or n < 30:
                out += [(c, (k, j), 0) for k in range(1, n + 1) for j in range(1, n + 1)]
        return out
    return dom


def parallel_domain():
    """every call of every point"""
    out = []
    for c in PARALLEL:
        w = build(c[:4] + (False,))
        run(w, False)
        starts = [i for i, name in enumerate(w.log) if name == 'S.pre'] + [len(w.log)]
        reset_library()
        out += [(c, ((f, k),), 0) for f, a, b in zip([2.0, 3.0], starts, starts[1:]) for k in range(1, b - a + 1)
                if w.log[a + k - 1] != 'sweep']      # called before the point is known
    return out


def alternating(labels):
    """histories with rejected operations, reads and other operations"""
    return no_double(labels) or sum(x.startswith(('rejected', 'nothing')) for x in labels) > 2


def components(tier):
    k = 1 if tier == 'thorough' else 0
    rej = [rejected(*x) for x in rejected_systems()] + rejected_pauli()
    rej += [nothing('o.removeSubSys(o)', lambda w: w.i['o'].removeSubSys(w.i['o'])),
            nothing('c.removeSubSys(o)', lambda w: w.i['c'].removeSubSys(w.i['o']) if w.r['c'].sup else None),
            nothing('c - new', lambda w: w.i['c'] - qg.Qubit()),
            nothing('c.addSubSys(a)', lambda w: w.i['c'].addSubSys(w.i['a']))]
    valid = [s_freq('a', 2.0), s_freq('g', 0.3), s_dim('b', 2), s_dim('b', 4), novec(s_add('o', 'e')), novec(s_rem('o', 'c')),
             novec(s_add('o', 'c')), s_hread('o')]
    sta = [rejected(*x) for x in rejected_states()]
    states = [s_state('a', 1), s_state('c', [1, 2]), s_state('c', vecs(6)), s_state('o', [1, [0, 1]]), s_dim('b', 2), s_dim('b', 4),
              c04.s_pstate('P', [0, [0, 1]]), c04.s_read('o'), c04.s_read('c')]
    pro = [rejected(*x) for x in rejected_protocols()]
    prov = [s_freq('a', 2.0), c08.s_pset('X', 'angle', 1.1), c08.s_time('S', 'dt', 0.25), c08.s_time('P', 'dt', 0.125),
            c08.s_step('P', 'X'), c08.s_init('a', 1), c08.s_uread('P'), c08.s_run()]
    return [
        Histories('rejected operations: systems', b_systems, rej + valid, final_systems, 2, c04.state, alternating),
        Histories('rejected operations: states', b_systems, sta + states, final_systems, 2, c04.state, alternating),
        Histories('rejected operations: protocols', b_protocols, pro + prov, final_protocols, 2, c08.state, alternating),
        Cases('rejected operations: new systems', ambiguous(), c_ambiguous, 8),
        Cases('exceptions in a run', faults_domain('all' if k else ''), c_fault, 4),
        Cases('exceptions in a parallel run', parallel_domain, c_fault, 2),
    ]
