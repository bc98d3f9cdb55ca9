"""C05: time parameters are consistent with each other and inherited along the hierarchy of a simulation."""
import itertools

import numpy as np
import quanguru as qg
from mc.core import Histories, Cases, Disabled, Violation
from mc.ref import uexp, SX
from mc.util import equal, same

PROPERTY = 'C05'
LEVEL = 'model_checking'
ASSUMPTIONS = ['the number of steps follows the convention of the library (the last step that is not after the total time, '
               'plus one)', 'values are exact in binary, so that the divisions are exact']


class Node:
    def __init__(self, name, parent=None):
        self.name, self.parent = name, parent
        self.own_t = self.own_dt = self.pending = self.own_samples = self.own_del = None

    def get(self, attr, default=None):
        v = getattr(self, attr)
        if v is not None:
            return v
        return self.parent.get(attr, default) if self.parent is not None else default

    t = property(lambda self: self.get('own_t'))
    dt = property(lambda self: self.get('own_dt'))
    samples = property(lambda self: self.get('own_samples', 1))
    delstates = property(lambda self: self.get('own_del', False))

    def set_t(self, v):
        self.own_t = v
        if self.dt is None and self.get('pending') is not None:
            self.own_dt = v / self.get('pending')
        self.pending = None

    def set_dt(self, v):
        self.own_dt = v
        if self.t is not None:
            self.pending = None

    def set_n(self, v):
        if self.t is not None:
            self.own_dt = self.t / v
            self.pending = None
        else:
            self.pending = v

    def connect(self, parent):
        """a value that is missing next to an own one is copied from the parent"""
        self.parent = None
        if self.pending is not None:
            if parent.t is not None:
                self.set_t(parent.t)
            elif parent.dt is not None:
                self.own_dt = parent.dt
        elif self.own_t is not None and self.own_dt is None:
            self.own_dt = parent.dt
        elif self.own_dt is not None and self.own_t is None:
            self.own_t = parent.t
        self.parent = parent

    def key(self):
        return (self.name, self.own_t, self.own_dt, self.pending, self.own_samples, self.own_del,
                self.parent and self.parent.name)


class TWorld:
    def __init__(self):
        self.i = {}      # name -> object with time parameters
        self.u = {}      # name -> callable that returns the unitary
        self.h = {}      # name -> Hamiltonian
        self.parts = {}  # name -> names of the steps
        self.r = {}

    def node(self, name, obj, parent=None, unitary=None, ham=None):
        self.i[name] = obj
        self.r[name] = Node(name, self.r.get(parent))
        if unitary is not None:
            self.u[name], self.h[name] = unitary, ham


SETTERS = {'t': ('totalTime', 'simTotalTime'), 'dt': ('stepSize', 'simStepSize'), 'n': ('stepCount', 'simStepCount'),
           'samples': ('samples', 'simSamples'), 'del': ('delStates', 'simDelStates')}


def s_set(name, what, val, how='sim'):
    def op(w):
        if name not in w.i:
            raise Disabled()
        obj, r = w.i[name], w.r[name]
        if isinstance(obj, qg.Simulation):
            setattr(obj, SETTERS[what][0], val)
        elif how == 'sim':
            setattr(obj, SETTERS[what][1], val)
        elif how == 'simulation':
            setattr(obj.simulation, SETTERS[what][0], val)
        else:   # delegated to the simulation of the object
            setattr(obj, SETTERS[what][0], val)
        if what == 'samples':
            r.own_samples = val
        elif what == 'del':
            r.own_del = val
        else:
            getattr(r, 'set_' + what)(val)
    return (f'{name}.{what}={val} ({how})', op)


def observe(w, n):
    obj, r = w.i[n], w.r[n]
    sim = obj if isinstance(obj, qg.Simulation) else obj.simulation
    equal(sim.stepSize, r.dt, f'{n}.stepSize')
    if r.t is not None:
        equal(sim.totalTime, r.t, f'{n}.totalTime')
    if r.t is not None and r.dt is not None:
        cnt = int(r.t // r.dt + 1)
        equal(sim.stepCount, cnt, f'{n}.stepCount')
        equal(list(sim.timeList), [k * r.dt for k in range(cnt + 1)], f'{n}.timeList')
    equal(sim.samples, r.samples, f'{n}.samples')
    equal(sim.delStates, r.delstates, f'{n}.delStates')
    if n in w.u and r.dt is not None:
        same(w.u[n](), uexp(w.h[n], r.dt / r.samples), f'{n}.unitary')
    steps = [w.r[s] for s in w.parts.get(n, ())]
    if steps and all(s.dt is not None for s in steps):
        same(obj.unitary(), uexp(SX, sum(s.dt / s.samples for s in steps)), f'{n}.unitary')


def s_read(name):
    def op(w):
        if name not in w.i:
            raise Disabled()
        observe(w, name)
    return (f'read {name}', op)


def final(order):
    def chk(w):
        for _ in range(2):
            for n in order:
                if n in w.i:
                    observe(w, n)
        for n in order:   # two of the three are enough
            r = w.r.get(n)
            if r is not None and r.t is None and r.dt is not None and r.pending is not None and r.parent is None:
                sim = w.i[n] if isinstance(w.i[n], qg.Simulation) else w.i[n].simulation
                equal(sim.stepCount, int((r.pending * r.dt) // r.dt + 1), f'{n}.stepCount')
                equal(sim.totalTime, r.pending * r.dt, f'{n}.totalTime')
    return chk


def state(w):
    return [r.key() for r in w.r.values()] + [(n, tuple(s)) for n, s in w.parts.items()]


def system(freq):
    s = qg.Spin(dimension=2, frequency=freq)
    s.operator = qg.sigmax
    return s


def b_sim():
    w = TWorld()
    w.node('S', qg.Simulation())
    return w


def b_sys():
    w = TWorld()
    a = system(1.0)
    w.node('a', a, None, a.unitary, SX)
    return w


def b_tree():
    """S > a > P > F and S > b"""
    w = TWorld()
    a, b = system(1.0), system(2.0)
    sim = qg.Simulation()
    P = qg.qProtocol(system=a)
    F = qg.freeEvolution(system=a)
    P.addStep(F)
    sim.addSubSys(a, P)
    sim.addSubSys(b)
    w.node('S', sim)
    w.node('a', a, 'S', a.unitary, SX)
    w.node('b', b, 'S', b.unitary, 2 * SX)
    w.node('P', P, 'a')
    w.node('F', F, 'P', F.unitary, SX)
    return w


def b_late():
    w = TWorld()
    w.node('S', qg.Simulation())
    a = system(1.0)
    w.node('a', a, None, a.unitary, SX)
    b = system(3.0)
    w.node('b', b, None, b.unitary, 3 * SX)
    return w


def s_connect(name):
    def op(w):
        r = w.r[name]
        if r.parent is not None or (r.pending is not None and r.own_dt is not None) or w.r['S'].pending is not None:
            raise Disabled()
        w.i['S'].addQSystems(w.i[name])
        r.connect(w.r['S'])
    return (f'S.addQSystems({name})', op)


def s_protocol(name, sysname):
    def op(w):
        r = w.r[sysname]
        own = (r.own_t is not None) + (r.own_dt is not None)
        if name in w.i or own == 1 or r.pending is not None:
            raise Disabled()
        p = qg.freeEvolution(system=w.i[sysname])
        w.node(name, p, sysname, p.unitary, w.h[sysname])
    return (f'{name}=freeEvolution({sysname})', op)


def s_addstep(name, step):
    """the step keeps its own values, and follows the protocol for the others (the first one, when it is shared)"""
    def op(w):
        r = w.r[step]
        if step in w.parts[name] or r.pending is not None:
            raise Disabled()
        if any(step in steps for steps in w.parts.values()):
            w.i[name].addStep(w.i[step])
            w.parts[name].append(step)
            return
        w.parts[name].append(step)
        w.i[name].addStep(w.i[step])
        r.parent = w.r[name]
    return (f'{name}.addStep({step})', op)


def b_steps():
    """S > a > P and Q, F and G are free evolutions of a"""
    w = TWorld()
    a = system(1.0)
    sim = qg.Simulation()
    sim.addSubSys(a)
    w.node('S', sim)
    w.node('a', a, 'S', a.unitary, SX)
    for n in 'PQ':
        w.node(n, qg.qProtocol(system=a), 'a')
        w.parts[n] = []
    for n in 'FG':
        p = qg.freeEvolution(system=a)
        w.node(n, p, 'a', p.unitary, SX)
    sim.totalTime = 2.0
    sim.stepSize = 0.5
    w.r['S'].set_t(2.0)
    w.r['S'].set_dt(0.5)
    return w


VALUES = {'t': [2.0, 2, 1, 0.7, 2 + 1e-9, 10, 1e3, np.float64(3.0), np.int64(4), 1e-9],
          'dt': [0.5, 1, 0.1, 0.5 + 1e-9, 0.25, 2, 1e-3, np.float64(0.5), np.float32(0.25), 1e-9],
          'n': [1, 2, 3, 4, 100, 5.0, np.int64(8)],
          'samples': [1, 2, 3, np.int64(2)]}


def near(a, b):
    return abs(a - b) <= 4e-16 * max(abs(a), abs(b))


def check_values(case):
    """values of any size and number type, on the top or on an inner object of a hierarchy"""
    name, sets, reads = case
    w = b_tree()
    for what, v in sets:
        s_set(name, what, v)[1](w)
        if reads:
            inspect(w, name, sets)
    for n in (name, 'S', 'a', 'b', 'P', 'F'):
        inspect(w, n, sets)


def inspect(w, n, sets):
    r, obj = w.r[n], w.i[n]
    sim = obj if isinstance(obj, qg.Simulation) else obj.simulation
    for attr, want in (('stepSize', r.dt), ('totalTime', r.t), ('samples', r.samples)):
        got = getattr(sim, attr)
        if got is None and want is None:
            continue
        if got is None or want is None or not near(got, want):
            raise Violation(f'{n}.{attr} is {got}, not {want} after {sets}')
    if r.t is not None and r.dt is not None and r.t / r.dt < 1e5:
        cnt = int(r.t // r.dt + 1)
        equal(sim.stepCount, cnt, f'{n}.stepCount after {sets}')
        got = list(sim.timeList)
        if len(got) != cnt + 1 or not all(near(x, k * r.dt) for k, x in enumerate(got)):
            raise Violation(f'{n}.timeList is {got[:4]}... of length {len(got)} after {sets}, not {cnt + 1} times with step {r.dt}')
    if n in w.u and r.dt is not None:
        same(w.u[n](), uexp(w.h[n], r.dt / r.samples), f'{n}.unitary after {sets}')


def value_cases(deep):
    pairs = [(x, v) for x, vals in VALUES.items() for v in vals]
    one = [p for p in pairs if p[0] in ('t', 'dt')]
    out = []
    for x, y in itertools.product(one, pairs):
        if x[0] != y[0]:
            out += [(n, (x, y), rd) for n in 'SaF' for rd in (False, True)]
            if x[0] == 'dt' and y[0] in ('n', 'samples'):
                continue
            out += [('S', (x, y, z), False) for z in pairs]
            if deep:
                out += [(n, (x, y, z), rd) for z in pairs for n in 'aPF' for rd in (False, True)]
    return out


def no_double(labels):
    return any(a == b for a, b in zip(labels, labels[1:]))


def components(tier):
    k = 1 if tier == 'thorough' else 0
    sim = [s_set('S', 't', 2.0), s_set('S', 't', 1.0), s_set('S', 't', 4.0), s_set('S', 'dt', 0.5), s_set('S', 'dt', 0.25),
           s_set('S', 'n', 4), s_set('S', 'n', 8), s_set('S', 'samples', 2), s_read('S')]
    sysm = [s_set('a', 't', 2.0), s_set('a', 't', 1.0, ''), s_set('a', 'dt', 0.5, 'simulation'), s_set('a', 'dt', 0.25),
            s_set('a', 'n', 4), s_set('a', 'n', 2, ''), s_set('a', 'n', 5), s_set('a', 'samples', 2), s_read('a')]
    tree = [s_set('S', 't', 2.0), s_set('S', 'dt', 0.5), s_set('S', 'dt', 0.25), s_set('S', 'samples', 2),
            s_set('S', 'del', True), s_set('a', 't', 1.0), s_set('a', 'dt', 0.125), s_set('a', 'n', 4),
            s_set('a', 'samples', 4), s_set('a', 'del', False), s_set('P', 'dt', 0.5), s_set('P', 't', 4.0, ''),
            s_set('F', 'dt', 1.0), s_set('F', 'samples', 3), s_set('b', 'dt', 0.5), s_set('b', 'n', 2), s_read('S'),
            s_read('a'), s_read('b'), s_read('P'), s_read('F')]
    late = [s_connect('a'), s_connect('b'), s_protocol('P', 'a'), s_set('S', 't', 2.0), s_set('S', 'dt', 0.5),
            s_set('S', 'dt', 0.25), s_set('a', 'dt', 1.0), s_set('a', 't', 4.0), s_set('b', 't', 1.0), s_set('b', 'dt', 0.125),
            s_set('a', 'n', 4), s_set('S', 'samples', 2), s_set('P', 'dt', 0.25), s_read('a'), s_read('P')]
    steps = [s_addstep('P', 'F'), s_addstep('P', 'G'), s_set('F', 'dt', 0.25), s_set('F', 'samples', 2), s_set('P', 'dt', 0.125),
             s_set('P', 'samples', 3), s_set('S', 'dt', 1.0), s_set('a', 'dt', 0.0625), s_set('G', 't', 4.0), s_read('F'),
             s_read('G'), s_read('P'), s_addstep('Q', 'F'), s_addstep('Q', 'G'), s_set('Q', 'dt', 2.0), s_read('Q')]
    # reads of a part of the values while the rest is not set are not defined
    def full(ops):
        return [(lab, (lambda f: lambda w: f(w))(f)) for lab, f in ops]
    return [
        Histories('simulation', b_sim, sim, final('S'), 5 + k, state, no_double),
        Histories('system', b_sys, sysm, final('a'), 4 + k, state, no_double),
        Histories('hierarchy', b_tree, full(tree), final('SaPFb'), 3 + k, state, no_double),
        Histories('steps', b_steps, steps, final('SaPFGQ'), 3 + k, state, no_double),
        Cases('values', lambda: value_cases(k), check_values, 100),
        Histories('connecting', b_late, full(late), final('SabP'), 4 + k, state, no_double),
    ]
