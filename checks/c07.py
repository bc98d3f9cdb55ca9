"""C07: multi-processing runs give the results of the serial run for every schedule of the sweep points."""
import itertools

import numpy as np
import quanguru as qg
from mc.core import Histories, Cases, Disabled
from mc.fakepool import Schedule, controlled, partitions, orders
from mc.ref import OPS, kron, uexp, ket
from mc.util import equal, same, dense

PROPERTY = 'C07'
LEVEL = 'model_checking'
ASSUMPTIONS = ['worker processes are forked, and share nothing but the tasks and their return values, so the assignment of '
               'the tasks and the order of their completion are the only decisions of the scheduler',
               'functions given by the user reach objects through their arguments (functions are pickled by reference)']


# ------------------------------------------------ functions of the user, pickled by reference
def sim_compute(sim, states):
    k = 0
    for st in states:
        a = dense(st)
        sim.qRes.singleResult = 'w%d' % k, tuple(np.round(np.abs(a.reshape(-1)), 9))
        k += 1
    sim.qRes.resAverage = 'avg', float(np.abs(dense(states[0]).reshape(-1)[0]))
    sim.qRes.resultsMethod('time', sim._currentTime)


def sys_compute(s, state):
    s.qRes.singleResult = 'f', float(np.abs(dense(state)).reshape(-1)[0])


def sys_freq(s, state):
    s.qRes.singleResult = 'freq', s.frequency if not isinstance(s.frequency, np.ndarray) else None


def no_compute(s, state):
    s.qRes.singleResult = 'H', float(np.abs(dense(s.totalHamiltonian)).sum())


def pro_compute(p, state):
    p.qRes.singleResult = 'p', float(np.abs(dense(state)).reshape(-1)[-1])


def pre(obj):
    obj.qRes.calculated = 'pre', obj.name


def post(obj):
    obj.qRes.calculated = 'post', sum(len(v) for v in obj.qRes.resultsDict.values() if isinstance(v, list))


def sim_pre(sim):
    # a value of the sweep point, stored without the evolution
    sim.qRes.calculated = 'H', float(np.abs(dense(sim.qSystems[0].totalHamiltonian)).sum())


def aux_compute(sim, states):
    sim.qRes.singleResult = 'aux', sim.auxDict.get('knob')
    sim.qRes.singleResult = 'obj', getattr(sim.auxObj, 'knob', None)


def counting_sweep(sw):
    for s in sw.subSys.values():
        s.frequency = sw.sweepList[sw.index] * 2


def td(term, time):
    term.frequency = 0.5 + time


# ------------------------------------------------ configurations: () -> (simulation, objects)
def base(comp=True):
    a = qg.Cavity(dimension=3, frequency=1.0)
    b = qg.Qubit(frequency=2.0)
    s = a + b
    g = s.createTerm(operator=[qg.create, qg.sigmam], qSystem=[a, b], frequency=0.3)
    g2 = s.createTerm(operator=[qg.destroy, qg.sigmap], qSystem=[a, b], frequency=0.3)
    a.initialState = 1
    b.initialState = [0, 1]
    s.simStepSize = 0.5
    s.simTotalTime = 0.5
    if comp:
        s.simCompute = sim_compute
        s.compute = sys_compute
    return s, a, b, g, g2


def k_none():
    s, a, b, g, g2 = base()
    s.simulation.preCompute = sim_pre
    return s.simulation, [s]


def k_one():
    s, a, b, g, g2 = base()
    s.simulation.preCompute = sim_pre
    s.simulation.postCompute = post
    s.simulation.Sweep.createSweep(system=a, sweepKey='frequency', sweepList=[0.5, 1.5, 1.0])
    return s.simulation, [s]


def k_two():
    s, a, b, g, g2 = base()
    s.preCompute = pre
    s.postCompute = post
    s.simulation.Sweep.createSweep(system=a, sweepKey='frequency', sweepList=[0.5, 1.5], combinatorial=True)
    s.simulation.Sweep.createSweep(system=[g, g2], sweepKey='frequency', sweepList=[0.0, 0.4], combinatorial=True)
    return s.simulation, [s]


def k_parallel_sweeps():
    s, a, b, g, g2 = base()
    s.simulation.Sweep.createSweep(system=a, sweepKey='frequency', sweepList=[0.5, 1.5, 0.75, 0.25])
    s.simulation.Sweep.createSweep(system=b, sweepKey='frequency', sweepList=[1.0, 2.0, 3.0, 4.0])
    return s.simulation, [s]


def k_dim():
    s, a, b, g, g2 = base()
    s.simulation.preCompute = sim_pre
    s.simulation.Sweep.createSweep(system=a, sweepKey='dimension', sweepList=[2, 4, 3])
    return s.simulation, [s]


def k_state():
    s, a, b, g, g2 = base()
    s.simulation.Sweep.createSweep(system=a, sweepKey='initialState', sweepList=[0, [0, 2], 2])
    return s.simulation, [s]


def k_time():
    s, a, b, g, g2 = base()
    s.simulation.Sweep.createSweep(system=s.simulation, sweepKey='stepSize', sweepList=[0.5, 0.25, 1.0])
    return s.simulation, [s]


def k_protocol():
    s, a, b, g, g2 = base()
    p = qg.qProtocol(system=s)
    f = qg.freeEvolution(system=s)
    r = qg.SpinRotation(system=b, angle=0.3, rotationAxis='x')
    p.addStep(f, r)
    f.createUpdate(system=a, key='frequency', value=0.1)
    sim = qg.Simulation()
    sim.addSubSys(s, p)
    sim.stepSize = 0.5
    sim.totalTime = 0.5
    sim.compute = sim_compute
    p.compute = pro_compute
    s.compute = sys_compute
    p.preCompute = pre
    p.postCompute = post
    sim.Sweep.createSweep(system=r, sweepKey='angle', sweepList=[0.1, 0.7, 0.2, 0.9])
    return sim, [s, p]


def k_two_systems():
    a = qg.Cavity(dimension=3, frequency=1.0)
    b = qg.Qubit(frequency=2.0)
    a.initialState = 1
    b.initialState = [0, 1]
    b.operator = qg.sigmax
    sim = qg.Simulation()
    sim.addSubSys(a)
    sim.addSubSys(b)
    sim.stepSize = 0.5
    sim.totalTime = 1.0
    sim.compute = sim_compute
    a.compute = sys_freq
    b.compute = sys_freq
    a.preCompute = pre
    b.postCompute = post
    sim.Sweep.createSweep(system=a, sweepKey='frequency', sweepList=[0.5, 1.5], combinatorial=True)
    sim.Sweep.createSweep(system=b, sweepKey='frequency', sweepList=[2.5, 0.25], combinatorial=True)
    return sim, [a, b]


def k_open():
    s, a, b, g, g2 = base()
    e = qg.dissipatorObj(system=b, jOper=qg.sigmam(), jRate=0.2)
    f = s._freeEvol
    sim = s.simulation
    e.addToProtocol(f)
    sim.Sweep.createSweep(system=e, sweepKey='jRate', sweepList=[0.1, 0.5, 0.3])
    return sim, [s]


def k_td():
    s, a, b, g, g2 = base()
    t = a.createTerm(operator=qg.number, frequency=0.2)
    t.timeDependency = td
    s.simulation.Sweep.createSweep(system=b, sweepKey='frequency', sweepList=[1.0, 2.0, 0.5])
    return s.simulation, [s]


def k_del():
    s, a, b, g, g2 = base()
    s.simDelStates = True
    s.simulation.Sweep.createSweep(system=b, sweepKey='frequency', sweepList=[1.0, 2.0, 0.5])
    return s.simulation, [s]


def k_aux():
    s, a, b, g, g2 = base()
    s.simCompute = aux_compute
    s.simulation.Sweep.createSweep(system=s, sweepKey='knob', sweepList=[1, 2], combinatorial=True)
    s.simulation.Sweep.createSweep(system=s.auxObj, sweepKey='knob', sweepList=['x', 'y'], combinatorial=True)
    return s.simulation, [s]


def k_custom():
    s, a, b, g, g2 = base()
    s.simulation.Sweep.createSweep(system=a, sweepKey='frequency', sweepList=[0.5, 1.5, 0.75], sweepFunction=counting_sweep)
    return s.simulation, [s]


def k_long():
    # more points than four times the number of the processes
    s, a, b, g, g2 = base()
    s.preCompute = pre
    s.postCompute = post
    s.simulation.preCompute = sim_pre
    s.simDelStates = True
    s.simulation.Sweep.createSweep(system=a, sweepKey='frequency', sweepList=[0.5 + 0.25 * i for i in range(9)])
    return s.simulation, [s]


def many(n, m=None):
    def config():
        s, a, b, g, g2 = base()
        s.preCompute = pre
        s.postCompute = post
        s.simulation.Sweep.createSweep(system=a, sweepKey='frequency', sweepList=[0.5 + 0.25 * ((5 * i) % n) for i in range(n)])
        if m is not None:
            s.simulation.Sweep.createSweep(system=[g, g2], sweepKey='frequency', combinatorial=True,
                                           sweepList=[0.125 * ((2 * i) % m) for i in range(m)])
        return s.simulation, [s]
    return config


def k_noevol():
    s, a, b, g, g2 = base()
    s.simulation.evolFunc = None
    s.compute = no_compute
    s.simulation.preCompute = sim_pre
    s.simulation.Sweep.createSweep(system=a, sweepKey='frequency', sweepList=[0.5, 1.5, 1.0, 2.0])
    return s.simulation, [s]


CONFIGS = {k[2:]: v for k, v in list(globals().items()) if k.startswith('k_')}
MANY = {'many5': (5,), 'many8': (8,), 'many11': (11,), 'many17': (17,), 'many33': (33,), 'many65': (65,), 'grid 11 3': (11, 3),
        'grid 3 11': (3, 11), 'grid 2 5': (2, 5)}
CONFIGS.update({k: many(*v) for k, v in MANY.items()})
NTASKS = {**{k: v[0] * (v + (1,))[1] for k, v in MANY.items()},
          'none': 1, 'one': 3, 'two': 4, 'parallel_sweeps': 4, 'dim': 3, 'state': 3, 'time': 3, 'protocol': 4,
          'two_systems': 4, 'open': 3, 'td': 3, 'del': 3, 'aux': 4, 'custom': 3, 'noevol': 4, 'long': 9}


def observe(sim, objs, got):
    out = {'returned': got, 'states': dict(sim.states), 'results': dict(sim.resultsDict),
           'calculated': dict(sim.qRes.calculated)}
    for i, o in enumerate(objs):
        out[f'object {i} results'] = dict(o.resultsDict)
        out[f'object {i} states'] = dict(o.states)
        out[f'object {i} calculated'] = dict(o.qRes.calculated)
    return norm(out)


def norm(x):
    if isinstance(x, dict):
        return {k: norm(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [norm(v) for v in x]
    if hasattr(x, 'toarray') or isinstance(x, np.ndarray):
        return dense(x)
    return x


def compare(got, want, what):
    if isinstance(want, dict):
        equal(list(got) if isinstance(got, dict) else got, list(want), f'{what}: keys')
        for k in want:
            compare(got[k], want[k], f'{what}[{k!r}]')
    elif isinstance(want, list):
        equal(isinstance(got, list), True, f'{what} is a list')
        equal(len(got), len(want), f'{what}: length')
        for k, (g, w) in enumerate(zip(got, want)):
            compare(g, w, f'{what}[{k}]')
    elif isinstance(want, np.ndarray):
        same(got, want, what, 1e-12)
    elif isinstance(want, float):
        equal(isinstance(got, float) and abs(got - want) < 1e-12, True, f'{what}: {got!r} is {want!r}')
    else:
        equal(got, want, what)


SERIAL = {}


def serial(name):
    if name not in SERIAL:
        from mc.core import reset_library
        sim, objs = CONFIGS[name]()
        SERIAL[name] = observe(sim, objs, sim.run(p=False))
        reset_library()
    return SERIAL[name]


def check_schedule(case):
    name, workers, assignment, order, way = case
    want = serial(name)
    sim, objs = CONFIGS[name]()
    with controlled(Schedule(assignment, order)):
        if way == 'core':
            got = sim.run(p=True, coreCount=workers)
        elif way == 'pool':
            import multiprocessing
            pool = multiprocessing.Pool(processes=workers)
            got = sim.run(p=pool)
            pool.terminate()
        elif way == 'memory':   # the number of cores of the previous multi-processing run is used again
            sim.run(p=True, coreCount=workers)
            got = sim.run()
        elif way == 'system':
            got = objs[0].runSimulation(p=True, coreCount=workers) if objs[0].simulation is sim else sim.run(p=True,
                                                                                             coreCount=workers)
        elif way == 'all':
            got = sim.run(p=True, coreCount='all')
        elif way == 'default':
            got = sim.run(p=True)
    compare(observe(sim, objs, got), want, f'{name}')


def schedules(deep):
    out = []
    for name, n in NTASKS.items():
        if n > 4:
            alt = tuple(i % 2 for i in range(n))
            out += [(name, 1, (0,) * n, None, 'core'), (name, 2, alt, None, 'core'), (name, 2, alt, None, 'memory'),
                    (name, 2, (0,) * (n // 2) + (1,) * (n - n // 2), None, 'core'),
                    (name, 3, tuple((i * i) % 3 for i in range(n)), tuple(reversed(range(n))), 'core'),
                    (name, 3, tuple(i % 3 for i in range(n)), tuple(i for r in range(3) for i in range(n) if i % 3 == r), 'core'),
                    (name, 7, tuple(6 - i % 7 for i in range(n)), None, 'default')]
            continue
        for workers in ((1, 2, 3, 4) if deep else (1, 2, 3)):
            parts = [p for p in partitions(n, workers) if workers == 1 or len(set(p)) == workers or workers > n]
            for p in parts:
                ords = list(orders(p))
                if n > 3 and not deep:   # first, last, and a middle one
                    ords = [ords[0], ords[-1]] if len(ords) > 1 else ords
                for o in dict.fromkeys(ords):
                    out.append((name, workers, p, o, 'core'))
        for way in ('pool', 'memory', 'system'):
            out.append((name, 2, tuple(i % 2 for i in range(n)), None, way))
        for way in ('all', 'default'):
            out.append((name, 7, tuple(range(n)), tuple(reversed(range(n))), way))
    return out


# ------------------------------------------------ histories of serial and parallel runs
class W:
    def __init__(self):
        self.s, self.a, self.b, self.g, self.g2 = base()
        self.sim = self.s.simulation
        self.p = {'a': 1.0, 'b': 2.0, 'd': 3, 'dt': 0.5}
        self.la, self.lb = [0.5, 1.5], None
        self.swa = self.sim.Sweep.createSweep(system=self.a, sweepKey='frequency', sweepList=list(self.la))
        self.swb = None
        self.used = None


def ref_states(p):
    na, ib = OPS['number'](p['d']), np.eye(2)
    h = p['a'] * np.kron(na, ib) + p['b'] * np.kron(np.eye(p['d']), OPS['Jz'](2))
    h = h + 0.3 * (np.kron(OPS['create'](p['d']), OPS['sigmam'](2)) + np.kron(OPS['destroy'](p['d']), OPS['sigmap'](2)))
    st = [kron(ket(p['d'], 1), ket(2, [0, 1]))]
    u = uexp(h, p['dt'])
    for _ in range(int(0.5 // p['dt'] + 1)):
        st.append(u @ st[-1])
    return st


def check_run(w, got):
    lb = w.lb or [None]
    for i, fa in enumerate(w.la):
        for j, fb in enumerate(lb):
            p = {**w.p, 'a': fa}
            if fb is not None:
                p['b'] = fb
            st = ref_states(p)
            g = got[i] if w.lb is None else got[i][j]
            r = w.sim.resultsDict['w0'][i] if w.lb is None else w.sim.resultsDict['w0'][i][j]
            equal(len(g), len(st), 'number of states')
            equal(len(r), len(st), 'number of results')
            for k, x in enumerate(st):
                same(g[k], x, f'state {k} of {p}')
                same(np.array(r[k]), np.round(np.abs(x.reshape(-1)), 9), f'result {k} of {p}', 1e-7)
    equal(len(got), len(w.la), 'number of sweep points')


def s_run(par, assignment=()):
    def op(w):
        if par:
            with controlled(Schedule(assignment)):
                got = w.sim.run(p=True, coreCount=par)
        else:
            got = w.sim.run(p=False)
        check_run(w, got)
        if not par:   # the serial run leaves the values of the last sweep point
            w.p['a'] = w.la[-1]
            if w.lb:
                w.p['b'] = w.lb[-1]
    return (f'run({par}, {assignment})', op)


def s_par(what, val):
    def op(w):
        if what == 'b':
            w.b.frequency = val
        elif what == 'd':
            w.a.dimension = val
        else:
            w.sim.stepSize = val
        w.p[what] = val
    return (f'{what}={val}', op)


def s_list():
    def op(w):
        w.la = [0.25, 0.75, 1.25] if len(w.la) == 2 else [0.5, 1.5]
        w.swa.sweepList = list(w.la)
    return ('change the list', op)


def s_second():
    def op(w):
        if w.swb is None:
            w.lb = [3.0, 1.0]
            w.swb = w.sim.Sweep.createSweep(system=w.b, sweepKey='frequency', sweepList=list(w.lb), combinatorial=True)
        else:
            w.sim.Sweep.removeSweep(w.swb)
            w.swb = w.lb = None
    return ('add or remove the second sweep', op)


def final(w):
    s_run(2, (0, 0, 1, 0, 1, 1))[1](w)
    s_run(0)[1](w)


def state(w):
    return (sorted(w.p.items()), tuple(w.la), tuple(w.lb or ()))


def prune(labels):
    return any(a == b and not a.startswith('run') for a, b in zip(labels, labels[1:]))


def components(tier):
    deep = tier == 'thorough'
    ops = [s_run(0), s_run(2, (0, 1, 1, 0, 0, 1)), s_run(3, (0, 1, 2, 0, 2, 1)), s_run(1), s_par('b', 0.5), s_par('d', 2),
           s_par('dt', 0.25), s_list(), s_second()]
    return [
        Cases('schedules', lambda: schedules(deep), check_schedule, chunk=20),
        Histories('serial and parallel runs', W, ops, final, 4 if deep else 3, state, prune),
    ]
