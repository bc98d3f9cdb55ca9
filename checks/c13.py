"""C13: results hold exactly the values that are stored during the run, once, in order, for the object they belong to."""
import itertools
import numpy as np
import quanguru as qg
from mc.core import Cases, Histories, Disabled, Violation
from mc.ref import ket, uexp, OPS
from mc.util import equal, dense

PROPERTY = 'C13'
LEVEL = 'model_checking'
ASSUMPTIONS = ['without an evolution function, compute is called once, and the state it gets is not defined',
               'averages are of numbers (documented limitation)',
               'a name that is stored at all is stored at least once for every combination of a sweep',
               'a list of a single value is unwrapped in the results of a sweep (behaviour of the library)']

NAMES = ('S', 'A', 'F', 'P', 'a', 'b')


class W:
    """systems a (qubit) and b (cavity), protocol F (free evolution of a), P (free evolution and a rotation of b), S a simulation"""
    def __init__(self):
        self.o = {}
        a = self.o['a'] = qg.Qubit(frequency=1.0, operator=qg.Jx)
        b = self.o['b'] = qg.Spin(frequency=2.0, dimension=2, operator=qg.Jy)
        a.initialState, b.initialState = 0, [0, 1]
        F = self.o['F'] = qg.freeEvolution(system=a)
        P = self.o['P'] = qg.qProtocol(system=b)
        P.addStep(qg.freeEvolution(system=b), qg.SpinRotation(system=b, angle=np.pi, rotationAxis='x'))
        S = self.o['S'] = qg.Simulation()
        self.o['A'] = a.simulation
        self.o['FS'] = F.simulation
        self.p = {'af': 1.0, 'bf': 2.0}
        self.entries = []
        self.sweeps = {'S': [], 'A': [], 'FS': []}
        self.time = {'S': (1.0, 0.5), 'A': (0.5, 0.5), 'FS': (1.0, 1.0)}
        self.dead = set()        # simulations without an evolution function
        for n in self.time:
            self.o[n].totalTime, self.o[n].stepSize = self.time[n]
        self.comp, self.calc = {}, {}
        self.frozen = False      # a simulation without an evolution is running
        self.kept = None         # results that have to be there at any time
        assert S

    def add(self, sysn, pro):
        if pro is None:
            self.o['S'].addQSystems(self.o[sysn])
        else:
            self.o['S'].addSubSys(self.o[sysn], self.o[pro])
        self.entries.append((sysn, pro))

    # ---- reference
    def unitary(self, sysn, pro, dt):
        u = uexp(self.p[sysn + 'f'] * OPS['Jx' if sysn == 'a' else 'Jy'](2), dt)
        return np.array([[0, -1j], [-1j, 0]]) @ u if pro == 'P' else u

    def step(self, sim, sysn, pro):
        """step size of a protocol: F has its own, the others have the one of the simulation"""
        return self.time['FS'][1] if pro == 'F' else self.time['A'][1] if (pro is None and sysn == 'a') else \
            self.time[sim][1]


def value(states):
    """number that is different for all the states of the alphabets"""
    if states is None:
        return -1.0
    if isinstance(states, list):
        return sum((k + 1) * value(s) for k, s in enumerate(states))
    d = dense(states)
    return complex(d[0, 0] + 0.5j * d[1, 0])


# kinds: (function that stores a value, names used); all return the list of (owner, 'results'/'calculated', name, value)
def comp_func(w, kind, name):
    count = itertools.count()

    def comp(obj, states):
        v, k, q = (-1.0 if w.frozen else value(states)), next(count), obj.qRes
        if kind == 'single':
            q.singleResult = 'x', v
        elif kind == 'method':
            q.resultsMethod('m', v)
        elif kind == 'reversed':
            q.resultsMethod(v, 'r')
        elif kind == 'dict':
            obj.resultsDict['x'].append(v)
        elif kind == 'average':
            q.resAverage = 'avg', v
        elif kind == 'two':
            q.singleResult = 'x', v
            q.resAverage = 'avg', 2 * v
            q.singleResult = 'y', (k, v)
            q.singleResult = 'x', -v
        elif kind == 'calculated':
            q.calculated = 'c', v
        elif kind == 'other':
            w.o['S'].qRes.singleResult = 'from ' + name, v
        elif kind == 'array':
            q.singleResult = 'arr', np.array([v, 2 * v])
    return comp


def comp_ref(kind, name, v, k, put):
    if kind in ('single', 'dict'):
        put(name, 'x', v)
    elif kind == 'method':
        put(name, 'm', v)
    elif kind == 'reversed':
        put(name, 'r', v)
    elif kind == 'average':
        put(name, 'avg', v, 'average')
    elif kind == 'two':
        put(name, 'x', v)
        put(name, 'avg', 2 * v, 'average')
        put(name, 'y', (k, v))
        put(name, 'x', -v)
    elif kind == 'calculated':
        put(name, 'c', v, 'calculated')
    elif kind == 'other':
        put('S', 'from ' + name, v)
    elif kind == 'array':
        put(name, 'arr', np.array([v, 2 * v]))


def calc_func(w, where, kind):
    def calc(obj):
        v = w.o['a'].frequency + (100 if where == 'pre' else 200)
        if kind == 'calculated':
            obj.qRes.calculated = 'c', v
        elif kind == 'single':
            obj.qRes.singleResult = 'x', v
        elif kind == 'average':
            obj.qRes.resAverage = 'avg', v
        elif kind == 'other':
            w.o['b'].qRes.calculated = 'd', v
        elif kind == 'final':      # uses what has been stored so far
            obj.qRes.calculated = 'n', sum(len(x) for x in obj.qRes.resultsDict.values() if isinstance(x, list))
    return calc


def expected(w, sim):
    """(results, calculated) by object, in the shape of the sweeps"""
    entries = w.entries if sim == 'S' else [('a', None if sim == 'A' else 'F')]
    T, dt = w.time[sim]
    n = int(T // dt + 1)
    groups = []
    for par, vals, comb in w.sweeps[sim]:
        if not groups or comb:
            groups.append([])
        groups[-1].append((par, vals))
    shape = [len(g[0][1]) for g in groups]
    calculated = {x: {} for x in w.o}
    points = []
    counters = {x: 0 for x in w.o}
    for idx in itertools.product(*(range(m) for m in shape)):
        for g, i in zip(groups, idx):
            for par, vals in g:
                w.p[par] = vals[i]
        res = {x: {} for x in w.o}
        avg = {}

        def put(owner, key, v, how='list'):
            if how == 'calculated':
                calculated[owner].setdefault(key, []).append(v)
            elif how == 'average':
                lst = avg.setdefault((owner, key), [])
                lst.append(v)
                res[owner][key] = sum(lst) / len(lst)
            else:
                res[owner].setdefault(key, []).append(v)

        def pre_post(where):
            for x in [sim] + [p for _, p in entries if p] + list(dict.fromkeys(s for s, _ in entries)):
                kind = w.calc.get((x, where))
                v = w.p['af'] + (100 if where == 'pre' else 200)
                if kind == 'calculated':
                    put(x, 'c', v, 'calculated')
                elif kind == 'single':
                    put(x, 'x', v)
                elif kind == 'average':
                    put(x, 'avg', v, 'average')
                elif kind == 'other':
                    put('b', 'd', v, 'calculated')
                elif kind == 'final':
                    put(x, 'n', sum(len(y) for y in res[x].values() if isinstance(y, list)), 'calculated')

        def comp(x, states):
            if x in w.comp:
                comp_ref(w.comp[x], x, value(states), counters[x], put)
                counters[x] += 1
        cur = [ket(2, 0) if s == 'a' else ket(2, [0, 1]) for s, _ in entries]
        us = [w.unitary(s, p, w.step(sim, s, p)) for s, p in entries]
        pre_post('pre')
        for k in range(n + 1 if sim not in w.dead else 1):
            if k:
                cur = [u @ c for u, c in zip(us, cur)]
            if sim not in w.dead:
                comp(sim, list(cur))
            for (_, p), c in zip(entries, cur):
                if p:
                    comp(p, None if sim in w.dead else c)
            seen = []
            for (s, _), c in zip(entries, cur):
                if s not in seen:
                    seen.append(s)
                    comp(s, None if sim in w.dead else c)
        pre_post('post')
        points.append(res)
    return shape, points, calculated


def same_value(got, want, what):
    if isinstance(want, list):
        if not isinstance(got, list) or len(got) != len(want):
            raise Violation(f'{what}: {got}, expected {len(want)} values')
        for k, (g, x) in enumerate(zip(got, want)):
            same_value(g, x, f'{what}[{k}]')
    elif isinstance(want, tuple):
        equal(isinstance(got, tuple) and len(got) == len(want), True, f'{what} is {got}')
        for g, x in zip(got, want):
            same_value(g, x, what)
    else:
        if isinstance(got, (list, tuple)) or np.shape(got) != np.shape(want) or not np.allclose(got, want, atol=1e-8):
            raise Violation(f'{what}: {got}, expected {want}')


def assemble(shape, points, owner, key):
    vals = [p[owner].get(key) for p in points]
    if not shape:
        return vals[0]
    vals = [v[0] if isinstance(v, list) and len(v) == 1 else v for v in vals]
    for m in reversed(shape[1:]):
        vals = [vals[i:i + m] for i in range(0, len(vals), m)]
    return vals


def run(w, sim, how='run', reset=True):
    if sim == 'S' and not w.entries:
        raise Disabled()
    for f in w.o.values():
        if getattr(f, 'compute', None) is not None:
            f.compute = attach(w, f.compute.name, f.compute.kind)   # starts to count again
    sw = w.o[sim]
    w.frozen = sim in w.dead
    if how == 'run':
        sw.run(resetRes=reset) if not reset else sw.run()
    elif how == 'runSimulation':
        if sim == 'S':
            raise Disabled()
        w.o['a' if sim == 'A' else 'F'].runSimulation()
    shape, points, calculated = expected(w, sim)
    new = {}
    for x in w.o:
        keys = {k for p in points for k in p[x]}
        new[x] = {k: assemble(shape, points, x, k) for k in keys}
    if not reset and w.kept is not None:
        old, oldc = w.kept
        new = {x: {**old[x], **new[x]} for x in new}
        calculated = {x: {k: oldc[x].get(k, []) + calculated[x].get(k, []) for k in {*oldc[x], *calculated[x]}}
                      for x in calculated}
    w.kept = (new, calculated)
    results(w, f'{sim}.{how}')


def results(w, label):
    if w.kept is None:
        return
    new, calculated = w.kept
    for x, obj in w.o.items():
        got = obj.qRes.resultsDict
        equal(sorted(got), sorted(new[x]), f'{label}: names in the results of {x}')
        for k, v in new[x].items():
            same_value(got[k], v, f'{label}: results {k} of {x}')
            if obj.resultsDict[k] is not got[k]:
                raise Violation(f'resultsDict of {x} and of its qRes')
        got = obj.qRes.calculated
        equal(sorted(got), sorted(calculated[x]), f'{label}: names of the calculated values of {x}')
        for k, v in calculated[x].items():
            same_value(got[k], v, f'{label}: calculated {k} of {x}')


def attach(w, name, kind):
    f = comp_func(w, kind, name)
    f.kind, f.name = kind, name
    return f


# -------------------------------------------------------------- operations
def s_comp(name, kind):
    def op(w):
        if kind is None:
            w.o[name].compute = None
            w.comp.pop(name, None)
        else:
            w.o[name].compute = attach(w, name, kind)
            w.comp[name] = kind
    return (f'{name}.compute={kind}', op)


def s_calc(name, where, kind):
    def op(w):
        if kind is None:
            w.calc.pop((name, where), None)
        else:
            w.calc[name, where] = kind
        setattr(w.o[name], where + 'Compute', None if kind is None else calc_func(w, where, kind))
    return (f'{name}.{where}Compute={kind}', op)


def s_sweep(sim, par, vals, comb=False):
    def op(w):
        sw = w.sweeps[sim]
        if len(sw) > 1 or any(p == par for p, _, _ in sw) or (sw and not comb and len(sw[-1][1]) != len(vals)):
            raise Disabled()
        w.o[sim].Sweep.createSweep(system=w.o[par[0]], sweepKey='frequency', sweepList=list(vals), combinatorial=comb)
        sw.append((par, vals, comb))
    return (f'{sim}.createSweep({par}, {vals}, {comb})', op)


def s_freq(par, val):
    def op(w):
        w.o[par[0]].frequency = val
        w.p[par] = val
    return (f'{par}={val}', op)


def s_time(sim, T, dt):
    def op(w):
        w.o[sim].totalTime, w.o[sim].stepSize = T, dt
        w.time[sim] = (T, dt)
    return (f'{sim} T={T} dt={dt}', op)


def s_evol(sim):
    def op(w):
        if sim in w.dead:
            raise Disabled()
        w.o[sim].evolFunc = None
        w.dead.add(sim)
    return (f'{sim}.evolFunc=None', op)


def s_run(sim, how='run', reset=True):
    return (f'{sim}.{how}({"" if reset else "resetRes=False"})', lambda w: run(w, sim, how, reset))


def final(sims):
    def check(w):
        results(w, 'before the last runs')
        for s in sims:
            if s != 'S' or w.entries:
                run(w, s)
        results(w, 'at the end')
    return check


def state(w):
    return (sorted(w.comp.items()), sorted(w.calc.items()), sorted(w.p.items()), w.sweeps, w.time, sorted(w.dead),
            w.kept is not None and repr(sorted(w.kept[0].items())))


def b_world(*entries):
    def build():
        w = W()
        for e in entries:
            w.add(*e)
        return w
    return build


def prune(labels):
    return any(a == b for a, b in zip(labels, labels[1:]))


# -------------------------------------------------------------- all pairs and triples of functions
def check_placement(case):
    """functions in several places, and sweeps"""
    places, sweep, *steps = case
    w = W()
    if steps:
        s_time('S', (steps[0] - 1) * 0.25, 0.25)[1](w)
    for e in (('a', 'F'), ('b', 'P')):
        w.add(*e)
    for name, where, kind in places:
        (s_comp(name, kind) if where == 'comp' else s_calc(name, where, kind))[1](w)
    for s in sweep:
        s_sweep('S', *s)[1](w)
    run(w, 'S')
    if steps:
        run(w, 'S')


def size_domain(deep):
    """long runs and sweeps: functions, sweeps, number of steps"""
    def vals(n):
        return tuple(0.25 * ((7 * k) % n if n % 7 else (5 * k) % n) + 0.25 for k in range(n))
    spots = [(n, 'comp', k) for n in ('S', 'P', 'a') for k in ('single', 'method', 'average', 'two', 'calculated', 'other', 'array')]
    spots += [(n, x, k) for n in ('S', 'F', 'b') for x in ('pre', 'post') for k in ('calculated', 'single', 'average', 'final')]
    out = []
    for i, p in enumerate(spots):
        for n in (9, 10, 11, 12, 33, 64, 100, 101, 129) + ((256, 257, 1001) if deep else ()):
            out.append(((p,), (), n))
        for n in (9, 10, 11, 12, 33, 101):
            out.append(((p,), (('af', vals(n), False),), 2))
        for n, m in ((11, 2), (2, 11), (10, 10), (3, 4)):
            out.append(((p,), (('af', vals(n), False), ('bf', vals(m), True)), 2))
        out.append(((p,), (('af', vals(11), False), ('bf', vals(11), False)), 1 + i % 3))
        out.append(((p,), (('af', vals(5), False),), 20))
    return out


def placement_domain(deep):
    spots = [(n, 'comp', k) for n in ('S', 'F', 'P', 'a', 'b') for k in
             ('single', 'method', 'reversed', 'dict', 'average', 'two', 'calculated', 'other', 'array')]
    spots += [(n, x, k) for n in ('S', 'F', 'P', 'a', 'b') for x in ('pre', 'post')
              for k in ('calculated', 'single', 'average', 'other', 'final')]
    sweeps = [(), (('af', (1.5, 0.5), False),), (('af', (1.5, 0.5, 2.5), False), ('bf', (0.25, 3.0), True)),
              (('bf', (1.5, 0.5), False), ('af', (0.25, 3.0), False)), (('af', (0.75,), False),)]
    out = []
    for i, p in enumerate(spots):
        out += [((p,), s) for s in sweeps]
        for j, q in enumerate(spots[i + 1:]):
            if (p[0], p[1]) != (q[0], q[1]):
                out += [((p, q), s) for s in ((sweeps if deep else [sweeps[(i + j) % 5]]))]
    return out


def components(tier):
    k = 1 if tier == 'thorough' else 0
    one = [s_comp('S', 'single'), s_comp('a', 'two'), s_comp('A', 'average'), s_comp('a', 'single'), s_comp('a', None),
           s_calc('a', 'pre', 'single'), s_calc('A', 'post', 'final'), s_calc('S', 'pre', 'average'),
           s_calc('a', 'post', 'calculated'), s_sweep('S', 'af', (1.5, 0.5)), s_sweep('A', 'af', (2.5, 0.25, 0.75)),
           s_freq('af', 3.0), s_time('S', 1.5, 0.5), s_evol('S'), s_evol('A'), s_run('S'), s_run('A'),
           s_run('A', 'runSimulation'), s_run('A', 'run', False), s_run('S', 'run', False)]
    sev = [s_comp('S', 'two'), s_comp('F', 'single'), s_comp('P', 'other'), s_comp('a', 'method'), s_comp('b', 'average'),
           s_comp('a', 'calculated'), s_calc('F', 'pre', 'single'), s_calc('P', 'post', 'final'),
           s_calc('b', 'post', 'average'), s_calc('S', 'pre', 'other'), s_sweep('S', 'af', (1.5, 0.5)),
           s_sweep('S', 'bf', (0.25, 3.0), True), s_sweep('S', 'bf', (0.5, 0.75)), s_sweep('FS', 'af', (2.5,)),
           s_time('FS', 2.0, 1.0), s_evol('FS'), s_run('S'), s_run('FS'), s_run('FS', 'runSimulation'),
           s_run('FS', 'run', False)]
    return [
        Histories('one system', b_world(('a', None)), one, final(('S', 'A')), 3 + k, state, prune),
        Histories('two protocols', b_world(('a', 'F'), ('b', 'P')), sev, final(('FS', 'S')), 3 + k, state, prune),
        Histories('three entries', b_world(('b', None), ('b', 'P'), ('a', 'F')), sev, final(('S', 'FS')), 2 + k, state,
                  prune),
        Cases('long runs and sweeps', lambda: size_domain(k), check_placement, 12),
        Cases('placements', lambda: placement_domain(k), check_placement),
    ]
