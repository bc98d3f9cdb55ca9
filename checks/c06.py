"""C06: a sweep visits every combination of the parameters exactly once, in order, and returns results in its shape."""
import itertools

import numpy as np
import quanguru as qg
from mc.core import Histories, Cases, Disabled
from mc.ref import OPS, SX, ket, kron, mpow, uexp
from mc.util import equal, same

PROPERTY = 'C06'
LEVEL = 'model_checking'
ASSUMPTIONS = ['sweeps that are swept in parallel follow each other and have lists of the same length, as documented',
               'a list of a single step is unwrapped in the results of a sweep (behaviour of the library)']


class SW:
    """A cavity (2 terms), a qubit, and a coupling in a composite system with their parameters in self.p"""
    def __init__(self, evolve=True):
        self.p = {'af': 1.0, 'tf': 0.3, 'to': 1, 'bf': 2.0, 'gf': 0.1, 'go': [1, 1], 'ad': 3, 'ai': 1, 'bi': 0, 'dt': 0.5,
                  'T': 0.5, 'aux': None, 'gop': 'Jx'}
        self.evolve = evolve
        self.a = qg.Cavity(dimension=3, frequency=1.0, alias='cav')
        self.t = self.a.createTerm(operator=qg.number, frequency=0.3, order=1)
        self.b = qg.Qubit(frequency=2.0)
        self.s = self.a + self.b
        self.g = self.s.createTerm(operator=[qg.number, qg.Jx], qSystem=[self.a, self.b], frequency=0.1, order=[1, 1])
        self.s2 = self.s.createTerm(operator=[qg.number, qg.Jy], qSystem=[self.a, self.b], frequency=0.2, order=[1, 1])
        self.a.initialState = 1
        self.b.initialState = 0
        self.s.simStepSize = 0.5
        self.s.simTotalTime = 0.5
        self.sim = self.s.simulation
        if not evolve:
            self.sim.evolFunc = None
        self.calls = []       # values of the parameters for each combination, in the order of evaluation
        self.sim.preCompute = lambda sim: self.calls.append(self.values())
        self.sim.compute = self.compute
        self.cnt = 0
        self.sim.qRes.auxDict['x'] = None
        self.sweeps = []      # (sweep, spec)

    def values(self):
        return {'af': self.a.frequency, 'tf': self.t.frequency, 'to': self.t.order, 'bf': self.b.frequency,
                'gf': self.g.frequency, 'go': self.g.order, 'ad': self.a.dimension, 'dt': self.sim.stepSize,
                'T': self.sim.totalTime, 'aux': self.sim.auxDict.get('x')}

    def compute(self, sim, states):
        self.cnt += 1
        v = self.values()
        sim.qRes.singleResult = 'vals', tuple(sorted(v.items(), key=str))
        sim.qRes.singleResult = 'count', self.cnt

    # ---- reference
    def ham(self, p):
        d = p['ad']
        na, ib, ia = OPS['number'](d), np.eye(2), np.eye(d)
        h = np.kron(p['af'] * na + p['tf'] * mpow(na, p['to']), ib)
        h = h + np.kron(ia, p['bf'] * OPS['Jz'](2))
        h = h + p['gf'] * np.kron(mpow(na, p['go'][0]), mpow(OPS['Jx'](2), p['go'][1]))
        h = h + 0.2 * np.kron(na, OPS['Jy'](2))
        if 'h2' in p:
            h = h + p['h2'] * np.kron(na, OPS['Jz'](2)) + p['h3'] * np.kron(na @ na, OPS['Jz'](2))
        return h

    def states(self, p):
        n = int(p['T'] // p['dt'] + 1)
        st = [kron(ket(p['ad'], p['ai']), ket(2, p['bi']))]
        u = uexp(self.ham(p), p['dt'])
        for _ in range(n):
            st.append(u @ st[-1])
        return st


#: name -> (target of the sweep, key, parameters it sets, values)
TARGETS = {
    'af': (lambda w: w.a, 'frequency', ('af',), (1.5, 0.25, 0.75)),
    'af alias': (lambda w: 'cav', 'frequency', ('af',), (1.25, 0.5, 0.375)),
    'ab': (lambda w: [w.a, w.b], 'frequency', ('af', 'bf'), (0.625, 1.0, 3.0)),
    'bf': (lambda w: w.b.name, 'frequency', ('bf',), (2.5, 2.0, 0.5)),
    'tf': (lambda w: w.t, 'frequency', ('tf',), (0.7, 0.0, 0.2)),
    'to': (lambda w: w.t, 'order', ('to',), (2, 1, 3)),
    'gf': (lambda w: w.g, 'frequency', ('gf',), (0.5, 0.0, 0.9)),
    'go': (lambda w: w.g, 'order', ('go',), ([1, 2], [2, 1], [3, 1])),
    'ad': (lambda w: w.a, 'dimension', ('ad',), (2, 4, 3)),
    'ai': (lambda w: w.a, 'initialState', ('ai',), (0, 1, [0, 1])),
    'bi': (lambda w: w.b, 'initialState', ('bi',), (1, 0, [0, 1])),
    'dt': (lambda w: None, 'stepSize', ('dt',), (0.25, 0.125, 0.5)),
    'dt sys': (lambda w: w.s, 'simStepSize', ('dt',), (0.25, 0.125, 0.0625)),
    'T': (lambda w: w.sim, 'totalTime', ('T',), (1.0, 0.5, 2.0)),
    'aux': (lambda w: w.a.auxObj, 'x', ('aux',), (7, 8, 9)),
    'aux key': (lambda w: w.a, 'x', ('aux',), ('u', 'v', 'w')),
}


def add(w, target, length, comb, values=None, how='list'):
    tgt, key, ps, vals = TARGETS[target]
    vals = list(vals[:length]) if values is None else list(values)
    if target == 'aux':
        # the value goes to the auxiliary object
        sw = w.sim.Sweep.createSweep(system=w.a.auxObj, sweepKey='x', sweepList=vals, combinatorial=comb)
        kind = 'auxobj'
    else:
        kw = dict(sweepKey=key, combinatorial=comb)
        sysm = tgt(w)
        if sysm is not None:
            kw['system'] = sysm
        if how == 'list':
            kw['sweepList'] = vals
        elif how == 'tuple':
            kw['sweepList'] = tuple(vals)
        elif how == 'array':
            kw['sweepList'] = np.array(vals)
        sw = w.sim.Sweep.createSweep(**kw)
        if how == 'later':
            sw.sweepList = vals
        kind = 'set'
    w.sweeps.append([sw, target, vals, comb, kind])
    return sw


def combos(w):
    """(shape, list of parameter dictionaries in the order of the evaluation)"""
    groups = []
    for sw, target, vals, comb, _ in w.sweeps:
        if not groups or comb:
            groups.append([])
        groups[-1].append((target, vals))
    shape = [len(g[0][1]) for g in groups]
    out = []
    for idx in itertools.product(*(range(n) for n in shape)):
        p = dict(w.p)
        for g, i in zip(groups, idx):
            for target, vals in g:
                for k in TARGETS[target][2]:
                    p[k] = vals[i]
        out.append(p)
    return shape, out


def get(res, idx):
    for i in idx:
        res = res[i]
    return res


def nested(shape, res, what):
    if shape:
        equal(isinstance(res, list), True, f'{what} is a list')
        equal(len(res), shape[0], f'{what}: length of the results')
        for i, r in enumerate(res):
            nested(shape[1:], r, f'{what}[{i}]')


def run(w, auxobj=False):
    """run, compare everything, and keep the last values of the parameters"""
    w.calls.clear()
    w.cnt = 0
    auxobj = any(s[4] == 'auxobj' for s in w.sweeps)
    if auxobj:
        w.values = lambda base=SW.values: {**base(w), 'aux': w.a.auxObj.x if hasattr(w.a.auxObj, 'x') else None}
    got = w.sim.run()
    shape, ps = combos(w)
    if w.sweeps:
        keys = w.values().keys()
        equal(len(w.calls), len(ps), 'number of the evaluated combinations')
        for k, (c, p) in enumerate(zip(w.calls, ps)):
            equal(c, {x: p[x] for x in keys}, f'parameters of the evaluation {k}')
    else:
        equal(len(w.calls), 1, 'number of evaluations without sweeps')
    res = w.sim.resultsDict
    nested(shape, res['vals'], 'results')
    cnt = 0
    for idx, p in zip(itertools.product(*(range(n) for n in shape)), ps):
        want = tuple(sorted(((x, p[x]) for x in w.values()), key=str))
        vals, counts = get(res['vals'], idx), get(res['count'], idx)
        if w.evolve:
            st = w.states(p)
            sts = get(got, idx)
            equal(len(sts), len(st), f'number of states of {idx}')
            for k, (a, b) in enumerate(zip(sts, st)):
                same(a, b, f'state {k} of the combination {idx}')
            n = len(st)
        elif w.sweeps:
            n, vals, counts = 1, [vals], [counts]
        else:
            n = 0
        if n:
            equal([tuple(v) for v in vals], [want] * n, f'stored values of {idx}')
            equal(list(counts), list(range(cnt + 1, cnt + n + 1)), f'results of {idx} in the order of evaluation')
        cnt += n
    if w.sweeps:
        w.p.update(ps[-1])   # the values of the last combination stay


# ---------------------------------------------------------------- shapes
def shape_domain(nmax, lmax, l4):
    out = []
    for n in range(1, nmax + 1):
        for flags in itertools.product((True, False), repeat=n):
            ngroups = 1 + sum(flags[1:])
            for lens in itertools.product(range(1, (lmax if n < 4 else l4) + 1), repeat=ngroups):
                out.append((flags, lens))
    return out


ORDER = ('af', 'gf', 'bf', 'tf')
LISTS = {'af': (1.5, 0.25, 0.75, 1.75), 'gf': (0.5, 0.0, 0.9, 0.2), 'bf': (2.5, 2.0, 0.5, 0.1), 'tf': (0.7, 0.0, 0.2, 0.1),
         'dt': (0.5, 0.25, 0.125, 1.0)}


def check_shape(case):
    flags, lens = case
    w = SW()
    w.s.simTotalTime = 0.25   # a single step
    w.p['T'] = 0.25
    g = -1
    for i, f in enumerate(flags):
        if i == 0 or f:
            g += 1
        t = ORDER[i]
        add(w, t, None, f, LISTS[t][:lens[g]])
    run(w)
    run(w)


# ---------------------------------------------------------------- long lists and many sweeps
NUMBERS = ('af', 'gf', 'bf', 'tf', 'aux key', 'bf2', 'af2')
TARGETS['bf2'] = (lambda w: w.h2, 'frequency', ('h2',), ())
TARGETS['af2'] = (lambda w: w.h3, 'frequency', ('h3',), ())


def size_domain(deep):
    """((combinatorial, length), ...) of the sweeps"""
    out = [((True, n),) for n in tuple(range(4, 26)) + (31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 300)]
    out += [((True, n), (False, n)) for n in (10, 11, 12, 33, 64, 101)]
    out += [((True, n), (True, m)) for n in (2, 5, 9, 10, 11, 12, 17) for m in (2, 5, 9, 10, 11, 12, 17)]
    out += [((True, a), (True, b), (True, c)) for a, b, c in itertools.permutations((2, 3, 10))]
    out += [((True, 11), (True, 2), (False, 2)), ((True, 11), (False, 11), (True, 2)), ((True, 1), (True, 11), (True, 1)),
            ((True, 10), (True, 10), (True, 2))]
    for n in (4, 5, 6, 7):
        out += [tuple((f or not i, 2) for i, f in enumerate(flags)) for flags in itertools.product((True, False), repeat=n)
                if not flags[0] and (deep or n < 6 or sum(flags) in (0, 1, 2, n - 1))]
        out += [((True, 3),) * n] if n < 6 else []
    return out


def check_size(case):
    w = SW()
    w.s.simTotalTime = w.p['T'] = 0.25   # a single step
    w.h2 = w.s.createTerm(operator=[qg.number, qg.Jz], qSystem=[w.a, w.b], frequency=0.3)
    w.h3 = w.s.createTerm(operator=[qg.number, qg.Jz], qSystem=[w.a, w.b], frequency=0.4, order=[2, 1])
    w.p.update(h2=0.3, h3=0.4)
    w.values = lambda base=w.values: {**base(), 'h2': w.h2.frequency, 'h3': w.h3.frequency}
    for i, (comb, n) in enumerate(case):
        # values that are not in order
        add(w, NUMBERS[i], None, comb, [round(0.25 * ((7 * k + i) % n) + 0.5 * i + 0.125, 3) if n % 7 else
                                        round(0.25 * ((5 * k + i) % n) + 0.5 * i + 0.125, 3) for k in range(n)])
    run(w)


# ---------------------------------------------------------------- sweeps without the default evolution
def check_evol(case):
    flags, lens, how = case
    w = SW(evolve=False)
    w.s.compute = lambda q, state: w.compute(w.sim, [state])
    w.sim.compute = None
    if how == 'user':
        def evol(sim):
            w.compute(sim, [])
        w.s.compute = None
        w.sim.evolFunc = evol
    g = -1
    for i, f in enumerate(flags):
        g += 1 if i == 0 or f else 0
        add(w, ORDER[i], None, f, LISTS[ORDER[i]][:lens[g]])
    for lab in ('run', 'second run'):
        w.calls.clear()
        w.cnt = 0
        w.sim.run()
        shape, ps = combos(w)
        equal(w.calls, [{x: p[x] for x in w.values()} for p in ps], f'{lab}: evaluated combinations')
        want = [tuple(sorted(((x, p[x]) for x in w.values()), key=str)) for p in ps]
        res = w.sim.resultsDict
        nested(shape, res['vals'], 'results')
        k = 0
        for idx, p in zip(itertools.product(*(range(n) for n in shape)), want):
            vals, cnt = get(res['vals'], idx), get(res['count'], idx)
            n = 2 if how == 'user' else 1   # number of steps
            vals, cnt = (vals, cnt) if how == 'user' else ([vals], [cnt])
            equal([tuple(v) for v in vals], [p] * n, f'{lab}: stored values of {idx}')
            equal(list(cnt), list(range(k + 1, k + n + 1)), f'{lab}: results of {idx} in the order of evaluation')
            k += n


# ---------------------------------------------------------------- targets
def target_domain(single):
    names = [t for t in TARGETS if len(TARGETS[t][3])]
    out = [((t,), (m,), (h,)) for t in names for m in (1, 2, 3) for h in ('list', 'tuple', 'later')]
    for t, u in itertools.permutations(names, 2):
        if set(TARGETS[t][2]) & set(TARGETS[u][2]):
            continue
        out.append(((t, u), (2, 3), ('list', 'list', True)))
        out.append(((t, u), (3, 3), ('list', 'later', False)))
    return out


def check_target(case):
    names, lens, how = case
    w = SW()
    comb = how[-1] if len(names) > 1 else False
    for i, (t, n) in enumerate(zip(names, lens)):
        add(w, t, n, comb if i else False, how=how[i])
    run(w)


# ---------------------------------------------------------------- ways of giving the list
def range_domain():
    return [(log, a, b, s, n2) for log in (False, True) for (a, b, s) in ((0, 2, 1), (0.5, 1.5, 0.5), (1, 3, 4), (0, 1, 2),
                                                                         (0, 0, 1), (2, 2, 1)) for n2 in (0, 1, 2)
            if not (log and s != int(s))]


def check_range(case):
    log, lo, hi, st, n2 = case
    w = SW()
    sw = w.sim.Sweep.createSweep(system=w.a, sweepKey='frequency', sweepMin=lo, sweepMax=hi, sweepStep=st, logSweep=log)
    if log:
        vals = [10 ** (lo + (hi - lo) * k / (st - 1)) if st > 1 else 10.0 ** lo for k in range(st)]
    else:
        vals = [lo + k * st for k in range(int(np.ceil((hi + st - lo) / st - 1e-12)))]
    equal(len(sw.sweepList), len(vals), 'length of the list')
    for x, y in zip(sw.sweepList, vals):
        equal(abs(x - y) < 1e-9 * max(1, abs(y)), True, f'value {x} of the list, expected {y}')
    w.sweeps.append([sw, 'af', [float(x) for x in sw.sweepList], False, 'set'])
    if n2:
        add(w, 'gf', n2, True)
    run(w)
    run(w)


def grid_domain():
    """ranges with decimal steps: (step, first multiple, number of steps)"""
    return [(st, a, n) for st in (0.1, 0.2, 0.05, 0.3, 0.01, 0.025, 1, 3, -0.1, -0.3, -1) for a in range(-12, 13, 4 if abs(st) in (1, 3) else 1)
            for n in (0, 1, 2, 3, 5, 8, 13, 40)]


def check_grid(case):
    st, a, n = case
    vals = [round((a + k) * st, 10) for k in range(n + 1)]
    s = qg.Simulation()
    q = qg.Qubit(frequency=1.0)
    sw = s.Sweep.createSweep(system=q, sweepKey='frequency', sweepMin=vals[0], sweepMax=vals[-1], sweepStep=st)
    got = [float(x) for x in sw.sweepList]
    equal(len(got), len(vals), f'length of the list of the range from {vals[0]} to {vals[-1]}')
    for x, y in zip(got, vals):
        equal(abs(x - y) < 1e-9, True, f'value {x} of the list, expected {y}')


# ---------------------------------------------------------------- custom sweep functions
def check_custom(case):
    n, m, comb, pos = case
    w = SW()
    seen = []

    def custom(sw):
        seen.append(sw.index)
        w.a.frequency = sw.sweepList[sw.index]
        w.b.frequency = 2 * sw.sweepList[sw.index]
    vals = [0.5, 1.0, 1.5][:n]

    def first():
        sw = w.sim.Sweep.createSweep(system=w.a, sweepKey='frequency', sweepList=vals, sweepFunction=custom,
                                     combinatorial=comb)
        w.sweeps.append([sw, 'custom', vals, comb, 'set'])
    TARGETS['custom'] = (None, None, ('af', 'bf'), vals)
    if pos == 0:
        first()
    add(w, 'gf', m, comb)
    if pos == 1:
        first()

    old = w.states
    # bf is twice af
    orig = combos

    def fixed(p):
        return {**p, 'bf': 2 * p['af']}
    shape, ps = orig(w)
    ps = [fixed(p) for p in ps]
    w.calls.clear()
    got = w.sim.run()
    equal(len(w.calls), len(ps), 'number of evaluations')
    for c, p in zip(w.calls, ps):
        equal((c['af'], c['bf'], c['gf']), (p['af'], p['bf'], p['gf']), 'parameters')
    for idx, p in zip(itertools.product(*(range(k) for k in shape)), ps):
        for k, (x, y) in enumerate(zip(get(got, idx), old(p))):
            same(x, y, f'state {k} of {idx}')
    equal(len(seen), len(ps), 'calls of the sweep function')


# ---------------------------------------------------------------- histories
def s_create(target, n, comb):
    def op(w):
        if any(s[1] == target for s in w.sweeps) or len(w.sweeps) >= 3:
            raise Disabled()
        ln = n
        if w.sweeps and not comb:
            ln = len(w.sweeps[-1][2])
        add(w, target, ln, comb, (list(TARGETS[target][3]) + [0.05, 0.06])[:ln])
    return (f'createSweep({target}, {n}, combinatorial={comb})', op)


def s_remove(i, how):
    def op(w):
        if len(w.sweeps) <= i:
            raise Disabled()
        sw, target, vals, comb, _ = w.sweeps[i]
        if how == 'sweep':
            w.sim.Sweep.removeSweep(sw)
        else:   # by the system: removes it from every sweep that has it
            obj = TARGETS[target][0](w)
            if isinstance(obj, (list, str)) or obj is None:
                raise Disabled()
            w.sim.removeSweep(obj)
        del w.sweeps[i]
        fix(w)
    return (f'remove sweep {i} by {how}', op)


def fix(w):
    """parallel sweeps need the same length: a removal may leave a sweep behind that is parallel to another length"""
    for i, s in enumerate(w.sweeps):
        if i and not s[3] and len(s[2]) != len(w.sweeps[i - 1][2]):
            raise Disabled()


def s_list(i, n):
    def op(w):
        if len(w.sweeps) <= i:
            raise Disabled()
        s = w.sweeps[i]
        new = (list(reversed(TARGETS[s[1]][3])) + [0.05, 0.06])[:n]
        s[0].sweepList = new
        s[2] = new
    return (f'list of sweep {i} = {n} values', op)


def s_comb(i):
    def op(w):
        if len(w.sweeps) <= i:
            raise Disabled()
        s = w.sweeps[i]
        s[0].combinatorial = not s[0].combinatorial
        s[3] = not s[3]
    return (f'toggle combinatorial of sweep {i}', op)


def s_run():
    def op(w):
        fix(w)
        run(w)
    return ('run', op)


def s_user(target):
    def op(w):
        tgt, key, ps, vals = TARGETS[target]
        setattr(tgt(w), key, 0.875)
        w.p[ps[0]] = 0.875
    return (f'{target}=0.875', op)


def final(w):
    fix(w)
    run(w)
    run(w)


def build():
    w = SW()
    w.s.simTotalTime = 0.25
    w.p['T'] = 0.25
    return w


def state(w):
    return (sorted(w.p.items(), key=str), [(s[1], tuple(s[2]), s[3]) for s in w.sweeps])


def prune(labels):
    return any(a == b for a, b in zip(labels, labels[1:]))


# ---------------------------------------------------------------- sweeps of several systems, and removals of systems
OBJ = {'a': lambda w: w.a, 'b': lambda w: w.b, 't': lambda w: w.t, 'g': lambda w: w.g}
for _k in range(1, 5):
    for _s in itertools.combinations('abtg', _k):
        TARGETS['of ' + ''.join(_s)] = (None, 'frequency', tuple(x + 'f' for x in _s), ())


def m_new(objs, vals, comb, how='object'):
    def op(w):
        if len(w.sweeps) > 1:
            raise Disabled()
        named = {'object': lambda x: x, 'name': lambda x: x.name, 'tuple': lambda x: x}[how]
        syss = [named(OBJ[x](w)) for x in objs]
        sw = w.sim.Sweep.createSweep(system=tuple(syss) if how == 'tuple' else syss, sweepKey='frequency', sweepList=list(vals),
                                     combinatorial=comb)
        w.sweeps.append([sw, 'of ' + ''.join(x for x in 'abtg' if x in objs), list(vals), comb, 'set'])
    return (f'createSweep({objs}, {vals}, combinatorial={comb}) by {how}', op)


def m_drop(w, x, only=None):
    for s in list(w.sweeps):
        if x not in s[1][3:] or only not in (None, s):
            continue
        left = s[1][3:].replace(x, '')
        if left:
            s[1] = 'of ' + left
        elif only is None:
            w.sweeps.remove(s)
        else:
            raise Disabled()   # a sweep of nothing
    fix(w)


def m_remove(objs, how):
    def op(w):
        if not any(x in s[1][3:] for s in w.sweeps for x in objs):
            raise Disabled()
        syss = [OBJ[x](w) for x in objs]
        if how == 'simulation':
            w.sim.removeSweep(syss[0] if len(syss) == 1 else syss)
        elif how == 'sweeps':
            w.sim.Sweep.removeSweep(syss)
        elif how == 'name':
            w.sim.removeSweep([s.name for s in syss])
        for x in objs:
            m_drop(w, x)
    return (f'remove {objs} from the sweeps by {how}', op)


def m_edit(i, x, add_):
    def op(w):
        if len(w.sweeps) <= i or (x in w.sweeps[i][1][3:]) == add_:
            raise Disabled()
        s = w.sweeps[i]
        if add_:
            s[0].system = OBJ[x](w)
            s[1] = 'of ' + ''.join(y for y in 'abtg' if y == x or y in s[1][3:])
        else:
            m_drop(w, x, s)
            s[0].removeSubSys(OBJ[x](w))
    return (f'{"add" if add_ else "remove"} {x} {"to" if add_ else "from"} sweep {i}', op)


# ---------------------------------------------------------------- simulations whose systems and protocols are removed
class PS:
    """a simulation of two protocols of a system (or of one, and its own evolution) and of another system"""
    def __init__(self, own=False):
        self.o = {n: qg.Spin(dimension=2, frequency=f, operator=qg.sigmax, initialState=i) for n, f, i in (('a', 1.0, 0), ('b', 0.5, 1))}
        for n, r in (('P', 1), ('Q', 2)):
            self.o[n] = qg.freeEvolution(system=self.o['a'], ratio=r)
        self.S = self.o['S'] = qg.Simulation()
        self.S.totalTime, self.S.stepSize = 0.5, 0.5
        self.entries = [('a', None), ('a', 'Q'), ('b', None)] if own else [('a', 'P'), ('a', 'Q'), ('b', None)]
        for q in self.entries[:2]:
            self.S.addSubSys(*[self.o[x] for x in q if x])
        self.S.addSubSys(self.o['b'])
        self.p = {('a', 'frequency'): 1.0, ('b', 'frequency'): 0.5, ('P', 'ratio'): 1, ('Q', 'ratio'): 2, ('S', 'stepSize'): 0.5}
        self.sweeps = []      # ([objects], key, values)
        self.calls = []
        self.S.preCompute = lambda sim: self.calls.append(self.values())

    def values(self):
        return {x: getattr(self.o[x[0]], x[1]) for x in self.p}

    def run(self):
        self.calls.clear()
        self.S.run()
        shape = [len(s[2]) for s in self.sweeps]
        ps = []
        for idx in itertools.product(*(range(n) for n in shape)):
            p = dict(self.p)
            for i, (objs, key, vals) in zip(idx, self.sweeps):
                p.update({(o, key): vals[i] for o in objs})
            ps.append((idx, p))
        equal(self.calls, [p for _, p in ps], 'parameters of the evaluations')
        st = self.S.states
        equal(len([k for k in st if len(st[k])]), len(self.entries), 'number of the protocols with states')
        for s, pro in self.entries:
            res = st[(self.o[pro].name if pro else self.o[s].name) + 'Results']
            nested(shape, res, f'states of {pro or s}')
            for idx, p in ps:
                got, dt = get(res, idx), p['S', 'stepSize']
                n = int(0.5 // dt + 1)
                equal(len(got), n + 1, f'number of states of {pro or s} at {idx}')
                for k, x in enumerate(got):
                    u = uexp(SX, p[s, 'frequency'] * dt * k * (p[pro, 'ratio'] if pro else 1))
                    same(x, u @ ket(2, 0 if s == 'a' else 1), f'state {k} of {pro or s} at {idx}')
        if self.sweeps:
            self.p = ps[-1][1]

    def drop(self, *gone):
        for s in list(self.sweeps):
            s[0] = [o for o in s[0] if o not in gone]
            if not s[0]:
                self.sweeps.remove(s)


def p_sweep(objs, key, vals):
    def op(w):
        if len(w.sweeps) > 2 or any(s[1] == key and set(s[0]) & set(objs) for s in w.sweeps):
            raise Disabled()
        if not all(o == 'S' or any(o in e for e in w.entries) for o in objs):
            raise Disabled()
        w.S.Sweep.createSweep(system=[w.o[o] for o in objs], sweepKey=key, sweepList=list(vals), combinatorial=True)
        w.sweeps.append([list(objs), key, vals])
    return (f'sweep {key} of {objs}', op)


def p_remove(names, how):
    def op(w):
        gone = [e for e in w.entries if set(e) & set(names)]
        left = [e for e in w.entries if e not in gone]
        if len(gone) < len(names) or not left:
            raise Disabled()
        arg = [w.o[n] for n in names]
        getattr(w.S, how)(arg if len(arg) > 1 else arg[0])
        w.entries = left
        w.drop(*[e[1] for e in gone], *[e[0] for e in gone if not any(f[0] == e[0] for f in left)])
    return (f'S.{how}({names})', op)


def p_add(s, pro):
    def op(w):
        if (s, pro) in w.entries or (pro is None and any(s == e[0] for e in w.entries)):
            raise Disabled()
        if pro is None:
            w.S.addSubSys(w.o[s])
        else:
            w.S.addSubSys(w.o[s], w.o[pro])
        w.entries.append((s, pro))
    return (f'S.addSubSys({s}, {pro})', op)


def p_run():
    return ('run', lambda w: w.run())


def p_final(w):
    w.run()
    w.run()


def p_state(w):
    return (sorted(w.p.items()), w.entries, [(tuple(s[0]), s[1], s[2]) for s in w.sweeps])


# ---------------------------------------------------------------- ranges
class RS:
    """range of a sweep of the reference"""
    def __init__(self, lo, hi, st):
        self.lo, self.hi, self.st, self.log, self.list = lo, hi, st, False, None

    def values(self):
        if self.list is not None:
            return list(self.list)
        if self.log:
            if not isinstance(self.st, int):
                raise Disabled()
            n = int(self.st)
            return [10 ** (self.lo + (self.hi - self.lo) * k / (n - 1)) if n > 1 else 10.0 ** self.lo for k in range(n)]
        out, k = [], 0
        while self.lo + k * self.st < self.hi + self.st:
            out.append(self.lo + k * self.st)
            k += 1
        return out


def r_set(i, attr, val):
    def op(w):
        if i >= len(w.sweeps):
            raise Disabled()
        setattr(w.sweeps[i][0], {'lo': 'sweepMin', 'hi': 'sweepMax', 'st': 'sweepStep', 'log': 'logSweep', 'list': 'sweepList'}[attr], val)
        setattr(w.rs[i], attr, val)
        if i == 0 and attr == 'list' and val is None and w.rs[0].st is None:
            raise Disabled()
    return (f'{attr} of sweep {i} = {val}', op)


def r_key(i, target):
    """another system and key"""
    def op(w):
        if i >= len(w.sweeps) or any(s[1] == target for s in w.sweeps):
            raise Disabled()
        sw = w.sweeps[i][0]
        tgt, key = TARGETS[target][:2]
        sw.removeSubSys(TARGETS[w.sweeps[i][1]][0](w))
        sw.system = tgt(w)
        sw.sweepKey = key
        w.sweeps[i][1] = target
    return (f'sweep {i} is of {target}', op)


def r_new(comb):
    def op(w):
        if len(w.sweeps) > 1:
            raise Disabled()
        sw = w.sim.Sweep.createSweep(system=w.g, sweepKey='frequency', sweepMin=0.25, sweepMax=0.5, sweepStep=0.25, combinatorial=comb)
        w.sweeps.append([sw, 'gf', [], comb, 'set'])
        w.rs.append(RS(0.25, 0.5, 0.25))
    return (f'second range, combinatorial={comb}', op)


def r_fix(w):
    for s, r in zip(w.sweeps, w.rs):
        s[2] = r.values()
    fix(w)
    for s in w.sweeps:
        got = [float(x) for x in s[0].sweepList]
        equal(len(got), len(s[2]), f'length of the list of the sweep of {s[1]}')
        for x, y in zip(got, s[2]):
            equal(abs(x - y) < 1e-12 * max(1, abs(y)), True, f'value {x} of the list of the sweep of {s[1]}, expected {y}')
        s[2] = got


def r_run():
    def op(w):
        r_fix(w)
        run(w)
    return ('run', op)


def r_read(i):
    def op(w):
        if i >= len(w.sweeps):
            raise Disabled()
        want = w.rs[i].values()
        equal(len(w.sweeps[i][0].sweepList), len(want), 'length of the list (read)')
    return (f'read the list of sweep {i}', op)


def r_build():
    w = build()
    sw = w.sim.Sweep.createSweep(system=w.a, sweepKey='frequency', sweepMin=0.5, sweepMax=1.0, sweepStep=0.5)
    w.sweeps.append([sw, 'af', [], False, 'set'])
    w.rs = [RS(0.5, 1.0, 0.5)]
    return w


def r_final(w):
    r_fix(w)
    run(w)
    run(w)


def r_state(w):
    return (sorted(w.p.items(), key=str), [(s[1], s[3], sorted(vars(r).items(), key=str)) for s, r in zip(w.sweeps, w.rs)])


def components(tier):
    deep = tier == 'thorough'
    hist = [s_create('af', 2, False), s_create('gf', 3, True), s_create('bf', 2, False), s_create('tf', 1, True),
            s_remove(0, 'sweep'), s_remove(1, 'sweep'), s_remove(0, 'system'), s_remove(2, 'sweep'), s_list(0, 3),
            s_list(1, 1), s_list(1, 2), s_comb(0), s_comb(1), s_run(), s_user('af')]
    rng = [r_set(0, 'hi', 1.5), r_set(0, 'lo', 0.0), r_set(0, 'st', 1), r_set(0, 'st', 2), r_set(0, 'log', True), r_set(0, 'log', False),
           r_set(0, 'list', [2.0, 0.25]), r_set(0, 'list', None), r_set(1, 'hi', 0.75), r_new(True), r_new(False), r_key(0, 'tf'),
           r_read(0), r_run()]
    multi = [m_new('ab', (1.5, 0.25), False), m_new('tab', (0.5, 0.75, 1.25), True, 'name'), m_new('bg', (2.5, 0.125), False, 'tuple'),
             m_new('t', (0.7, 0.4), True), m_remove('a', 'simulation'), m_remove('b', 'sweeps'), m_remove('ta', 'name'),
             m_remove('gb', 'simulation'), m_edit(0, 'g', True), m_edit(0, 'a', False), m_edit(1, 'b', False), m_edit(1, 'a', True), s_list(0, 1),
             s_comb(1), s_user('af'), s_run()]
    parts = [p_sweep('a', 'frequency', (1.5, 0.25)), p_sweep('ab', 'frequency', (0.75, 2.0)), p_sweep('b', 'frequency', (0.125, 3.0)),
             p_sweep('P', 'ratio', (0.5, 3)), p_sweep('Q', 'ratio', (2, 1)), p_sweep('S', 'stepSize', (0.25, 0.5)),
             p_remove('P', 'removeProtocol'), p_remove('Q', 'removeProtocol'), p_remove('PQ', 'removeProtocol'), p_remove('a', 'removeQSystems'),
             p_remove('b', 'removeSubSys'), p_add('a', 'P'), p_add('a', 'Q'), p_add('b', None), p_run()]
    parts_own = [o for o in parts if not any(x in o[0] for x in ('of P', '(P', ', P'))] + [p_add('a', 'P'), p_add('a', None), p_remove('P', 'removeProtocol')]
    return [
        Histories('sweeps of several systems', build, multi, final, 5 if deep else 4, state, prune),
        Histories('removed systems and protocols', PS, parts, p_final, 5 if deep else 3, p_state, prune),
        Histories('removed systems and protocols, own evolution', lambda: PS(True), parts_own, p_final, 5 if deep else 3, p_state, prune),
        Histories('editing ranges', r_build, rng, r_final, 4 if deep else 3, r_state, prune),
        Cases('shapes', lambda: shape_domain(4, 4 if deep else 3, 3 if deep else 2), check_shape),
        Cases('long lists, many sweeps', lambda: size_domain(deep), check_size, 6),
        Cases('without the default evolution', lambda: [(f, n, h) for f, n in shape_domain(3, 3, 3) for h in ('none', 'user')],
              check_evol, 20),
        Cases('targets', lambda: target_domain(deep), check_target),
        Cases('ranges', range_domain, check_range),
        Cases('decimal ranges', grid_domain, check_grid, 40),
        Cases('custom sweep functions', list(itertools.product((1, 2, 3), (1, 2, 3), (True,), (0, 1))), check_custom),
        Histories('editing sweeps', build, hist, final, 5 if deep else 4, state, prune),
    ]
