"""C09: time-dependent parameters are evaluated at the time of every step, independent of earlier runs and reads."""
import numpy as np
import quanguru as qg
from mc.core import Histories, Cases, Disabled, Violation
from mc.ref import OPS, SX, RSys, ket, kron, mpow, uexp
from mc.util import same, equal
from .c01 import alive, extra, coupling, leaf, s_freq, s_dim, s_read as s_hread
from .c03 import RGate, RHc
from .c04 import COEF, NoState
from .c05 import Node
from .c08 import (SimWorld, RF, RP, check, record, evolve, run_own, run_S, s_run, s_time, s_init, s_step, s_add_entry,
                  s_remove_pro, s_pset, s_uread, pair)

PROPERTY = 'C09'
LEVEL = 'model_checking'
ASSUMPTIONS = ['the Hamiltonian of a step is the one at the end of the step (time = step size x number of the step)',
               'a system or protocol has the step size of the simulation it is run in',
               'a time-dependent sweep has one value for each step']

FUNCS = {'lin': lambda t: 1.0 + t, 'neg': lambda t: 0.5 - 2.0 * t, 'step': lambda t: 2.0 if t > 0.6 else 0.0,
         'late': lambda t: 1.0 if t > 5.1 else 0.25, 'wave': lambda t: (t * t) % 1.75, 'const': lambda t: 0.75, 'const2': lambda t: 1.25, 'user': lambda t: USER['a'], 'user t': lambda t: USER['a'] * t}
USER = {'a': 0.5}      # a variable of the user, read by the functions
STATIC = ('const', 'const2', 'user')   # do not depend on time


def s_td(name, fn):
    """the frequency of the term becomes time dependent"""
    def op(w):
        t = alive(w, name)
        if any(m.tag[0] == name and m.tag[1] == 'order' for m in w.td):
            raise Disabled()
        f = FUNCS[fn]
        obj = w.ti.get(name) or list(w.i[name].terms.values())[0]

        def td(term, time):
            term.frequency = f(time)
        obj.timeDependency = td

        def model(w, k, time):
            if t in w.tr[name][0].terms:
                t.freq = f(time)
        model.tag = (name, fn)
        w.td = [m for m in w.td if m.tag[0] != name] + [model]
    return (f'{name}: {fn}(t)', op)


def s_tdorder(name):
    """the operator of the term becomes time dependent"""
    def op(w):
        t = alive(w, name)
        if any(m.tag[0] == name for m in w.td):
            raise Disabled()
        obj = w.ti.get(name) or list(w.i[name].terms.values())[0]

        def td(term, time):
            term.order = 2 if time > 0.6 else 1
        obj.timeDependency = td

        def model(w, k, time):
            t.orders = [2 if time > 0.6 else 1]
        model.tag = (name, 'order')
        w.td = [m for m in w.td if m.tag[0] != name] + [model]
    return (f'{name}: order(t)', op)


def s_static(name, val):
    def op(w):
        t = alive(w, name)
        if not any(m.tag[0] == name for m in w.td):
            raise Disabled()
        obj = w.ti.get(name) or list(w.i[name].terms.values())[0]
        obj.timeDependency = None
        w.td = [m for m in w.td if m.tag[0] != name]
        obj.frequency = val
        if len(t.systems) == 1:
            obj.order = 1
        t.freq, t.orders = val, [1] * len(t.systems)
    return (f'{name}: static {val}', op)


def s_sweep(sim, name, vals, how='list'):
    """a time-dependent sweep of the frequency in the simulation (one value per step)"""
    def op(w):
        if ('sweep', sim, name) in [m.tag for m in w.td] or any(m.tag[0] == name for m in w.td):
            raise Disabled()
        S = w.S if sim == 'S' else w.i[sim].simulation
        kw = {}
        if how == 'list':
            kw['sweepList'] = list(vals)
        elif how == 'range':
            kw.update(sweepMin=vals[0], sweepMax=vals[-1], sweepStep=vals[1] - vals[0])
        else:
            kw['sweepFunction'] = lambda sweep: setattr(w.i[name], 'frequency', vals[sweep.index])
        S.timeDependency.createSweep(system=w.i[name], sweepKey='frequency', **kw)

        def model(w, k, time):
            if w.running == sim:
                w.tr[name][1].freq = vals[k]
        model.tag = ('sweep', sim, name)
        w.td.append(model)
    return (f'{sim}.timeDependency({name}, {how} {vals})', op)


def s_rmsweep(sim, name):
    def op(w):
        tags = [m.tag for m in w.td]
        if ('sweep', sim, name) not in tags:
            raise Disabled()
        S = w.S if sim == 'S' else w.i[sim].simulation
        S.removeSweep(w.i[name])
        w.td = [m for m in w.td if m.tag != ('sweep', sim, name)]
        w.i[name].frequency = 0.3
        w.tr[name][1].freq = 0.3
    return (f'{sim}.removeSweep({name})', op)


def need(w, n):
    """number of steps fits the time-dependent sweeps"""
    if any(m.tag[0] == 'sweep' and m.tag[1] == w.running for m in w.td) and n != getattr(w, 'points', 2):
        raise Disabled()


def s_runS():
    def op(w):
        if not w.entries:
            raise Disabled()
        w.running = 'S'
        nd = w.nodes['S']
        need(w, int(nd.t // nd.dt + 1))
        run_S(w)
    return ('S.run()', op)


def s_runown(name):
    lab, f = run_own(name)

    def op(w):
        w.running = name
        nd = w.nodes[name]
        need(w, int(nd.t // nd.dt + 1))
        f(w)
    return (lab, op)


def s_uonly(name):
    """creates a unitary outside of a run"""
    def op(w):
        (w.i.get(name) or w.pi[name]).unitary()
    return (f'U({name})', op)


def s_uvalue(name):
    """unitary outside of a run, for functions that give the same value at all times"""
    def op(w):
        if not w.td or any(m.tag[1] not in STATIC for m in w.td):
            raise Disabled()
        obj = w.i.get(name) or w.pi[name]
        for m in w.td:
            m(w, 0, 0.5)
        want = w.pr[name].matrix(w) if name in w.pi else uexp(w.r[name].hamiltonian(), w.nodes[name].dt)
        same(obj.unitary(), want, f'{name}.unitary (read)')
    return (f'read U({name})', op)


def s_user(val):
    def op(w):
        USER['a'] = w.user = val
    return (f'variable={val}', op)


def s_honly(name):
    def op(w):
        w.i[name].totalHamiltonian
    return (f'H({name})', op)


# ---------------------------------------------------------------- worlds
def with_user(build):
    def new():
        USER['a'] = 0.5
        w = build()
        w.user = 0.5
        s_td('a', 'user')[1](w)     # time dependent from the beginning
        return w
    return new


def b_system():
    COEF.clear()
    w = SimWorld()
    pair(w)
    extra(w, 'x', 'b', 'Jx', 0.5)
    w.nodes['s'] = Node('s')
    w.i['s'].simTotalTime, w.i['s'].simStepSize = 0.5, 0.5
    w.nodes['s'].own_t, w.nodes['s'].own_dt = 0.5, 0.5
    w.i['s'].compute = record(w, 's')
    w.running = None
    return w


def b_sim(explicit=True):
    def build():
        COEF.clear()
        w = SimWorld()
        leaf(w, 'a', qg.Spin, 3, 1.0, 'Jz')
        extra(w, 'x', 'a', 'Jx', 0.5)
        leaf(w, 'b', qg.Qubit, 2, 2.0, 'Jz')
        w.i['b'].createTerm(operator=qg.Jx, frequency=1.0)
        from mc.ref import RTerm
        w.r['b'].terms.append(RTerm(1.0, ['Jx'], [1], [w.r['b']]))
        w.S = qg.Simulation()
        w.nodes['S'] = Node('S')
        for n in 'ab':
            w.nodes[n] = Node(n, w.nodes['S'] if explicit else None)
            w.i[n].initialState = 0
            w.r[n].state = 0
        # P = F X F.hc F(half), Q = F.hc X, free evolution G
        w.pi['F'] = qg.freeEvolution(system=w.i['a'])
        g = qg.SpinRotation(angle=0.7, rotationAxis='x')
        g.addSubSys(w.i['a'])
        w.pi['X'] = g
        w.pi['H'] = qg.freeEvolution(system=w.i['a'], ratio=0.5)
        w.pi['P'] = qg.qProtocol(system=w.i['a'])
        w.pi['P'].addStep(w.pi['F'], g, w.pi['H'])
        w.pi['Q'] = qg.qProtocol(system=w.i['a'])
        w.pi['Q'].addStep(w.pi['F'].hc, g)
        w.pi['G'] = qg.freeEvolution(system=w.i['a'])
        for n in 'PQG':
            w.nodes[n] = Node(n, w.nodes['a'])
        for n in 'FH':
            w.nodes[n] = Node(n, w.nodes['P'])
        for p in 'FHPQG':
            w.psys[p] = 'a'
        w.pr['F'], w.pr['X'], w.pr['H'], w.pr['G'] = (RF(w.r['a'], w.nodes['F']), RGate([w.r['a']], 'x', 0.7),
                                                      RF(w.r['a'], w.nodes['H']), RF(w.r['a'], w.nodes['G']))
        w.pr['H'].ratio = 0.5
        w.pr['P'] = RP(w.r['a'], [w.pr['F'], w.pr['X'], w.pr['H']])
        w.pr['Q'] = RP(w.r['a'], [RHc(w.pr['F']), w.pr['X']])
        if explicit:
            for s, p in (('a', 'P'), ('b', None)):
                w.S.addSubSys(w.i[s], *([] if p is None else [w.pi[p]]))
                w.entries.append((s, p))
            w.S.totalTime, w.S.stepSize = 0.5, 0.5
            w.nodes['S'].own_t, w.nodes['S'].own_dt = 0.5, 0.5
            w.S.compute = record(w, 'S')
        else:
            w.S = None
            for n in 'ab':
                w.i[n].simTotalTime, w.i[n].simStepSize = 0.5, 0.5
                w.nodes[n].own_t, w.nodes[n].own_dt = 0.5, 0.5
        w.i['b'].compute = record(w, 'b')
        w.pi['P'].compute = record(w, 'P')
        w.running = None
        return w
    return build


def b_nested():
    """t = (u, c), u = (a, b)"""
    COEF.clear()
    w = SimWorld()
    for n in 'abc':
        leaf(w, n, qg.Qubit, 2, 1.0, 'Jz')
        extra(w, 'x' + n, n, 'Jx', 0.25)
        w.i[n].initialState = 0
        w.r[n].state = 0
    w.i['u'] = qg.QuantumSystem(subSys=[w.i['a'], w.i['b']])
    w.r['u'] = RSys('u', None, [w.r['a'], w.r['b']])
    w.i['t'] = qg.QuantumSystem(subSys=[w.i['u'], w.i['c']])
    w.r['t'] = RSys('t', None, [w.r['u'], w.r['c']])
    coupling(w, 'g', 'u', ['a', 'b'], ['Jz', 'Jx'], 0.5)
    coupling(w, 'h', 't', ['b', 'c'], ['Jx', 'Jz'], 0.5)
    w.nodes['t'] = Node('t')
    w.i['t'].simTotalTime, w.i['t'].simStepSize = 0.5, 0.5
    w.nodes['t'].own_t, w.nodes['t'].own_dt = 0.5, 0.5
    w.running = None
    return w


# ---------------------------------------------------------------- sweeps of a protocol (product of its unitaries)
class RSweepF(RF):
    """free evolution with a sweep: product of the unitaries of all the values"""
    vals = None

    def matrix(self, w):
        if self.vals is None:
            return super().matrix(w)
        import numpy as np
        out = np.eye(self.sys.root.dim, dtype=complex)
        for v in self.vals:
            w.tr['a'][1].freq = v
            out = super().matrix(w) @ out
        return out


def b_prosweep():
    w = b_sim()()
    w.nodes['G'] = Node('G', w.nodes['a'])
    w.pr['G'] = RSweepF(w.r['a'], w.nodes['G'])
    w.S.addSubSys(w.i['a'], w.pi['G'])
    w.S.removeProtocol(w.pi['P'])
    w.entries[:] = [('b', None), ('a', 'G')]
    return w


def s_prosweep(vals, how):
    def op(w):
        if w.pr['G'].vals is not None:
            raise Disabled()
        kw = {'sweepList': list(vals)} if how == 'list' else dict(sweepMin=vals[0], sweepMax=vals[-1],
                                                                   sweepStep=vals[1] - vals[0])
        w.pi['G'].timeDependency.createSweep(system=w.i['a'], sweepKey='frequency', **kw)
        w.pr['G'].vals = list(vals)
    return (f'G.timeDependency(a, {how} {vals})', op)


def s_proread():
    def op(w):
        same(w.pi['G'].unitary(), w.pr['G'].matrix(w), 'G.unitary (read)')
    return ('read U(G)', op)


def final(*names):
    def chk(w):
        for n in names:
            try:
                (s_runS() if n == 'S' else s_runown(n))[1](w)
            except Disabled:
                if len(names) == 1:
                    raise
    return chk


def state(w):
    return ([r.key() for r in w.r.values() if r.sup is None], [(n, p.key()) for n, p in w.pr.items()],
            [n.key() for n in w.nodes.values()], list(w.entries), [m.tag for m in w.td], w.running, getattr(w, 'user', 0))


def prune(labels):
    if len(labels) >= 3 and not any('(t)' in a or 'timeDep' in a for a in labels):
        return True        # nothing is time dependent, covered by C08
    return any(a == b and (a[:2] in ('U(', 'H(') or a.startswith('read')) for a, b in zip(labels, labels[1:]))


def prune_reads(labels):
    return any(a == b and (a[:2] in ('U(', 'H(') or a.startswith('read')) for a, b in zip(labels, labels[1:]))


# ---------------------------------------------------------------- long runs
SIZES = (3, 4, 5, 7, 8, 9, 10, 11, 12, 16, 17, 31, 32, 33, 64, 65, 100, 101, 129)


def size_domain(deep):
    out = []
    for n in SIZES + ((256, 257, 500) if deep else ()):
        for kind, terms in (('system', 'axg'), ('simulation', 'axb')):
            out += [(kind, ((t, f),), n, dt) for t in terms for f in ('late', 'wave') for dt in (0.5, 0.125)]
            out += [(kind, ((t, 'wave'), (u, 'late')), n, 0.25) for t in terms for u in terms if t != u]
        out += [('simulation', ((t, 'sweep'),), n, 0.25) for t in 'ab']
        out += [('simulation', (('a', 'sweep'), ('b', 'sweep'), ('x', 'wave')), n, 0.25)]
        out += [('nested', (t,), n, 0.25) for t in (('a', 'wave'), ('g', 'late'), ('h', 'wave'), ('xc', 'wave'))]
    return out


def c_size(case):
    kind, terms, n, dt = case
    w = {'system': b_system, 'simulation': b_sim(), 'nested': b_nested}[kind]()
    name = {'system': 's', 'simulation': 'S', 'nested': 't'}[kind]
    sweeps = any(f == 'sweep' for _, f in terms)
    w.points = n
    for i, (t, f) in enumerate(terms):
        if f == 'sweep':
            s_sweep('S', t, tuple(0.25 * ((5 * k + i) % 7) for k in range(n)))[1](w)
        else:
            s_td(t, f)[1](w)
    s_time(name, 'dt', dt)[1](w)
    for steps in (n, n) if sweeps else (n, 2, n):
        s_time(name, 't', dt * (steps - 1))[1](w)
        (s_runS() if name == 'S' else s_runown(name))[1](w)


# ---------------------------------------------------------------- kinds of terms
def kind_domain(deep):
    out = []
    for struct in ('single', 'pair', 'nested'):
        for target in ('first', 'extra', 'coupling', 'inner coupling'):
            if ('coupling' in target and struct == 'single') or (target == 'inner coupling' and struct != 'nested'):
                continue
            for how in ('argument', 'attribute'):
                if target == 'first' and how == 'argument':
                    continue
                for freq in (None, 0, 0.7):
                    for change in ('frequency', 'order', 'operator', 'other', 'both', 'never'):
                        if freq is None and change not in ('frequency', 'both') or (change == 'other' and struct == 'single' and target == 'first'):
                            continue
                        for dt in (0.5, 0.1):
                            for run in ('own', 'S', 'protocol'):
                                out.append((struct, target, how, freq, change, dt, run))
    return out


def c_kind(case):
    struct, target, how, freq, change, dt, way = case
    a = qg.Cavity(dimension=3) if freq is None and target == 'first' else qg.Cavity(dimension=3, frequency=0.7 if target != 'first' else freq)
    objs = [a]
    if struct != 'single':
        objs.append(qg.Qubit(frequency=1.0))
    root = inner = a if struct == 'single' else objs[0] + objs[1]
    if struct == 'nested':
        objs.append(qg.Qubit(frequency=0.5))
        root = qg.QuantumSystem(subSys=[inner, objs[2]])
    for o, x in zip(objs, (1, 0, [0, 1])):
        o.initialState = x
    fix = a.createTerm(operator=qg.create, frequency=0.1)
    fix2 = a.createTerm(operator=qg.destroy, frequency=0.1)
    p = {'freq': freq, 'order': 1, 'op': None, 'other': 0.1}

    def poly(time):
        return 0.25 + 3 * time - 2 * time ** 2

    def td(term, time):
        if change in ('frequency', 'both'):
            term.frequency = poly(time)
        if change in ('order', 'both'):
            n = 1 + int(time / dt + 0.5) % 2
            term.order = n if 'coupling' not in target else [n, 1]
        if change == 'operator':
            op = (qg.number, qg.identity)[int(time / dt + 0.5) % 2]
            term.operator = op if 'coupling' not in target else [op, qg.sigmax]
        if change == 'other':
            fix.frequency = fix2.frequency = poly(time)
    kw = {} if freq is None else {'frequency': freq}
    if how == 'argument':
        kw['timeDependency'] = td
    if target == 'first':
        term = list(a.terms.values())[0]
    elif target == 'extra':
        term = a.createTerm(operator=qg.number, **kw)
    elif target == 'coupling':
        term = root.createTerm(operator=[qg.number, qg.sigmax], qSystem=[a, objs[-1]], **kw)
    else:
        term = inner.createTerm(operator=[qg.number, qg.sigmax], qSystem=[a, objs[1]], **kw)
    if how == 'attribute':
        term.timeDependency = td

    def emb(i, m):
        ds = (3, 2, 2)[:len(objs)]
        return kron(np.eye(int(np.prod(ds[:i]))), m, np.eye(int(np.prod(ds[i + 1:]))))

    def ham(k):
        time = k * dt
        f = poly(time) if change in ('frequency', 'both') else freq
        n = 1 + k % 2 if change in ('order', 'both') else 1
        num = OPS['identity'](3) if change == 'operator' and k % 2 else mpow(OPS['number'](3), n)
        o = poly(time) if change == 'other' else 0.1
        h = emb(0, o * (OPS['create'](3) + OPS['destroy'](3)))
        if target != 'first':
            h = h + emb(0, 0.7 * OPS['number'](3))
        if target in ('first', 'extra'):
            h = h + emb(0, f * num)
        else:
            i = len(objs) - 1 if target == 'coupling' else 1
            h = h + f * emb(0, num) @ emb(i, SX)
        for i, w in list(enumerate((0, 1.0, 0.5)))[1:len(objs)]:
            h = h + emb(i, w * OPS['Jz'](2))
        return h
    if way == 'own':
        sim, key = root.simulation, root
    else:
        sim, key = qg.Simulation(), root
        if way == 'protocol':
            key = qg.qProtocol(system=root)
            key.addStep(qg.freeEvolution(system=root, ratio=0.25), qg.freeEvolution(system=root, ratio=0.75))
            sim.addSubSys(root, key)
        else:
            sim.addSubSys(root)
    sim.totalTime, sim.stepSize = 2.1 * dt, dt
    for rnd in (1, 2):
        sim.run()
        got = sim.states[key.name + 'Results']
        equal(len(got), 4, f'number of states of the run {rnd}')
        x = kron(*[ket(d, s) for d, s in ((3, 1), (2, 0), (2, [0, 1]))[:len(objs)]])
        for k in range(4):
            same(got[k], x, f'state {k} of the run {rnd}')
            x = uexp(ham(k + 1), dt) @ x


def components(tier):
    k = 1 if tier == 'thorough' else 0
    system = [s_td('a', 'lin'), s_td('a', 'step'), s_td('g', 'neg'), s_td('g', 'lin'), s_td('x', 'step'),
              s_tdorder('a'), s_static('a', 0.7), s_static('g', 0.7), s_freq('b', 0.5), s_dim('a', 2), s_dim('a', 4),
              s_init('s', 1), s_time('s', 'dt', 0.25), s_time('s', 't', 1.0),
              s_uonly('s'), s_honly('s'), s_runown('s')]
    sim = [s_td('a', 'lin'), s_td('a', 'step'), s_td('x', 'neg'), s_td('b', 'lin'), s_static('a', 0.7),
           s_static('b', 0.7), s_freq('x', 0.25), s_pset('X', 'angle', 1.1), s_time('S', 'dt', 0.25),
           s_time('S', 't', 1.0), s_init('a', 1), s_add_entry('a', 'Q'), s_add_entry('a', 'G', 'addProtocol'),
           s_remove_pro('P'), s_step('P', 'X'), s_uonly('P'), s_uonly('Q'), s_uonly('a'), s_runS()]
    own = [s_td('a', 'lin'), s_td('a', 'step'), s_td('x', 'neg'), s_td('b', 'lin'), s_static('a', 0.7),
           s_uonly('P'), s_uonly('a'), s_time('S', 'dt', 0.25), s_runown('a'), s_runown('b'), s_runown('P'),
           s_runown('Q'), s_runown('G'), s_runS()]
    alone = [s_td('a', 'lin'), s_td('a', 'step'), s_td('x', 'neg'), s_static('a', 0.7), s_uonly('P'), s_uonly('a'),
             s_time('a', 'dt', 0.25), s_time('a', 't', 1.0), s_runown('a'), s_runown('P'), s_runown('Q'), s_runown('G')]
    nested = [s_td('a', 'lin'), s_td('xc', 'neg'), s_td('g', 'step'), s_td('h', 'lin'), s_td('xa', 'neg'),
              s_static('a', 0.7), s_static('h', 0.7), s_freq('xb', 1.0), s_uonly('t'), s_honly('a'), s_runown('t')]
    sweep = [s_sweep('S', 'a', (1.0, 2.0)), s_sweep('S', 'b', (0.0, -1.0)),
             s_sweep('S', 'b', (0.5, 1.0), 'range'), s_sweep('S', 'a', (2.0, 0.5), 'function'),
             s_rmsweep('S', 'a'), s_rmsweep('S', 'b'), s_td('x', 'neg'), s_static('x', 0.7), s_add_entry('a', 'Q'),
             s_time('S', 'dt', 0.25), s_time('S', 'dt', 0.5), s_uonly('P'), s_runown('a'), s_runown('b'), s_runS()]
    prosw = [s_prosweep((1.0, 2.0), 'list'), s_prosweep((0.5, 1.0, 1.5), 'range'), s_freq('x', 0.25), s_td('x', 'neg'),
             s_time('S', 'dt', 0.25), s_proread(), s_runown('G'), s_runS()]
    prosw.remove(prosw[3])
    fsys = [s_td('a', 'const'), s_td('a', 'const2'), s_td('a', 'user'), s_td('x', 'user t'), s_td('x', 'const'), s_td('g', 'user'),
            s_static('a', 0.7), s_user(1.5), s_user(-0.5), s_time('s', 't', 0.25), s_time('s', 'dt', 0.25), s_uvalue('s'),
            s_honly('s'), s_uonly('s'), s_runown('s')]
    fsim = [s_td('a', 'const'), s_td('a', 'const2'), s_td('a', 'user'), s_td('x', 'user t'), s_td('b', 'user'), s_static('a', 0.7),
            s_user(1.5), s_user(-0.5), s_time('S', 't', 0.25), s_uvalue('P'), s_uvalue('a'), s_uvalue('G'), s_uonly('P'),
            s_runown('P'), s_runown('a'), s_runS()]
    return [
        Histories('functions of a system', with_user(b_system), fsys, final('s'), 3 + k, state, prune_reads),
        Histories('functions in a simulation', with_user(b_sim()), fsim, final('S', 'P', 'a'), 3 + k, state, prune_reads),
        Cases('kinds of terms', lambda: kind_domain(k), c_kind, 8),
        Cases('long runs', lambda: size_domain(k), c_size, 4),
        Histories('system', b_system, system, final('s'), 3 + k, state, prune),
        Histories('simulation', b_sim(), sim, final('S'), 3 + k, state, prune),
        Histories('parts of a simulation', b_sim(), own, final('S', 'a', 'P', 'b'), 3 + k, state, prune),
        Histories('without a simulation', b_sim(False), alone, final('a', 'P', 'G'), 3 + k, state, prune),
        Histories('nested', b_nested, nested, final('t'), 3 + k, state, prune),
        Histories('time-dependent sweeps', b_sim(), sweep, final('S', 'a', 'S'), 3 + k, state, prune),
        Histories('sweeps of a protocol', b_prosweep, prosw, final('S', 'G', 'S'), 3 + k, state, prune),
    ]
