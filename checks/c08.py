"""C08: simulations return the step-by-step evolution, can be run again, and protocols do not influence each other."""
import numpy as np
import quanguru as qg
from mc.core import Cases, Histories, Disabled
from mc.ref import RSys, RTerm, uexp
from mc.util import same, equal
from .c01 import World, leaf, coupling, s_freq, s_new, s_del, s_read as s_hread
from .c02 import s_add, s_rem
from .c03 import RGate, RHc
from .c04 import rket, rhos, NoState, assign, fit, COEF
from .c05 import Node

PROPERTY = 'C08'
LEVEL = 'model_checking'
ASSUMPTIONS = ['pure initial states that fit the dimensions', 'the number of steps of a run is the one of the simulation '
               'that is run, the length of a step is the one of the protocol']


class SimWorld(World):
    def __init__(self):
        super().__init__()
        self.S = None         # explicit simulation
        self.nodes = {}       # name -> Node (time parameters)
        self.pi, self.pr, self.psys, self.own = {}, {}, {}, {}
        self.entries = []     # (system, protocol or None) in the order of the explicit simulation
        self.log, self.slog = {}, {}
        self.td = []          # functions (w, index of the step, time) that change the model at every step

    def clear(self):
        self.log, self.slog = {}, {}


class RF:
    """free evolution with the time parameters of its own node"""
    def __init__(self, sys, node):
        self.sys, self.node, self.ratio, self.samples = sys, node, 1, 1

    def matrix(self, w):
        return uexp(self.sys.hamiltonian(), self.node.dt * self.ratio / self.node.samples)

    def key(self):
        return ('free', self.sys.name, self.ratio, self.node.key())


class RP:
    def __init__(self, sys, steps):
        self.sys, self.steps = sys, list(steps)

    @staticmethod
    def samples(s):
        return s.node.samples if isinstance(s, RF) else (s.step.node.samples if isinstance(s, RHc) and
                                                         isinstance(s.step, RF) else 1)

    def matrix(self, w):
        out = np.eye(self.sys.root.dim, dtype=complex)
        for s in self.steps:
            for _ in range(self.samples(s)):
                out = s.matrix(w) @ out
        return out

    def sampled(self, w, state):
        """states after each sample of each step"""
        out = [state]
        for s in self.steps:
            m = s.matrix(w)
            for _ in range(self.samples(s)):
                out.append(m @ out[-1] if state.shape[1] == 1 else m @ out[-1] @ m.conj().T)
        return out[1:]

    def key(self):
        return ('pro', tuple(s.key() for s in self.steps))


def record(w, name):
    def comp(obj, states):
        w.log.setdefault(name, []).append(list(states) if isinstance(states, list) else states)
        if name in w.pi:
            w.slog.setdefault(name, []).append(list(obj.sampleStates))
    return comp


def operator(w, sysn, pro):
    if pro is None:
        return uexp(w.r[sysn].hamiltonian(), w.nodes[sysn].dt / w.nodes[sysn].samples)
    return w.pr[pro].matrix(w)


def evolve(w, entries, n, dt=None):
    """dt is the step size of the simulation that runs, and gives the time of each step for the time-dependent terms"""
    out = []
    for sysn, pro in entries:
        out.append([rket(w.r[sysn], w.own[pro]) if pro in w.own else rket(w.r[sysn])])
    us = None
    for k in range(n):
        for f in w.td:
            f(w, k, dt * (k + 1))
        if us is None or w.td:
            us = [operator(w, sysn, pro) for sysn, pro in entries]
        for u, st in zip(us, out):
            st.append(u @ st[-1] if st[-1].shape[1] == 1 else u @ st[-1] @ u.conj().T)
    return out


def check(w, sim, entries, node, label):
    """run sim and compare everything that it returns or passes on"""
    n = int(node.t // node.dt + 1)
    try:
        want = evolve(w, entries, n, node.dt)
    except NoState:
        raise Disabled()
    w.clear()
    got = sim.run()
    names = []
    for (sysn, pro), st in zip(entries, want):
        key = (w.i[sysn].name if pro is None else w.pi[pro].name) + 'Results'
        names.append(key)
        dele = (w.nodes[pro] if pro else w.nodes[sysn]).delstates
        if dele:
            equal(len(sim.states.get(key, [])), 0, f'{label}: number of kept states of {pro or sysn}')
            continue
        lst = sim.states[key]
        equal(len(lst), len(st), f'{label}: number of states of {pro or sysn}')
        for k, (a, b) in enumerate(zip(lst, st)):
            same(a, b, f'{label}: state {k} of {pro or sysn}')
        obj = w.i[sysn] if pro is None else w.pi[pro]
        equal(len(obj.qRes.states[key]), len(st), f'{label}: states in the results of {pro or sysn}')
        same(obj.qRes.states[key][-1], st[-1], f'{label}: last state in the results of {pro or sysn}')
    equal(sorted(k for k, v in sim.states.items() if len(v)), sorted(k for k in names if k in sim.states and
                                                                     len(sim.states[k])), f'{label}: names of the states')
    # the states passed to the compute functions
    if 'S' in w.log or sim is w.S:
        equal(len(w.log.get('S', [])), n + 1, f'{label}: calls of compute of the simulation')
        for k, lst in enumerate(w.log['S']):
            equal(len(lst), len(want), f'{label}: number of states passed to compute of the simulation')
            for x, (a, st) in enumerate(zip(lst, want)):
                same(a, st[k], f'{label}: state {x} passed to compute of the simulation at step {k}')
    first = {}
    for (sysn, pro), st in zip(entries, want):
        first.setdefault(sysn, st)
        if pro is not None:
            logged(w, pro, st, n, label)
            if pro in w.slog and not w.td and isinstance(w.pr[pro], RP) and any(RP.samples(s) > 1 for s in w.pr[pro].steps):
                equal(len(w.slog[pro][0]), 0, f'{label}: number of sampled states of {pro} before the first step')
                for k in range(n):
                    want_s, got_s = w.pr[pro].sampled(w, st[k]), w.slog[pro][k + 1]
                    equal(len(got_s), len(want_s), f'{label}: number of the sampled states of {pro} in step {k + 1}')
                    for x, (a, b) in enumerate(zip(got_s, want_s)):
                        same(a, b, f'{label}: sampled state {x} of {pro} in step {k + 1}')
    for sysn in w.i:
        if sysn in first:
            logged(w, sysn, first[sysn], n, label)
        else:
            equal(len(w.log.get(sysn, [])), 0, f'{label}: calls of compute of {sysn} that is not in the simulation')
    for pro in w.pi:
        if pro not in [p for _, p in entries]:
            equal(len(w.log.get(pro, [])), 0, f'{label}: calls of compute of {pro} that is not in the simulation')
    return got, want


def logged(w, name, st, n, label):
    if name not in w.log and (w.i.get(name) or w.pi.get(name)).compute is None:
        return
    log = w.log.get(name, [])
    equal(len(log), n + 1, f'{label}: calls of compute of {name}')
    for k, a in enumerate(log):
        same(a, st[k], f'{label}: state passed to compute of {name} at step {k}')


# ---------------------------------------------------------------- operations
def run_S(w):
    if w.entries:
        check(w, w.S, list(w.entries), w.nodes['S'], 'S.run')


def run_own(name):
    def op(w):
        if name in w.i:
            sim, entries = w.i[name].simulation, [(name, None)]
        else:
            if name not in w.pi or getattr(w.pr[name], 'steps', True) == []:
                raise Disabled()
            sim, entries = w.pi[name].simulation, [(w.psys[name], name)]
        got, want = check(w, sim, entries, w.nodes[name], f'{name}.runSimulation')
        if not w.nodes[name].delstates:
            # the second run of the same simulation, through the other way of running it
            got2 = (w.i.get(name) or w.pi[name]).runSimulation()
            for g, what in ((got, 'run'), (got2, 'runSimulation')):
                equal(len(g), len(want[0]), f'{what} of {name} returns the states')
                same(g[-1], want[0][-1], f'last state returned by {what} of {name}')
    return (f'{name}.runSimulation()', op)


def s_run():
    def op(w):
        if not w.entries:
            raise Disabled()
        run_S(w)
    return ('S.run()', op)


def s_time(name, what, val):
    def op(w):
        if name not in w.nodes:
            raise Disabled()
        attr = {'t': 'totalTime', 'dt': 'stepSize', 'n': 'stepCount', 'samples': 'samples', 'del': 'delStates'}[what]
        sim = w.S if name == 'S' else (w.i.get(name) or w.pi[name]).simulation
        setattr(sim, attr, val)
        r = w.nodes[name]
        if what == 'samples':
            r.own_samples = val
        elif what == 'del':
            r.own_del = val
        else:
            getattr(r, 'set_' + what)(val)
    return (f'{name}.{what}={val}', op)


def s_pset(name, attr, val):
    def op(w):
        if name not in w.pi:
            raise Disabled()
        setattr(w.pi[name], attr, val)
        setattr(w.pr[name], attr, val)
    return (f'{name}.{attr}={val}', op)


def s_init(name, inp):
    def op(w):
        if name in w.i:
            r = w.r[name]
            if not fit(r, inp):
                raise Disabled()
            if w.own and r.subs == [] and r.sup is not None:
                pass
            w.i[name].initialState = inp
            assign(r, inp)
        else:
            if name not in w.pi or not fit(w.r[w.psys[name]], inp):
                raise Disabled()
            w.pi[name].initialState = inp
            w.own[name] = inp
    return (f'{name}.initialState={inp if not isinstance(inp, np.ndarray) else "mixed"}', op)


def s_dim(name, val):
    def op(w):
        if any(isinstance(x, np.ndarray) for x in (w.r[name].state, *w.own.values())):
            raise Disabled()   # has one dimension
        w.i[name].dimension = val
        w.r[name].dim = val
    return (f'{name}.dimension={val}', op)


def s_add_entry(sysn, pro, how='addSubSys'):
    def op(w):
        if (sysn, pro) in w.entries or (pro is None and any(s == sysn for s, _ in w.entries)):
            raise Disabled()
        if pro is not None and pro not in w.pi:
            raise Disabled()
        if how == 'addProtocol':
            w.S.addProtocol(w.pi[pro])
        elif pro is None:
            w.S.addQSystems(w.i[sysn])
        else:
            w.S.addSubSys(w.i[sysn], w.pi[pro])
        w.entries.append((sysn, pro))
    return (f'S.{how}({sysn}, {pro})', op)


def s_remove_sys(sysn):
    def op(w):
        if not any(s == sysn for s, _ in w.entries) or len({s for s, _ in w.entries}) < 2:
            raise Disabled()
        w.S.removeQSystems(w.i[sysn])
        w.entries = [(s, p) for s, p in w.entries if s != sysn]
    return (f'S.removeQSystems({sysn})', op)


def s_remove_pro(pro):
    def op(w):
        ent = [(s, p) for s, p in w.entries if p == pro]
        if not ent or len(w.entries) < 2:
            raise Disabled()
        w.S.removeProtocol(w.pi[pro])
        w.entries.remove(ent[0])
    return (f'S.removeProtocol({pro})', op)


def s_step(pro, step):
    def op(w):
        if len(w.pr[pro].steps) > 3:
            raise Disabled()
        w.pi[pro].addStep(w.pi[step])
        w.pr[pro].steps.append(w.pr[step])
    return (f'{pro}.addStep({step})', op)


def s_uread(name):
    def op(w):
        if name in w.i:
            same(w.i[name].unitary(), uexp(w.r[name].hamiltonian(), w.nodes[name].dt / w.nodes[name].samples),
                 f'{name}.unitary (read)')
        elif name in w.pi:
            w.pi[name].unitary()
        else:
            raise Disabled()
    return (f'read U({name})', op)


def s_iread(name):
    def op(w):
        try:
            same(w.i[name].initialState, rket(w.r[name]), f'{name}.initialState (read)')
        except NoState:
            raise Disabled()
    return (f'read {name}.initialState', op)


# ---------------------------------------------------------------- worlds
def pair(w, name='s'):
    leaf(w, 'a', qg.Cavity, 3, 1.0, 'number')
    leaf(w, 'b', qg.Qubit, 2, 2.0, 'Jz')
    w.i[name] = w.i['a'] + w.i['b']
    w.r[name] = RSys(name, None, [w.r['a'], w.r['b']])
    coupling(w, 'g', name, ['a', 'b'], ['create', 'sigmam'], 0.3)
    coupling(w, 'h', name, ['a', 'b'], ['destroy', 'sigmap'], 0.3)
    for n, st in (('a', 1), ('b', [0, 1])):
        w.i[n].initialState = st
        w.r[n].state = st


def b_system():
    COEF.clear()
    w = SimWorld()
    pair(w)
    leaf(w, 'd', qg.Qubit, 2, 0.5, 'Jx')
    w.i['d'].operator = qg.Jx
    w.i['d'].initialState = 0
    w.r['d'].state = 0
    w.nodes['s'] = Node('s')
    w.i['s'].simTotalTime = 1.0
    w.i['s'].simStepSize = 0.5
    w.nodes['s'].own_t, w.nodes['s'].own_dt = 1.0, 0.5
    w.i['s'].compute = record(w, 's')
    w.i['a'].compute = record(w, 'a')
    return w


def protocols(w):
    """F free, X gate, P = F X F, Q = X F.hc on system a"""
    w.pi['F'] = qg.freeEvolution(system=w.i['a'])
    w.nodes['F'] = Node('F', w.nodes['a'])
    w.pr['F'] = RF(w.r['a'], w.nodes['F'])
    g = qg.SpinRotation(angle=0.7, rotationAxis='x')
    g.addSubSys(w.i['a'])
    w.pi['X'] = g
    w.pr['X'] = RGate([w.r['a']], 'x', 0.7)
    w.pi['P'] = qg.qProtocol(system=w.i['a'])
    w.nodes['P'] = Node('P', w.nodes['a'])
    w.pi['P'].addStep(w.pi['F'], g)
    w.nodes['F'].parent = w.nodes['P']
    w.pr['P'] = RP(w.r['a'], [w.pr['F'], w.pr['X']])
    w.pi['Q'] = qg.qProtocol(system=w.i['a'])
    w.nodes['Q'] = Node('Q', w.nodes['a'])
    w.pi['Q'].addStep(g, w.pi['F'].hc)
    w.pr['Q'] = RP(w.r['a'], [w.pr['X'], RHc(w.pr['F'])])
    w.pi['G'] = qg.freeEvolution(system=w.i['a'], ratio=0.5)
    w.nodes['G'] = Node('G', w.nodes['a'])
    w.pr['G'] = RF(w.r['a'], w.nodes['G'])
    w.pr['G'].ratio = 0.5
    for p in 'FPQG':
        w.psys[p] = 'a'


def b_sim(entries=(('a', 'P'), ('b', None))):
    def build():
        COEF.clear()
        w = SimWorld()
        leaf(w, 'a', qg.Spin, 3, 1.0, 'Jz')
        leaf(w, 'b', qg.Qubit, 2, 2.0, 'Jx')
        w.i['b'].operator = qg.Jx
        w.S = qg.Simulation()
        w.nodes['S'] = Node('S')
        for n in 'ab':
            w.nodes[n] = Node(n, w.nodes['S'])
        w.i['a'].initialState = [0, 2]
        w.r['a'].state = [0, 2]
        w.i['b'].initialState = 0
        w.r['b'].state = 0
        protocols(w)
        for s, p in entries:
            w.S.addSubSys(w.i[s], *([] if p is None else [w.pi[p]]))
            w.entries.append((s, p))
        w.S.totalTime = 0.5
        w.S.stepSize = 0.5
        w.nodes['S'].own_t, w.nodes['S'].own_dt = 0.5, 0.5
        w.S.compute = record(w, 'S')
        for n in 'ab':
            w.i[n].compute = record(w, n)
        for n in 'PQG':
            w.pi[n].compute = record(w, n)
        return w
    return build


def b_own():
    """a with its protocols, no explicit simulation except the one b and a are added to"""
    return b_sim((('a', None), ('a', 'P'), ('b', None)))()


def final_own(names):
    def chk(w):
        for n in names:
            run_own(n)[1](w)
    return chk


def final_S(*own):
    def chk(w):
        run_S(w)
        run_S(w)
        for n in own:
            run_own(n)[1](w)
        run_S(w)
    return chk


def state(w):
    return ([r.key() for r in w.r.values() if r.sup is None], [(n, p.key()) for n, p in w.pr.items()],
            [n.key() for n in w.nodes.values()], list(w.entries), sorted((k, str(v)) for k, v in w.own.items()))


def prune(labels):
    return any(a == b and (a.startswith('read') or 'run' in a) for a, b in zip(labels, labels[1:]))


def s_rembelow(owner, sub):
    lab, f = s_rem(owner, sub)

    def op(w):
        if len(w.r[owner].subs) < 2:
            raise Disabled()
        f(w)
    return (lab, op)


# ---------------------------------------------------------------- orders of the construction
# step -> steps that have to be done before it
ORDER = {'state of a': '', 'state of b': '', 'a + b': '', 'coupling': ['a + b'], 'dimension of a': '', 'simulation': '',
         'protocol': ['a + b'], 'steps': ['protocol'], 'added': ['simulation', 'a + b', 'protocol'], 'times': ['simulation'],
         'sweep': ['simulation'], 'frequency': '', 'compute': ['a + b']}


def linear(steps):
    """all orders of the steps that respect the dependencies"""
    def rec(done):
        if len(done) == len(steps):
            yield tuple(done)
            return
        for s in steps:
            if s not in done and all(d in done for d in ORDER[s] if d in steps):
                yield from rec(done + [s])
    return list(rec([]))


def c_order(case):
    kind, order = case
    w = SimWorld()
    leaf(w, 'a', qg.Cavity, 2, 1.0, 'number')
    leaf(w, 'b', qg.Qubit, 2, 2.0, 'Jz')
    if 'state of b' not in order:
        w.i['b'].initialState = 0
    w.nodes['S'] = Node('S')
    for step in order:
        if step == 'state of a':
            w.i['a'].initialState = [0, 1]
        elif step == 'state of b':
            w.i['b'].initialState = 0
        elif step == 'dimension of a':
            w.i['a'].dimension = w.r['a'].dim = 3
        elif step == 'frequency':
            w.i['a'].frequency = w.tr['a'][1].freq = 0.3
        elif step == 'a + b':
            w.i['s'] = w.i['a'] + w.i['b']
            w.r['s'] = RSys('s', None, [w.r['a'], w.r['b']])
        elif step == 'coupling':
            coupling(w, 'g', 's', ['a', 'b'], ['create', 'sigmam'], 0.3)
            coupling(w, 'h', 's', ['a', 'b'], ['destroy', 'sigmap'], 0.3)
        elif step == 'compute':
            w.i['s'].compute = record(w, 's')
        elif step == 'simulation':
            w.S = qg.Simulation()
        elif step == 'times':
            w.S.stepSize, w.S.totalTime = 0.5, 1.0
        elif step == 'sweep':
            w.S.Sweep.createSweep(system=w.i['b'], sweepKey='frequency', sweepList=[2.0, 3.0])
        elif step == 'protocol':
            w.pi['P'] = qg.qProtocol(system=w.i['s'])
        elif step == 'steps':
            w.pi['F'] = qg.freeEvolution(system=w.i['s'])
            w.pi['X'] = qg.SpinRotation(system=w.i['b'], angle=0.7, rotationAxis='x')
            w.pi['P'].addStep(w.pi['F'], w.pi['X'])
        elif kind == 'protocol':
            w.S.addProtocol(w.pi['P'], w.i['s'])
        elif kind == 'protocol first':
            w.S.addProtocol(w.pi['P'])
        elif kind == 'system':
            w.S.addQSystems(w.i['s'])
    w.r['a'].state, w.r['b'].state = [0, 1], 0
    w.nodes['S'].own_t, w.nodes['S'].own_dt = (1.0, 0.5)
    w.nodes['s'] = w.nodes['F'] = w.nodes['P'] = w.nodes['S']
    w.pr['F'] = RF(w.r['s'], w.nodes['S'])
    w.pr['X'] = RGate([w.r['b']], 'x', 0.7)
    w.pr['P'] = RP(w.r['s'], [w.pr['F'], w.pr['X']])
    entries = [('s', None if kind == 'system' else 'P')]
    points = [2.0, 3.0] if 'sweep' in order else [2.0]
    want = []
    for freq in points:
        w.tr['b'][1].freq = freq
        want.append(evolve(w, entries, 3)[0])
    for label in ('run', 'second run'):
        w.clear()
        w.S.run(p=False)
        name = (w.i['s'].name if kind == 'system' else w.pi['P'].name) + 'Results'
        got = w.S.states[name]
        got = got if 'sweep' in order else [got]
        equal(len(got), len(want), f'{label}: number of points')
        for x, y in zip(got, want):
            equal(len(x), len(y), f'{label}: number of states')
            for k, (p, q) in enumerate(zip(x, y)):
                same(p, q, f'{label}: state {k}')
        if 'compute' in order:
            equal(len(w.log.get('s', [])), sum(len(y) for y in want), f'{label}: calls of compute')
            for k, (p, q) in enumerate(zip(w.log['s'], [q for y in want for q in y])):
                same(p, q, f'{label}: state {k} passed to compute')


def orders(kind, steps):
    return lambda: [(kind, o) for o in linear(steps)]


BASE = ['state of a', 'state of b', 'a + b', 'coupling', 'simulation', 'added', 'times']


# ---------------------------------------------------------------- ways of composing a simulation
WAYS = {'Simulation(a)': (lambda w: qg.Simulation(w.i['a']), [('a', None)]),
        'Simulation([b, a])': (lambda w: qg.Simulation([w.i['b'], w.i['a']]), [('b', None), ('a', None)]),
        'Simulation(system=(a, b))': (lambda w: qg.Simulation(system=(w.i['a'], w.i['b'])), [('a', None), ('b', None)]),
        'Simulation(subSys=b)': (lambda w: qg.Simulation(subSys=w.i['b']), [('b', None)]),
        'Simulation()': (lambda w: qg.Simulation(), [])}


class RFixed(RF):
    """keeps the operator it created first when it is fixed"""
    fixed, memo = False, None

    def matrix(self, w):
        if not self.fixed or self.memo is None:
            self.memo = super().matrix(w)
        return self.memo

    def key(self):
        return super().key() + (self.fixed, None if self.memo is None else self.memo.tobytes())


def b_way(way):
    def build():
        COEF.clear()
        w = SimWorld()
        for n, (cls, dim, freq) in {'a': (qg.Spin, 3, 1.0), 'b': (qg.Qubit, 2, 2.0)}.items():
            leaf(w, n, cls, dim, freq, 'Jz')
            w.i[n].initialState = w.r[n].state = [0, 1]
            w.i[n].alias = 'the_' + n
            w.i[n].compute = record(w, n)
        w.S = WAYS[way][0](w)
        w.entries = list(WAYS[way][1])
        w.nodes['S'] = Node('S')
        for n in 'ab':
            w.nodes[n] = Node(n, w.nodes['S'])
        protocols(w)
        old = w.pr['G']
        w.pr['G'] = RFixed(old.sys, old.node)
        w.pr['G'].ratio = 0.5
        w.S.compute = record(w, 'S')
        for n in 'PQG':
            w.pi[n].compute = record(w, n)
        w.S.totalTime, w.S.stepSize = 0.5, 0.25
        w.nodes['S'].own_t, w.nodes['S'].own_dt = 0.5, 0.25
        return w
    return build


def grow(w, sysn, pro=None):
    if (sysn, pro) not in w.entries and not (pro is None and any(s == sysn for s, _ in w.entries)):
        w.entries.append((sysn, pro))


def shrink(w, pro):
    w.entries = [e for e in w.entries if e[1] != pro]


def w_op(label, func):
    def op(w):
        func(w)
    return (label, op)


def w_create(how):
    def op(w):
        if 'e' in w.i:
            raise Disabled()
        e = getattr(w.S, how)(qg.Qubit, frequency=3.0, initialState=[0, 1])
        w.i['e'] = e[0] if isinstance(e, tuple) else e
        w.r['e'] = RSys('e', 2)
        w.r['e'].terms.append(RTerm(3.0, ['Jz'], [1], [w.r['e']]))
        w.r['e'].state = [0, 1]
        w.nodes['e'] = Node('e', w.nodes['S'])
        w.i['e'].compute = record(w, 'e')
        grow(w, 'e')
    return (f'e = S.{how}(Qubit)', op)


def way_ops():
    def two(f, *g):
        def op(w):
            f(w)
            for x in g:
                x(w)
        return op

    def fix(val):
        def op(w):
            w.pi['G'].fixed = w.pr['G'].fixed = val
        return op

    def dim(w):
        w.i['a'].dimension = w.r['a'].dim = 2
        w.pr['G'].memo = None

    def absent(name):
        def chk(w):
            if any(s == name for s, _ in w.entries):
                raise Disabled()
        return chk

    def drop(*names):
        def op(w):
            w.entries = [(s, p) for s, p in w.entries if s not in names]
        return op

    def away(*names):
        def chk(w):
            if any(all(s != n for s, _ in w.entries) for n in names):
                raise Disabled()
        return chk
    return [
        w_op('S.addSubSys(a)', two(lambda w: w.S.addSubSys(w.i['a']), lambda w: grow(w, 'a'))),
        w_op('S.subSys = b', two(lambda w: setattr(w.S, 'subSys', w.i['b']), lambda w: w.entries.clear(),
                                 lambda w: grow(w, 'b'))),
        w_op('S.addQSystems([a, b])', two(lambda w: w.S.addQSystems([w.i['a'], w.i['b']]), lambda w: grow(w, 'a'),
                                          lambda w: grow(w, 'b'))),
        w_op("S.addSubSys('the_b')", two(absent('b'), lambda w: w.S.addSubSys('the_b'), lambda w: grow(w, 'b'))),
        w_op('S.addSubSys(a, Protocol=P)', two(lambda w: w.S.addSubSys(w.i['a'], Protocol=w.pi['P']), lambda w: grow(w, 'a', 'P'))),
        w_op('S.addProtocol([P, Q])', two(lambda w: w.S.addProtocol([w.pi['P'], w.pi['Q']]), lambda w: grow(w, 'a', 'P'),
                                          lambda w: grow(w, 'a', 'Q'))),
        w_op('S.addProtocol(G, system=a)', two(lambda w: w.S.addProtocol(w.pi['G'], w.i['a']), lambda w: grow(w, 'a', 'G'))),
        w_op('S.addProtocol(Q, protocolRemove=P)', two(lambda w: w.S.addProtocol(w.pi['Q'], protocolRemove=w.pi['P']),
                                                       lambda w: grow(w, 'a', 'Q'), lambda w: shrink(w, 'P'))),
        w_op('S.removeProtocol([P, G])', two(lambda w: w.S.removeProtocol([w.pi['P'], w.pi['G']]), lambda w: shrink(w, 'P'),
                                             lambda w: shrink(w, 'G'))),
        w_op('S.removeSubSys(a)', two(away('a'), lambda w: w.S.removeSubSys(w.i['a']), drop('a'))),
        w_op("S.removeQSystems('the_b')", two(away('b'), lambda w: w.S.removeQSystems('the_b'), drop('b'))),
        w_op('S.removeSubSys([a, b])', two(away('a', 'b'), lambda w: w.S.removeSubSys([w.i['a'], w.i['b']]), drop('a', 'b'))),
        w_create('createSubSys'), w_create('createQSystems'),
        w_op('G.fixed', fix(True)), w_op('G not fixed', fix(False)), w_op('a.dimension=2', dim),
        s_freq('a', 2.0), w_op('read U(G)', two(away('a'), lambda w: same(w.pi['G'].unitary(), w.pr['G'].matrix(w), 'G.unitary (read)'))), s_run()]


def final_way(w):
    equal([s.name.name for s in w.S.qSystems], [w.i[s].name.name for s, _ in w.entries], 'systems of the simulation')
    for (_, p), k in zip(w.entries, w.S.protocols):
        if p is not None:
            equal(k is w.pi[p], True, f'{p} is in the protocols of the simulation')
    final_S()(w)


# ---------------------------------------------------------------- long runs
SIZES = tuple(range(4, 36)) + (48, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257)


def size_domain(deep):
    out = []
    for kind in ('system', 'simulation', 'mixed'):
        for n in SIZES + ((499, 500, 501, 512, 1000, 1001) if deep else ()):
            out += [(kind, dt, (n, 2, n)) for dt in ((0.5, 0.125) if n < 40 or deep else (0.125,))]
            out.append((kind, 0.25, (2, n)))
    return out


def c_size(case):
    kind, dt, sizes = case
    w = b_system() if kind != 'simulation' else b_sim()()
    name = 'S' if kind == 'simulation' else 's'
    if kind == 'mixed':
        w.i['b'].initialState = w.r['b'].state = rhos(2)
    s_time(name, 'dt', dt)[1](w)
    for k, n in enumerate(sizes):
        s_time(name, 't', dt * (n - 1))[1](w)    # n steps
        s_freq('a', 1.0 + 0.25 * k)[1](w)
        (s_run() if name == 'S' else run_own(name))[1](w)


def components(tier):
    k = 1 if tier == 'thorough' else 0
    system = [s_freq('a', 2.0), s_freq('h', 0.7), s_new('t', 'a', 'number', 0.4, 2), s_del('h'), s_dim('a', 2),
              s_dim('a', 4), s_init('a', 0), s_init('b', rhos(2)), s_init('b', 1), s_init('s', [0, 1]), s_time('s', 't', 0.5),
              s_time('s', 'dt', 0.25), s_time('s', 'n', 2), s_time('s', 'del', True), s_time('s', 'del', False),
              s_add('s', 'd'), s_rembelow('s', 'a'), s_rembelow('s', 'd'), s_uread('s'), s_iread('s'), s_hread('s'),
              run_own('s')]
    sim = [s_freq('a', 2.0), s_freq('b', 0.5), s_dim('a', 2), s_init('a', 1), s_init('b', [0, 1]), s_init('b', rhos(2)), s_init('P', 0),
           s_pset('F', 'ratio', -1), s_pset('X', 'angle', 1.1), s_time('S', 'dt', 0.25), s_time('S', 't', 1.0),
           s_time('S', 'del', True), s_time('P', 'del', True), s_time('a', 'dt', 0.1), s_time('b', 'dt', 0.125),
           s_step('P', 'X'), s_add_entry('a', 'Q'), s_add_entry('a', 'G', 'addProtocol'), s_remove_pro('P'),
           s_remove_sys('b'), s_add_entry('b', None), s_uread('Q'), s_run()]
    own = [s_freq('a', 2.0), s_init('a', 1), s_init('P', rhos(3)), s_init('P', 2), s_time('S', 'dt', 0.25), s_time('a', 'dt', 0.125),
           s_time('a', 't', 1.0), s_time('P', 'dt', 0.2), s_dim('a', 4), s_remove_pro('P'), s_remove_sys('a'),
           s_pset('X', 'angle', 1.1), run_own('a'), run_own('b'), run_own('P'), run_own('Q'), run_own('G'), s_run()]
    samp = [s_time('F', 'samples', 2), s_time('F', 'samples', 1), s_time('F', 'samples', 3), s_freq('a', 2.0),
            s_pset('F', 'ratio', 2), s_add_entry('a', 'Q'), s_step('P', 'F'), s_step('P', 'G'), s_time('S', 'dt', 0.25),
            s_init('a', 0), s_init('a', rhos(3)), s_uread('P'), s_run(), run_own('P')]
    return [
        *[Histories(f'composed, {way}', b_way(way), way_ops(), final_way, (2 if way != 'Simulation()' else 3) + k, state, prune) for way in WAYS],
        Histories('system', b_system, system, final_own(['s']), 3 + k, state, prune),
        Histories('several protocols', b_sim(), sim, final_S(), 3 + k, state, prune),
        Histories('own simulations', b_own, own, final_S('a', 'P', 'G', 'b'), 3 + k, state, prune),
        Histories('samples of steps', b_sim((('a', 'P'), ('a', 'G'))), samp, final_S('P'), 3 + k, state, prune),
        Cases('long runs', lambda: size_domain(k), c_size, 4),
        Cases('orders of construction: system', orders('system', BASE + ['dimension of a'] + ['sweep'] * k),
              c_order, 16),
        Cases('orders of construction: protocol',
              orders('protocol', [b for b in BASE if b != 'coupling'] + ['protocol', 'steps'] + ['sweep'] * k), c_order, 16),
        Cases('orders of construction: protocol of a system',
              orders('protocol first', [b for b in BASE if b != 'state of b'] + ['protocol', 'steps'] + ['frequency'] * k), c_order, 16),
    ]
