"""C21: updates of a step are local to the step and always restored."""
import itertools
import numpy as np
import quanguru as qg
from mc.core import Histories, Cases, Disabled
from mc.ref import RSys, uexp, expm, liouvillian, vec, unvec
from mc.util import same, equal
from .c01 import leaf, coupling, s_freq, s_read
from .c03 import PWorld, RFree, RGate, RHc, RPro, s_pset
from .c04 import rket

PROPERTY = 'C21'
LEVEL = 'model_checking'
ASSUMPTIONS = ['updates of systems, couplings, attributes of the steps, and dissipators',
               'an update of a dissipator belongs to the step (or protocol) of the dissipator or to a protocol around it (the opposite is a known finding)']


class RUpd:
    """targets are pairs (object of the reference, name of its attribute)"""
    def __init__(self, targets, value, func=None):
        self.targets, self.value, self.func = targets, value, func

    def key(self):
        return (self.value, len(self.targets), self.func and self.func.__name__,
                tuple(getattr(o, a) for o, a in self.targets))


class Upd:
    """a step of the reference with its updates"""
    def __init__(self, step):
        self.step, self.updates = step, []

    def matrix(self, w):
        back = []
        for u in self.updates:
            back.append([(o, a, getattr(o, a)) for o, a in u.targets])
            for o, a in u.targets:
                setattr(o, a, u.value if u.func is None else u.func(getattr(o, a), u.value))
        out = self.step.matrix(w)
        for vals in reversed(back):
            for v in vals:
                setattr(*v)
        return out

    def key(self):
        return ('upd', self.step.key(), [u.key() for u in self.updates])

    # attributes of the wrapped step
    def __getattr__(self, name):
        return getattr(self.__dict__['step'], name)

    def __setattr__(self, name, val):
        if name in ('step', 'updates'):
            self.__dict__[name] = val
        else:
            setattr(self.step, name, val)


class UFree(RFree):
    def __init__(self, sys):
        super().__init__(sys)
        self.samples = 1

    def matrix(self, w):
        return uexp(self.sys.hamiltonian(), w.dt * self.ratio / self.samples)

    def key(self):
        return ('free', self.sys.name, self.ratio, self.samples)


def samples(step):
    while isinstance(step, (Upd, RHc)):
        step = step.step
    return getattr(step, 'samples', 1)


def evolution(p, w):
    """the operator of one step of the simulation: each step of the protocol as often as it has samples"""
    if not isinstance(p.step, RPro) or all(samples(s) == 1 for s in p.step.steps):
        return p.matrix(w)
    every = Upd(RPro(p.step.sys, [s for s in p.step.steps for _ in range(samples(s))]))
    every.updates = p.updates
    return every.matrix(w)


class UWorld(PWorld):
    def __init__(self):
        super().__init__()
        self.ui, self.ur = {}, {}
        self.S = None
        self.tops = []


def target(w, name, key):
    """(object of the library, (object of the reference, attribute))"""
    if name in w.pi:
        r = w.pr[name].step
        return w.pi[name], (r, {'rotationAxis': 'axis'}.get(key, key))
    t = w.tr[name][1]
    if key == 'operator':
        raise ValueError(key)
    return (w.ti.get(name) or w.i[name]), (t, {'frequency': 'freq'}[key])


def double(old, val):
    return old * val


def add_update(w, name, step, systems, key, val, how='create', func=None):
    pairs = [target(w, s, key) for s in systems]
    objs = [p[0] for p in pairs]
    sys = objs if len(objs) > 1 else objs[0]
    if how == 'name':
        w.ui[name] = w.pi[step].createUpdate(system=[str(o.name) for o in objs], key=key, value=val)
    elif how == 'create':
        kw = {}
        if func is not None:
            kw['updateFunction'] = custom
        w.ui[name] = w.pi[step].createUpdate(system=sys, key=key, value=val, **kw)
    elif how == 'add':
        w.ui[name] = qg.classes.QPro.Update(system=sys, key=key, value=val)
        w.pi[step].addUpdate(w.ui[name])
    elif how == 'later':
        w.ui[name] = w.pi[step].createUpdate(key=key)
        for o in objs:
            w.ui[name].addSubSys(o)
        w.ui[name].value = val
    w.ur[name] = RUpd([p[1] for p in pairs], val, func)
    w.pr[step].updates.append(w.ur[name])


def custom(upd):
    for s in upd.subSys.values():
        setattr(s, upd.key, getattr(s, upd.key) * upd.value)


def u_new(name, step, systems, key, val, how='create', func=None):
    def op(w):
        if name in w.ui:
            raise Disabled()
        add_update(w, name, step, systems, key, val, how, func)
    return (f'{name}={step}.createUpdate({systems},{key},{val})', op)


def u_share(name, step):
    """the same update for another step"""
    def op(w):
        if name not in w.ui or w.ur[name] in w.pr[step].updates:
            raise Disabled()
        w.pi[step].addUpdate(w.ui[name])
        w.pr[step].updates.append(w.ur[name])
    return (f'{step}.addUpdate({name})', op)


def u_val(name, val):
    def op(w):
        if name not in w.ui:
            raise Disabled()
        w.ui[name].value = val
        w.ur[name].value = val
    return (f'{name}.value={val}', op)


def s_step(pro, step, hc=False, most=4):
    def op(w):
        if len(w.pr[pro].steps) >= most:
            raise Disabled()
        w.pi[pro].addStep(w.pi[step].hc if hc else w.pi[step])
        w.pr[pro].steps.append(RHc(w.pr[step]) if hc else w.pr[step])
    return (f'{pro}.addStep({step}{".hc" if hc else ""})', op)


def restored(w, label):
    for n, (s, t) in w.tr.items():
        equal((w.ti.get(n) or w.i[n]).frequency, t.freq, f'{label}: {n}.frequency')
    for n, p in w.pr.items():
        if isinstance(p.step, RGate):
            equal(w.pi[n].angle, p.angle, f'{label}: {n}.angle')
        else:
            equal(w.pi[n].ratio, getattr(p.step, 'ratio', 1), f'{label}: {n}.ratio')


def s_samples(name, val):
    def op(w):
        w.pi[name].simulation.samples = val
        w.pr[name].step.samples = val
    return (f'{name}.samples={val}', op)


def u_read(name):
    def op(w):
        same(w.pi[name].unitary(), w.pr[name].matrix(w), f'{name}.unitary (read)')
        restored(w, f'after {name}.unitary')
    return (f'read U({name})', op)


def u_run():
    def op(w):
        run(w, 'run')
    return ('run', op)


def run(w, label):
    w.S.run()
    for sysn, p in w.tops:
        want = [rket(w.r[sysn])]
        m = evolution(w.pr[p], w)
        got = w.S.states[w.pi[p].name + 'Results']
        for k, a in enumerate(got):
            if k:
                want.append(m @ want[-1])
            same(a, want[k], f'{label}: state {k} of {p}')
    restored(w, f'after {label}')


def final(order, sysn='c'):
    def check(w):
        restored(w, 'at the end')
        for rnd in ('', ' (second read)'):
            for n in order:
                if n in w.pi:
                    same(w.pi[n].unitary(), w.pr[n].matrix(w), f'{n}.unitary{rnd}')
            restored(w, 'after the unitaries')
            same(w.i[sysn].unitary(), uexp(w.r[sysn].hamiltonian(), w.dt), f'{sysn}.unitary{rnd}')
            same(w.i[sysn].totalHamiltonian, w.r[sysn].hamiltonian(), f'{sysn}.totalHamiltonian{rnd}')
        run(w, 'final run')
    return check


def s_ham(name):
    label, f = s_read(name)
    return (label, f)


def s_uni(name):
    def op(w):
        same(w.i[name].unitary(), uexp(w.r[name].hamiltonian(), w.dt), f'{name}.unitary (read)')
    return (f'read {name}.unitary', op)


def state(w):
    return ([r.key() for r in w.r.values() if r.sup is None], [(n, p.key()) for n, p in w.pr.items()], w.dt)


def no_double(labels):
    return any(a == b and (a.startswith('read') or a == 'run') for a, b in zip(labels, labels[1:]))


# ---------------------------------------------------------------- worlds
def free(w, name, sysn):
    w.pi[name], w.pr[name] = qg.freeEvolution(system=w.i[sysn]), Upd(UFree(w.r[sysn]))


def gate(w, name, systems, axis, angle):
    g = qg.SpinRotation(angle=angle, rotationAxis=axis)
    for s in systems:
        g.addSubSys(w.i[s])
    w.pi[name], w.pr[name] = g, Upd(RGate([w.r[s] for s in systems], axis, angle))


def pro(w, name, sysn, steps):
    w.pi[name], w.pr[name] = qg.qProtocol(system=w.i[sysn]), Upd(RPro(w.r[sysn]))
    for s in steps:
        s_step(name, s.split('.')[0], s.endswith('.hc'), 9)[1](w)


def base(w):
    a = leaf(w, 'a', qg.Qubit, 2, 1.0, 'Jz')
    b = leaf(w, 'b', qg.Cavity, 2, 2.0, 'number')
    a.initialState, b.initialState = [0, 1], 1
    w.i['c'] = a + b
    w.r['c'] = RSys('c', None, [w.r['a'], w.r['b']])
    w.r['a'].state, w.r['b'].state = [0, 1], 1
    coupling(w, 'g', 'c', ['a', 'b'], ['sigmax', 'create'], 0.3)
    coupling(w, 'h', 'c', ['a', 'b'], ['sigmax', 'destroy'], 0.3)
    w.i['c'].simulation.stepSize = w.dt


def simulate(w, *tops):
    w.S = qg.Simulation()
    w.S.stepSize, w.S.totalTime = w.dt, w.dt
    for p in tops:
        w.S.addProtocol(protocol=w.pi[p], system=w.i['c'])
        w.tops.append(('c', p))


def b_one():
    """three free evolutions and a gate; one of the free evolutions has an update"""
    w = UWorld()
    base(w)
    free(w, 'F', 'c')
    free(w, 'G', 'c')
    gate(w, 'X', ['a'], 'x', 0.7)
    pro(w, 'P', 'c', ['F', 'X', 'G'])
    add_update(w, 'u', 'F', ['a'], 'frequency', 0)
    simulate(w, 'P')
    return w


def b_copies():
    """the step with the update is used several times, also as a conjugate, and in two protocols"""
    w = UWorld()
    base(w)
    free(w, 'F', 'c')
    free(w, 'G', 'c')
    pro(w, 'P', 'c', ['F', 'G', 'F', 'F.hc'])
    pro(w, 'Q', 'c', ['G', 'F'])
    add_update(w, 'u', 'F', ['g', 'h'], 'frequency', 0)
    simulate(w, 'P', 'Q')
    return w


def b_nested():
    """updates of the protocol and of its steps, and of a protocol inside of a protocol"""
    w = UWorld()
    base(w)
    free(w, 'F', 'c')
    free(w, 'G', 'c')
    gate(w, 'X', ['a'], 'y', 0.4)
    pro(w, 'P', 'c', ['F', 'X'])
    pro(w, 'R', 'c', ['P', 'G'])
    add_update(w, 'u', 'P', ['a'], 'frequency', 3.0)
    add_update(w, 'v', 'F', ['b'], 'frequency', 0.5)
    simulate(w, 'R')
    return w


def b_samples():
    """several samples of the steps, updates of the steps and of the protocol"""
    w = UWorld()
    base(w)
    free(w, 'F', 'c')
    gate(w, 'X', ['a'], 'y', 0.4)
    pro(w, 'P', 'c', ['F', 'X'])
    add_update(w, 'u', 'P', ['a'], 'frequency', 3.0)
    s_samples('F', 2)[1](w)
    simulate(w, 'P')
    return w


# ---------------------------------------------------------------- dissipators
DKEYS = {'jRate': (0.6, 0.2), 'temperature': (2.5, 1.5), 'bath': (0.7, 1.5), 'charFreq': (0.5, 1.0)}


def nbar(freq, temp):
    return 1 / (np.exp(freq / temp) - 1) if temp else 0.0


def diss_domain():
    """dissipator on (the free evolution F, the protocol P in R, or R), update of ..., key, second update, samples"""
    inner = {'F': 'FPR', 'P': 'PR', 'R': 'R'}
    return [(d, u, key, temp, extra, mode) for d in 'FPR' for u in inner[d] for key in DKEYS for temp in (0, 1.5)
            for extra in ('', 'same', 'frequency', 'twice') for mode in ('run', 'samples', 'read first', 'change')] + \
        [('own', 'own', key, temp, extra, mode) for key in DKEYS for temp in (0, 1.5) for extra in ('', 'same', 'frequency')
         for mode in ('run', 'samples', 'read first', 'change')]


def diss_outer_domain():
    return [('P', 'F', 'jRate', 0, '', 'run'), ('R', 'P', 'jRate', 0, '', 'run'), ('R', 'F', 'temperature', 1.5, '', 'run')]


def c_diss(case):
    """R = [P, G] and P = [F, X], or the own free evolution of the system, with a dissipator and an update of it"""
    place, at, key, temp, extra, mode = case
    q = qg.Qubit(frequency=1.0, initialState=[0, 1])
    q.simulation.stepSize = 0.5
    f, g = qg.freeEvolution(system=q), qg.freeEvolution(system=q, ratio=0.5)
    x = qg.SpinRotation(system=q, angle=0.7, rotationAxis='x')
    p = qg.qProtocol(system=q, steps=[f, x])
    r = qg.qProtocol(system=q, steps=[p, g])
    bath = qg.thermalBath(temperature=temp, charFreq=1.0)
    d = qg.dissipatorObj(system=q, jOper=qg.QuantumToolbox.sigmam(), jRate=0.2)
    steps = {'F': f, 'P': p, 'R': r, 'own': q._freeEvol}
    if place != 'own':
        d.addToProtocol(steps[place])
    bath.dissipator = d
    vals = {'jRate': 0.2, 'temperature': temp, 'charFreq': 1.0, 'frequency': 1.0}
    objs = {'jRate': (d, 'jRate'), 'temperature': (d, 'temperature'), 'bath': (bath, 'temperature'), 'charFreq': (bath, 'charFreq'),
            'frequency': (q, 'frequency')}
    top = steps['own'] if place == 'own' else r
    updates = {n: [] for n in steps}

    def add(step, k, val):
        updates[step].append(('temperature' if k == 'bath' else k, val))
        steps[step].createUpdate(system=objs[k][0], key=objs[k][1], value=val)
    if mode == 'samples':
        (steps['own'] if place == 'own' else g).simulation.samples = 2
    if mode == 'read first':
        top.unitary()
    add(at, key, DKEYS[key][0])
    if extra == 'same':
        add(at, key, DKEYS[key][1])
    elif extra == 'twice':
        add('own' if place == 'own' else 'R', key, DKEYS[key][1])
    elif extra:
        add(at, extra, 2.5)

    def rate(v):
        return v['jRate'] * (nbar(v['charFreq'], v['temperature']) + 1)

    def updated(step, v):
        v = dict(v)
        v.update(updates[step])
        return v

    def lind(v, ratio, on):
        h = v['frequency'] * np.diag([0.5, -0.5])
        ops, rates = ([np.array([[0, 0], [1, 0]])], [rate(v)]) if on else ([], [])
        return expm(liouvillian(h, ops, rates) * 0.5 * ratio)

    def rotation():
        u = uexp(np.array([[0, 0.5], [0.5, 0]]), 0.7)
        return np.kron(u.conj(), u)

    def oper():
        if place == 'own':
            v = updated('own', vals)
            return lind(v, 1 / (2 if mode == 'samples' else 1), True)
        v = updated('R', vals)
        w = updated('P', v)
        m = rotation() @ lind(updated('F', w), 1, True)
        n = lind(v, 0.25 if mode == 'samples' else 0.5, place == 'R')
        return n @ (n if mode == 'samples' else np.eye(4)) @ m

    def user(label):
        equal(round(d.jRate, 12), round(rate(vals), 12), f'{label}: rate of the dissipator')
        equal(d.temperature, vals['temperature'], f'{label}: temperature of the dissipator')
        equal(bath.temperature, vals['temperature'], f'{label}: temperature of the bath')
        equal(bath.charFreq, vals['charFreq'], f'{label}: frequency of the bath')
        equal(q.frequency, 1.0, f'{label}: frequency of the system')

    def check(label):
        user(label)
        if mode != 'samples' or place == 'own':
            same(top.unitary(), oper(), f'{label}: operator')
            user(label + ', after the operator')
        s = qg.Simulation()
        s.stepSize, s.totalTime = 0.5, 1.0
        if place == 'own':
            s.addSubSys(q)
            steps['own'].simulation.samples = 2 if mode == 'samples' else 1
        else:
            s.addProtocol(protocol=r, system=q)
        for rnd in (1, 2):
            s.run()
            rho = np.full((2, 2), 0.5, dtype=complex)
            got = s.states[(q if place == 'own' else r).name + 'Results']
            equal(len(got), 4, f'{label}: number of states')
            for k, a in enumerate(got):
                same(a, rho, f'{label}: state {k} of the run {rnd}')
                rho = unvec(oper() @ vec(rho))
            user(f'{label}, after the run {rnd}')
    check('first')
    if mode == 'change':
        d.jRate = vals['jRate'] = 0.35
        check('another rate')
        bath.temperature = vals['temperature'] = 0.9
        check('another temperature')
        d.temperature = vals['temperature'] = 0
        check('no temperature')


def components(tier):
    k = 1 if tier == 'thorough' else 0
    one = [u_val('u', 2.0), u_val('u', 1.0), u_new('v', 'F', ['b', 'g'], 'frequency', 0.5), u_new('v', 'F', ['a'], 'frequency', 3.0, 'add'),
           u_new('w', 'X', ['X'], 'angle', 0.2), u_new('x', 'F', ['F'], 'ratio', -1), u_new('y', 'G', ['a'], 'frequency', 2.0, 'later'),
           u_new('z', 'F', ['a', 'b'], 'frequency', 2.0, 'create', double), u_share('u', 'G'),
           s_freq('a', 4.0), s_freq('g', 0.1), s_pset('X', 'angle', 1.5), u_read('P'), u_read('F'), u_read('G'), s_uni('c'), s_ham('c'),
           u_run()]
    copies = [u_val('u', 0.3), u_val('u', 0.9), u_new('v', 'G', ['g'], 'frequency', 1.0), u_new('v', 'F', ['a'], 'frequency', 3.0),
              u_new('w', 'P', ['b', 'a'], 'frequency', 0.1, 'name'), u_share('u', 'G'), u_share('u', 'Q'), s_freq('a', 4.0), s_freq('h', 0.1), s_pset('F', 'ratio', 0.5),
              s_step('Q', 'F', True), s_step('Q', 'P'), u_read('P'), u_read('Q'), u_read('F'), u_run()]
    nest = [u_val('u', 1.0), u_val('u', 0.0), u_val('v', 2.0), u_new('w', 'R', ['a'], 'frequency', 5.0), u_new('x', 'F', ['a'], 'frequency', 0.2),
            u_new('y', 'G', ['b'], 'frequency', 0.7), u_new('z', 'P', ['X'], 'angle', 0.1), s_freq('a', 4.0), s_freq('b', 0.2),
            s_pset('X', 'angle', 1.5), s_pset('F', 'ratio', 0.5), u_read('R'), u_read('P'), u_read('F'), u_run()]
    samp = [u_val('u', 1.0), u_val('u', 0.5), u_new('v', 'F', ['b', 'a'], 'frequency', 0.5), u_new('w', 'P', ['X'], 'angle', 0.1),
            u_share('u', 'F'), s_samples('F', 3), s_samples('F', 1), s_freq('a', 4.0), s_pset('X', 'angle', 1.5), s_step('P', 'F'),
            s_step('P', 'X', True), u_read('P'), u_read('F'), u_run()]
    return [
        Cases('dissipators', diss_domain, c_diss, 4),
        Cases('dissipators of an outer protocol', diss_outer_domain, c_diss, 1),
        Histories('samples', b_samples, samp, final('PF'), 3 + k, state, no_double),
        Histories('updates of the steps', b_one, one, final('PFGX'), 3 + k, state, no_double),
        Histories('repeated and shared steps', b_copies, copies, final('QPF'), 3 + k, state, no_double),
        Histories('nested updates', b_nested, nest, final('RPF'), 3 + k, state, no_double),
    ]
