"""C03: evolution operators of protocols are always those of the current parameters and steps."""
import itertools
import numpy as np
import quanguru as qg
from mc.core import Histories, Cases, Disabled, Violation
from mc.ref import RSys, uexp, OPS, SX, SY, SZ
from mc.util import same, equal, dense
from .c01 import World, leaf, coupling, s_freq, s_dim, s_read, s_new, s_del, s_oper, s_order
from .c02 import s_add, s_rem

PROPERTY = 'C03'
LEVEL = 'model_checking'
ASSUMPTIONS = ['steps of a protocol take the time parameters of the first protocol they were added to, as documented']

PAU = {'x': SX, 'y': SY, 'z': SZ}
JS = {'x': 'Jx', 'y': 'Jy', 'z': 'Jz'}


class PWorld(World):
    def __init__(self):
        super().__init__()
        self.pi = {}     # name -> implementation protocol
        self.pr = {}     # name -> reference protocol
        self.dt = 0.5
        self.samples = 1


class RFree:
    def __init__(self, sys):
        self.sys, self.ratio, self.fixed, self.cached = sys, 1, False, None

    def matrix(self, w):
        if not (self.fixed and self.cached is not None):
            self.cached = uexp(self.sys.hamiltonian(), w.dt * self.ratio / w.samples)
        return self.cached

    def key(self):
        return ('free', self.sys.name, self.ratio, self.fixed, None if self.cached is None else
                np.round(self.cached, 9).tobytes() if self.fixed else 0)


class RGate:
    def __init__(self, systems, axis, angle):
        self.systems, self.axis, self.angle, self.phase, self.impl, self.fixed = systems, axis, angle, 1, None, False

    def matrix(self, w):
        out = None
        for s in self.systems:
            if self.impl is None:
                m = uexp(OPS[JS[self.axis]](s.dim), self.angle * self.phase)
            else:
                m = uexp(PAU[self.axis] / 2, self.angle)
            m = s.embed(m)
            out = m if out is None else m @ out
        return out

    def key(self):
        return ('gate', tuple(s.name for s in self.systems), self.axis, self.angle, self.phase, self.impl)


class RHc:
    def __init__(self, step, hc=True):
        self.step, self.hc = step, hc

    def matrix(self, w):
        m = self.step.matrix(w)
        return m.conj().T if self.hc else m

    def key(self):
        return ('hc' if self.hc else 'copy', self.step.key())


class RPro:
    def __init__(self, sys, steps=()):
        self.sys, self.steps, self.fixed = sys, list(steps), False

    def matrix(self, w):
        out = np.eye(self.sys.root.dim, dtype=complex)
        for s in self.steps:
            out = s.matrix(w) @ out
        return out

    def key(self):
        return ('pro', tuple(s.key() for s in self.steps))


# -------------------------------------------------------------- operations
def s_pread(name):
    def op(w):
        if name not in w.pi or (isinstance(w.pr[name], RPro) and not w.pr[name].steps):
            raise Disabled()
        same(w.pi[name].unitary(), w.pr[name].matrix(w), f'{name}.unitary (read)')
    return (f'read U({name})', op)


def s_uread(name):
    """the free evolution of the system itself"""
    def op(w):
        same(w.i[name].unitary(), uexp(w.r[name].hamiltonian(), w.dt / w.samples), f'{name}.unitary (read)')
    return (f'read {name}.unitary', op)


def s_pset(name, attr, val, rattr=None):
    def op(w):
        if name not in w.pi:
            raise Disabled()
        setattr(w.pi[name], attr, val)
        setattr(w.pr[name], rattr or attr, val)
    return (f'{name}.{attr}={val}', op)


def s_dt(name, val):
    def op(w):
        w.i[name].simulation.stepSize = val
        w.dt = val
    return (f'{name}.stepSize={val}', op)


def s_samples(name, val):
    def op(w):
        w.i[name].simulation.samples = val
        w.samples = val
    return (f'{name}.samples={val}', op)


def s_step(pro, step, hc=False, most=3, how='addStep'):
    def op(w):
        if len(w.pr[pro].steps) >= most:
            raise Disabled()
        if hc:
            w.pi[pro].addStep(w.pi[step].hc)
            w.pr[pro].steps.append(RHc(w.pr[step]))
        else:
            if how == 'steps':
                w.pi[pro].steps = [w.pi[step]]
            else:
                w.pi[pro].addStep(w.pi[step])
            w.pr[pro].steps.append(w.pr[step])
    return (f'{pro}.{how}({step}{".hc" if hc else ""})', op)


def s_unstep(pro, ind):
    def op(w):
        if ind >= len(w.pr[pro].steps) or len(w.pr[pro].steps) < 2:
            raise Disabled()
        w.pi[pro].removeSubSys(list(w.pi[pro].steps.values())[ind])
        del w.pr[pro].steps[ind]
    return (f'{pro}.remove step {ind}', op)


def s_newpro(name, sys, steps):
    """a new protocol that uses existing steps"""
    def op(w):
        if name in w.pi:
            raise Disabled()
        add_pro(w, name, sys, steps)
    return (f'{name}=qProtocol({steps})', op)


def add_pro(w, name, sys, steps):
    w.pi[name] = qg.qProtocol(system=w.i[sys])
    w.pr[name] = RPro(w.r[sys])
    for s in steps:
        if s.endswith('.hc'):
            w.pi[name].addStep(w.pi[s[:-3]].hc)
            w.pr[name].steps.append(RHc(w.pr[s[:-3]]))
        else:
            w.pi[name].addStep(w.pi[s])
            w.pr[name].steps.append(w.pr[s])


def add_free(w, name, sys):
    w.pi[name] = qg.freeEvolution(system=w.i[sys])
    w.pr[name] = RFree(w.r[sys])


def add_gate(w, name, systems, axis, angle, cls=qg.SpinRotation):
    kw = {} if cls is qg.xGate else {'rotationAxis': axis}
    g = cls(angle=angle, **kw)
    for s in systems:
        g.addSubSys(w.i[s])
    w.pi[name] = g
    w.pr[name] = RGate([w.r[s] for s in systems], axis, angle)


def final(order, systems=()):
    def check(w):
        for rnd in ('', ' (second read)'):
            for n in order:
                if n in w.pi and not (isinstance(w.pr[n], RPro) and not w.pr[n].steps):
                    same(w.pi[n].unitary(), w.pr[n].matrix(w), f'{n}.unitary{rnd}')
            for s in systems:
                same(w.i[s].unitary(), uexp(w.r[s].hamiltonian(), w.dt / w.samples), f'{s}.unitary{rnd}')
        for n in order:
            if n in w.pi and isinstance(w.pr[n], RPro):
                equal(len(w.pi[n].steps), len(w.pr[n].steps), f'number of steps of {n}')
    return check


def state(w):
    return ([r.key() for r in w.r.values() if r.sup is None], [(n, p.key()) for n, p in w.pr.items()], w.dt, w.samples)


def no_double(labels):
    return any(a == b and a.startswith('read') for a, b in zip(labels, labels[1:]))


# -------------------------------------------------------------- worlds
def base_pair(w):
    a = leaf(w, 'a', qg.Qubit, 2, 1.0, 'Jz')
    b = leaf(w, 'b', qg.Cavity, 2, 2.0, 'number')
    w.i['c'] = a + b
    w.r['c'] = RSys('c', None, [w.r['a'], w.r['b']])
    coupling(w, 'g', 'c', ['a', 'b'], ['sigmax', 'create'], 0.3)
    coupling(w, 'h', 'c', ['a', 'b'], ['sigmax', 'destroy'], 0.3)
    w.i['c'].simulation.stepSize = w.dt


def b_one():
    """single protocol with a free evolution, a gate, its conjugate and the free evolution again"""
    w = PWorld()
    base_pair(w)
    add_free(w, 'F', 'c')
    add_gate(w, 'X', ['a'], 'x', 0.7)
    add_pro(w, 'P', 'c', ['F', 'X', 'F', 'X.hc'])
    return w


def b_shared():
    """two protocols that share their steps, and a third one that contains the first one"""
    w = PWorld()
    base_pair(w)
    add_free(w, 'F', 'c')
    add_gate(w, 'X', ['a'], 'y', 0.4)
    add_pro(w, 'P', 'c', ['F', 'X'])
    add_pro(w, 'Q', 'c', ['X', 'F.hc', 'F'])
    add_pro(w, 'R', 'c', ['P', 'X'])
    return w


def b_edit():
    """edits of the lists of steps"""
    w = PWorld()
    base_pair(w)
    add_free(w, 'F', 'c')
    add_free(w, 'G', 'c')
    w.pi['G'].ratio = -0.5
    w.pr['G'].ratio = -0.5
    add_gate(w, 'X', ['a'], 'z', 0.4)
    add_pro(w, 'P', 'c', ['F'])
    add_pro(w, 'Q', 'c', ['X'])
    return w


def b_gates():
    """gates on several systems"""
    w = PWorld()
    for n, cls, d in (('a', qg.Qubit, 2), ('b', qg.Spin, 3), ('d', qg.Qubit, 2)):
        leaf(w, n, cls, d, 1.0, 'Jz')
    w.i['c'] = qg.QuantumSystem(subSys=[w.i[n] for n in 'abd'])
    w.r['c'] = RSys('c', None, [w.r[n] for n in 'abd'])
    w.i['c'].simulation.stepSize = w.dt
    add_gate(w, 'X', ['a', 'd'], 'x', 0.7, qg.xGate)
    add_gate(w, 'Y', ['b', 'a'], 'y', 1.1)
    add_pro(w, 'P', 'c', ['X', 'Y'])
    add_pro(w, 'Q', 'c', ['Y.hc', 'X'])
    return w


def b_fixed():
    w = PWorld()
    leaf(w, 'a', qg.Qubit, 2, 1.0, 'sigmax')
    w.i['a'].operator = qg.sigmax
    w.i['a'].simulation.stepSize = w.dt
    add_free(w, 'F', 'a')
    add_free(w, 'G', 'a')
    add_pro(w, 'P', 'a', ['F', 'G'])
    return w


def b_struct():
    """protocols of a composite that changes"""
    w = PWorld()
    base_pair(w)
    leaf(w, 'd', qg.Qubit, 2, 0.5, 'Jz')
    w.i['o'] = qg.QuantumSystem(subSys=[w.i['c']])
    w.r['o'] = RSys('o', None, [w.r['c']])
    w.i['o'].simulation.stepSize = w.dt
    w.i['c'].simulation.stepSize = w.dt
    add_free(w, 'F', 'o')
    add_gate(w, 'X', ['a'], 'x', 0.7)
    add_pro(w, 'P', 'o', ['F', 'X'])
    return w


def b_jump():
    """non-Hermitian part and a qubit outside of the coupling, a protocol with a single step, a bare gate"""
    w = PWorld()
    leaf(w, 'a', qg.Spin, 3, 1.0, 'Jz')
    w.i['a'].simulation.stepSize = w.dt
    add_free(w, 'F', 'a')
    add_gate(w, 'X', ['a'], 'x', 0.7)
    add_pro(w, 'P', 'a', ['X.hc', 'F', 'X'])
    add_pro(w, 'Q', 'a', ['P', 'F.hc', 'P.hc'])
    return w


PI = np.pi
VALUES = {'angle': [0.0, 0, 0.7, 0.7 + 1e-9, 0.7 + 2 * PI, 0.7 + 4 * PI, -0.7, PI, -PI, 2 * PI, 4 * PI, PI / 2, 1, 1e-9, np.float64(0.3), np.float32(0.25),
                    np.int64(2)],
          'phase': [1, 1.0, -1, 0, 1 + 1e-9, 0.5, 2, np.float64(-1.0), 1 + 2 * PI / 0.7],
          'ratio': [1, 1.0, -1, 0, 0.5, 1 + 1e-9, 2, np.float64(0.5), -0.5],
          'stepSize': [0.5, 0.5 + 1e-9, 0.25, 1, 2, 1e-9, np.float64(0.125), 1.5],
          'samples': [1, 2, 3, 4, np.int64(2)],
          'frequency': [1.0, 1, -1.0, 0, 1 + 1e-9, 1 + 4 * PI / 0.5, 2, np.float64(0.5), np.float32(0.25), np.int64(3)]}
WHERE = {'angle': 'X', 'phase': 'X', 'ratio': 'F', 'stepSize': 'c', 'samples': 'c', 'frequency': 'a'}


def fine(got, want, what):
    g = dense(got)
    if g.shape != want.shape or not np.max(np.abs(g - want)) <= 2e-12:
        raise Violation(f'{what} differs by {np.max(np.abs(g - want))} from the expected one')


def check_values(case):
    attr, vals, reads = case
    w = b_one()
    n = WHERE[attr]
    for v in vals:
        if attr == 'frequency':
            w.i[n].frequency = v
            w.tr[n][1].freq = float(v)
        elif n == 'c':
            setattr(w.i[n].simulation, attr, v)
            setattr(w, 'dt' if attr == 'stepSize' else attr, v)
        else:
            setattr(w.pi[n], attr, v)
            setattr(w.pr[n], attr, float(v))
        for p in reads:
            fine(w.pi[p].unitary(), w.pr[p].matrix(w), f'{p}.unitary after {n}.{attr}={vals}')
    for p in 'FXP':
        fine(w.pi[p].unitary(), w.pr[p].matrix(w), f'{p}.unitary at the end, after {n}.{attr}={vals}')


def value_cases(length):
    return [(a, v, r) for a, vals in VALUES.items() for v in itertools.product(vals, repeat=length) for r in ('P', 'PX', 'FP')]


def check_selection(case):
    """a gate on every ordered selection of the parts of a composite"""
    sel, cls, axis, impl, angle, opened = case
    w = PWorld()
    for n in 'abde':
        leaf(w, n, qg.Qubit, 2, 1.0, 'Jz')
    w.i['c'] = qg.QuantumSystem(subSys=[w.i[n] for n in 'abde'])
    w.r['c'] = RSys('c', None, [w.r[n] for n in 'abde'])
    w.i['c'].simulation.stepSize = w.dt
    add_gate(w, 'X', sel, 'x' if cls is qg.xGate else axis, 0.7, cls)
    for attr, rattr, val in (('rotationAxis', 'axis', axis), ('implementation', 'impl', impl), ('angle', 'angle', angle)):
        setattr(w.pi['X'], attr, val)
        setattr(w.pr['X'], rattr, val)
    add_pro(w, 'P', 'c', ['X', 'X.hc', 'X'])
    for n in 'XP' if opened else 'PX':
        fine(w.pi[n].unitary(), w.pr[n].matrix(w), f'{n}.unitary for a gate on {sel}')
    w.pi['X'].angle = w.pr['X'].angle = angle + 0.5
    for n in 'PX':
        fine(w.pi[n].unitary(), w.pr[n].matrix(w), f'{n}.unitary for a gate on {sel} after a change of the angle')


def selection_cases(most):
    return [(sel, cls, axis, impl, angle, first)
            for k in range(1, most + 1) for sel in itertools.permutations('abde', k)
            for cls, impls in ((qg.SpinRotation, [None]), (qg.xGate, [None, 'instant', 'flip']))
            for impl in impls for axis in 'xyz' for angle in (0.9, -2.0) for first in (False, True)]


# ---------------------------------------------------------------- words of steps and towers of protocols
def b_word():
    w = PWorld()
    leaf(w, 'a', qg.Spin, 3, 1.0, 'Jz')
    w.i['a'].simulation.stepSize = w.dt
    add_free(w, 'F', 'a')
    add_gate(w, 'X', ['a'], 'x', 0.7)
    add_gate(w, 'Y', ['a'], 'y', 0.4)
    return w


def compare(w, names, what):
    for n in names:
        fine(w.pi[n].unitary(), w.pr[n].matrix(w), f'{n}.unitary {what}')


def change(w, k):
    """a change of the parameters"""
    if k == 0:
        w.pi['X'].angle = w.pr['X'].angle = w.pr['X'].angle + 0.5
    elif k == 1:
        w.tr['a'][1].freq += 1.0
        w.i['a'].frequency = w.tr['a'][1].freq
    elif k == 2:
        w.pi['Y'].phase = w.pr['Y'].phase = -1
    else:
        w.pi['F'].ratio = w.pr['F'].ratio = 0.5


def check_word(case):
    word, how = case
    w = b_word()
    steps = [w.pi[x[0]].hc if x.endswith('.hc') else w.pi[x] for x in word]
    w.pr['P'] = RPro(w.r['a'], [RHc(w.pr[x[0]]) if x.endswith('.hc') else w.pr[x] for x in word])
    if how == 'constructor':
        w.pi['P'] = qg.qProtocol(system=w.i['a'], steps=steps)
    else:
        w.pi['P'] = qg.qProtocol(system=w.i['a'])
        if how == 'one by one':
            for x in steps:
                w.pi['P'].addStep(x)
        elif how == 'addStep':
            w.pi['P'].addStep(*steps)
        else:
            w.pi['P'].steps = steps
    equal(len(w.pi['P'].steps), len(word), 'number of the steps')
    compare(w, 'P', f'of {word}')
    for k in range(4):
        change(w, k)
        compare(w, 'P', f'of {word} after change {k}')
    pos = list(w.pi['P'].steps.values())
    mid = len(word) // 2
    if len(word) > 1:
        w.pi['P'].removeSubSys(pos[mid])
        del w.pr['P'].steps[mid]
        compare(w, 'P', f'of {word} without step {mid}')
        w.pi['P'].addStep(w.pi['Y'])
        w.pr['P'].steps.append(w.pr['Y'])
        compare(w, 'P', f'of {word} without step {mid} and with another one')


LETTERS = ('F', 'X', 'Y', 'X.hc', 'F.hc')


def word_domain(deep):
    hows = ('one by one', 'addStep', 'steps', 'constructor')
    out = [(wd, h) for n in range(1, 5 if deep else 4) for wd in itertools.product(LETTERS, repeat=n) for h in hows]
    out += [(wd, 'addStep') for wd in itertools.product(LETTERS, repeat=4)] * (not deep)
    for n in (5, 8, 9, 10, 11, 12, 13, 20, 21, 24, 33):   # long words: a period, and a tail that is different
        for m in (1, 2, 3):
            out += [((per * n)[:n - 1] + (last,), 'addStep') for per in itertools.product(LETTERS[:4], repeat=m)
                    for last in ('Y', 'X.hc')][::1 if deep else 7]
    return out


def check_tower(case):
    levels, top = case
    w = b_word()
    add_pro(w, 'P0', 'a', ['F', 'X'])
    names = ['P0']
    for i, (hc, before, after) in enumerate(levels):
        n = f'P{i + 1}'
        add_pro(w, n, 'a', ([before] if before else []) + [names[-1] + ('.hc' if hc else '')] + ([after] if after else []))
        names.append(n)
    order = names[::-1] if top else names
    for k in range(-1, 4):
        if k >= 0:
            change(w, k)
        compare(w, order, f'in the tower {levels} after change {k}')
    # a new step in the lowest protocol
    w.pi['P0'].addStep(w.pi['Y'])
    w.pr['P0'].steps.append(w.pr['Y'])
    compare(w, order, f'in the tower {levels} with a new step')


def tower_domain(depth):
    level = [(hc, b, a) for hc in (False, True) for b in (None, 'Y', 'P0') for a in (None, 'X')]
    return [(x, t) for n in range(2, depth + 1) for x in itertools.product(level, repeat=n) for t in (True, False)]


def s_reset(pro):
    def op(w):
        w.pi[pro].resetSubSys()
        w.pr[pro].steps.clear()
        equal(len(w.pi[pro].steps), 0, f'number of steps of {pro}')
    return (f'{pro}.resetSubSys()', op)


def components(tier):
    k = 1 if tier == 'thorough' else 0
    one = [s_freq('a', 2.0), s_freq('a', 1.0), s_freq('h', 0.8), s_dim('b', 3), s_dt('c', 0.25), s_dt('c', 0.5),
           s_samples('c', 2), s_pset('X', 'angle', 1.5), s_pset('X', 'phase', -1), s_pset('X', 'rotationAxis', 'y', 'axis'),
           s_pset('F', 'ratio', 0.5), s_pread('P'), s_pread('F'), s_pread('X'), s_uread('c'), s_read('c')]
    shared = [s_freq('b', 2.5), s_freq('g', 0.1), s_dim('b', 3), s_dt('c', 0.25), s_pset('X', 'angle', 1.5),
              s_pset('X', 'rotationAxis', 'z', 'axis'), s_pset('F', 'ratio', 2), s_new('t', 'b', 'number', 0.4),
              s_del('h'), s_pread('P'), s_pread('Q'), s_pread('R'), s_pread('F'), s_pread('X')]
    edit = [s_step('P', 'X'), s_step('P', 'F'), s_step('P', 'G', True), s_step('P', 'G'), s_step('Q', 'F'),
            s_step('Q', 'X', True, how='addStep'), s_step('Q', 'G', how='steps'), s_unstep('P', 0), s_unstep('P', 1),
            s_unstep('Q', 0), s_reset('P'), s_newpro('R', 'c', ['Q', 'P.hc']), s_freq('g', 0.1), s_pset('X', 'angle', 1.0),
            s_pset('G', 'ratio', 1), s_pread('P'), s_pread('Q'), s_pread('R')]
    gates = [s_pset('X', 'angle', 0.2), s_pset('Y', 'angle', -0.3), s_pset('X', 'implementation', 'instant', 'impl'),
             s_pset('X', 'implementation', None, 'impl'), s_pset('X', 'rotationAxis', 'y', 'axis'),
             s_pset('X', 'rotationAxis', 'z', 'axis'), s_pset('Y', 'phase', 0.5), s_pset('X', 'phase', 2), s_dim('b', 2),
             s_dim('b', 4), s_pread('X'), s_pread('Y'), s_pread('P'), s_pread('Q')]
    # the instantaneous implementation has no phase
    fixed = [s_pset('F', 'fixed', True), s_pset('F', 'fixed', False), s_pset('G', 'fixed', True), s_freq('a', 2.0),
             s_freq('a', 3.0), s_pset('F', 'ratio', 0.5), s_pread('F'), s_pread('P'), s_pread('G')]
    struct = [s_add('o', 'd'), s_add('c', 'd'), s_rem('o', 'd'), s_dim('b', 3), s_freq('d', 1.5), s_freq('h', 0.7),
              s_pset('X', 'angle', 0.1), s_pread('P'), s_pread('F'), s_pread('X'), s_uread('o'), s_read('a')]
    jump = [s_freq('a', 2.0), s_oper('a', 'Jx'), s_order('a', 2), s_dim('a', 2), s_new('t', 'a', 'Jp', 0.3),
            s_pset('X', 'angle', 1.5), s_pset('F', 'ratio', -1), s_dt('a', 0.1), s_pread('P'), s_pread('Q'), s_pread('F'),
            s_uread('a')]
    comps = [
        Histories('one protocol', b_one, one, final('PFX', 'c'), 3 + k, state, no_double),
        Histories('shared steps', b_shared, shared, final('RQP'), 3 + k, state, no_double),
        Histories('lists of steps', b_edit, edit, final('PQR'), 3 + k, state, no_double),
        Histories('gates', b_gates, gates, final('PQXY'), 3 + k, state, no_double),
        Histories('fixed steps', b_fixed, fixed, final('PFG'), 3 + 2 * k, state, no_double),
        Histories('changing composite', b_struct, struct, final('PXF'), 3 + k, state, no_double),
        Cases('values', value_cases(2 + k), check_values, 40),
        Cases('words of steps', lambda: word_domain(k), check_word, 30),
        Cases('towers of protocols', lambda: tower_domain(3), check_tower, 20),
        Cases('gates on selections of systems', selection_cases(3 + k), check_selection, 40),
        Histories('nested conjugates', b_jump, jump, final('QPF'), 3 + k, state, no_double),
    ]
    if k:   # another order of the final reads
        comps += [
            Histories('one protocol, steps first', b_one, one, final('XFP'), 4, state, no_double),
            Histories('shared steps, other order', b_shared, shared, final('PXFQR'), 4, state, no_double),
            Histories('lists of steps, other order', b_edit, edit, final('RQPFGX'), 4, state, no_double),
        ]
    return comps



