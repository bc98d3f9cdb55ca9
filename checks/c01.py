"""C01: Hamiltonians are fresh after every sequence of parameter changes and reads."""
import functools
import itertools
import numpy as np
import scipy.sparse as sp
import quanguru as qg
from mc.core import Histories, Cases, Disabled, Violation
from mc.ref import RSys, RTerm, PAULI, OPS
from mc.util import same, equal, dense, OPF

PROPERTY = 'C01'
LEVEL = 'model_checking'
ASSUMPTIONS = ['parameters are changed through the public attributes of systems and terms',
               'operators and dimensions of the alphabets stand for the others (small dimensions)']


class World:
    def __init__(self):
        self.i = {}      # name -> implementation system
        self.r = {}      # name -> reference system
        self.ti = {}     # name -> implementation term
        self.tr = {}     # name -> (reference system, reference term)


def leaf(w, name, cls, dim, freq, op):
    kw = {'frequency': freq}
    if cls is not qg.Qubit:
        kw['dimension'] = dim
    w.i[name] = cls(**kw)
    w.r[name] = RSys(name, dim)
    t = RTerm(freq, [op], [1], [w.r[name]])
    w.r[name].terms.append(t)
    w.tr[name] = (w.r[name], t)      # first term, set through the system
    return w.i[name]


def coupling(w, name, owner, systems, ops, freq):
    w.ti[name] = w.i[owner].createTerm(operator=[OPF[o] for o in ops], frequency=freq,
                                       qSystem=[w.i[s] for s in systems])
    t = RTerm(freq, ops, [1] * len(ops), [w.r[s] for s in systems])
    w.r[owner].terms.append(t)
    w.tr[name] = (w.r[owner], t)


def extra(w, name, owner, op, freq, order=1):
    w.ti[name] = w.i[owner].createTerm(operator=OPF[op], frequency=freq, order=order)
    t = RTerm(freq, [op], [order], [w.r[owner]])
    w.r[owner].terms.append(t)
    w.tr[name] = (w.r[owner], t)


def alive(w, name):
    s, t = w.tr.get(name, (None, None))
    if t is None or t not in s.terms:
        raise Disabled()
    return t


# -------------------------------------------------------------- operators of the user
def custom(k):
    """functions that differ only in what they return, as lambdas in a script do"""
    return lambda dim: sp.csc_matrix(own(k)(dim))


def own(k):
    """a matrix that is neither diagonal nor Hermitian"""
    return lambda dim: np.array([[(i + 1) * (k + 1j * j) + (i == j) for j in range(dim)] for i in range(dim)], dtype=complex)


class Oper:
    def __init__(self, k):
        self.k = k

    def __call__(self, dim):
        return sp.csc_matrix(own(self.k)(dim))


def counted(k, dim):
    return sp.csc_matrix(own(k)(dim))


for _k, _f in {'f1': custom(1), 'f2': custom(2), 'f3': Oper(3), 'f4': Oper(4), 'f5': functools.partial(counted, 5),
               'f6': functools.partial(counted, 6), 'f7': own(7)}.items():
    OPF[_k], OPS[_k] = _f, own(int(_k[1]))


# -------------------------------------------------------------- operations
def s_freq(name, val):
    def op(w):
        t = alive(w, name)
        (w.ti.get(name) or w.i[name]).frequency = val
        t.freq = val
    return (f'{name}.frequency={val}', op)


def s_oper(name, val):
    def op(w):
        t = alive(w, name)
        vals = val if isinstance(val, (list, tuple)) else [val]
        if len(vals) != len(t.systems) or any(v in PAULI and s.dim != 2 for v, s in zip(vals, t.systems)):
            raise Disabled()
        o = [OPF[v] for v in vals]
        (w.ti.get(name) or w.i[name]).operator = o if isinstance(val, (list, tuple)) else o[0]
        t.ops = list(vals)
    return (f'{name}.operator={val}', op)


def s_qsys(name, systems, ops):
    """another choice of the systems of a coupling"""
    def op(w):
        t = alive(w, name)
        if any(v in PAULI and w.r[x].dim != 2 for v, x in zip(ops, systems)):
            raise Disabled()
        w.ti[name].qSystem = [w.i[x] for x in systems]
        w.ti[name].operator = [OPF[v] for v in ops]
        t.systems, t.ops, t.orders = [w.r[x] for x in systems], list(ops), [1] * len(ops)
    return (f'{name}.qSystem={systems},{ops}', op)


def s_order(name, val):
    def op(w):
        t = alive(w, name)
        if isinstance(val, (list, tuple)) and len(val) != len(t.systems):
            raise Disabled()
        (w.ti.get(name) or w.i[name]).order = val
        t.orders = list(val) if isinstance(val, (list, tuple)) else [val]
    return (f'{name}.order={val}', op)


def s_dim(name, val):
    def op(w):
        r = w.r[name]
        root = r.root
        for x in root.nested():
            for t in x.terms:
                if any(v in PAULI and s is r and val != 2 for v, s in zip(t.ops, t.systems)):
                    raise Disabled()
        w.i[name].dimension = val
        r.dim = val
    return (f'{name}.dimension={val}', op)


def s_new(name, owner, op_, freq, order=1):
    def op(w):
        s, t = w.tr.get(name, (None, None))
        if (t is not None and t in s.terms) or (op_ in PAULI and w.r[owner].dim != 2):
            raise Disabled()
        extra(w, name, owner, op_, freq, order)
    return (f'{name}={owner}.createTerm({op_},{freq},{order})', op)


def s_newc(name, owner, systems, ops, freq):
    def op(w):
        s, t = w.tr.get(name, (None, None))
        if t is not None and t in s.terms:
            raise Disabled()
        if not all(w.r[x] in w.r[owner].nested() for x in systems):
            raise Disabled()   # rejected by the library
        coupling(w, name, owner, systems, ops, freq)
    return (f'{name}={owner}.createTerm({systems},{ops},{freq})', op)


def s_del(name, via=None):
    def op(w):
        t = alive(w, name)
        s = w.tr[name][0]
        obj = w.ti.get(name)
        if obj is None:
            obj = list(w.i[name].terms.values())[0]
        w.i[via or s.name].removeTerm(obj)
        s.terms.remove(t)
    return (f'removeTerm({name}) via {via}', op)


def s_jvalue(name, val):
    def op(w):
        s_dim(name, int(2 * val + 1))[1](w)      # raises Disabled, or does the same
        w.i[name].dimension = 1 + int(2 * val) % 3
        w.i[name].jValue = val
        equal(w.i[name].jValue, val, f'{name}.jValue')
    return (f'{name}.jValue={val}', op)


def s_terms(name, order):
    """the terms of the system are replaced by some of them, in the order that is given"""
    def op(w):
        own, t = alive(w, name), alive(w, 't')
        objs = {'a': next(x for x in w.i[name].terms.values() if x is not w.ti['t']) if own is not t else None, 't': w.ti['t']}
        if own is t:
            raise Disabled()
        w.i[name].terms = [objs[x] for x in order] if len(order) > 1 else objs[order]
        w.r[name].terms = [{'a': own, 't': t}[x] for x in order]
        w.tr[name] = (w.r[name], w.r[name].terms[0])
    return (f'{name}.terms={order}', op)


def s_read(name):
    def op(w):
        if name in w.r:
            same(w.i[name].totalHamiltonian, w.r[name].hamiltonian(), f'{name}.totalHamiltonian (read)')
        else:
            alive(w, name)
            s, t = w.tr[name]
            same(w.ti[name].totalHamiltonian, s.term_matrix(t), f'{name}.totalHamiltonian (read)')
    return (f'read {name}', op)


def s_unitary(name):
    """read through the free evolution of the system"""
    def op(w):
        from mc.ref import uexp
        w.i[name].simulation.stepSize = 0.5
        same(w.i[name].unitary(), uexp(w.r[name].hamiltonian(), 0.5), f'{name}.unitary (read)')
    return (f'unitary {name}', op)


def final(order=None):
    def check(w):
        names = list(w.i) if order is None else order
        for n in names:
            same(w.i[n].totalHamiltonian, w.r[n].hamiltonian(), f'{n}.totalHamiltonian')
        for n, t in w.ti.items():
            s, rt = w.tr[n]
            if rt in s.terms:
                same(t.totalHamiltonian, s.term_matrix(rt), f'{n}.totalHamiltonian')
                equal(t.frequency, rt.freq, f'{n}.frequency')
        for n in names:   # and again, now that everything is cached
            same(w.i[n].totalHamiltonian, w.r[n].hamiltonian(), f'{n}.totalHamiltonian (second read)')
            equal(w.i[n].dimension, w.r[n].dim, f'{n}.dimension')
            if n in w.tr and w.tr[n][1] in w.r[n].terms:
                t = w.r[n].terms[0]
                equal((w.i[n].frequency, w.i[n].operator, w.i[n].order), (t.freq, OPF[t.ops[0]], t.orders[0]), f'parameters of {n}')
    return check


def state(w):
    roots = [r.key() for r in w.r.values() if r.sup is None]
    return roots


def no_double_read(labels):
    return any(a == b for a, b in zip(labels, labels[1:]))


def b_single(cls, dim, op):
    def build():
        w = World()
        leaf(w, 'a', cls, dim, 1.0, op)
        return w
    return build


def b_pair():
    w = World()
    a = leaf(w, 'a', qg.Qubit, 2, 1.0, 'Jz')
    b = leaf(w, 'b', qg.Cavity, 3, 2.0, 'number')
    w.i['c'] = a + b
    w.r['c'] = RSys('c', None, [w.r['a'], w.r['b']])
    coupling(w, 'g', 'c', ['a', 'b'], ['sigmax', 'destroy'], 0.3)
    return w


def b_nested():
    """( (a b) d ), couplings in both levels"""
    w = World()
    a = leaf(w, 'a', qg.Cavity, 2, 1.0, 'number')
    b = leaf(w, 'b', qg.Spin, 2, 2.0, 'Jz')
    d = leaf(w, 'd', qg.Qubit, 2, 3.0, 'Jz')
    w.i['c'] = qg.QuantumSystem(subSys=[a, b])
    w.r['c'] = RSys('c', None, [w.r['a'], w.r['b']])
    w.i['o'] = qg.QuantumSystem()
    w.i['o'].addSubSys(w.i['c'])
    w.i['o'].addSubSys(d)
    w.r['o'] = RSys('o', None, [w.r['c'], w.r['d']])
    coupling(w, 'g', 'c', ['a', 'b'], ['create', 'Jx'], 0.5)
    coupling(w, 'k', 'o', ['b', 'd'], ['Jz', 'sigmay'], 0.7)
    return w


def b_twofold():
    """composite of three leaves, a coupling that acts twice on one of them, a term on the whole composite"""
    w = World()
    a = leaf(w, 'a', qg.Spin, 3, 1.0, 'Jz')
    b = leaf(w, 'b', qg.Qubit, 2, 2.0, 'Jz')
    d = leaf(w, 'd', qg.Cavity, 2, -1.5, 'number')
    w.i['c'] = qg.QuantumSystem(subSys=[a, b, d])
    w.r['c'] = RSys('c', None, [w.r['a'], w.r['b'], w.r['d']])
    coupling(w, 'g', 'c', ['a', 'd', 'a'], ['Jp', 'create', 'Jx'], 0.5)
    coupling(w, 'k', 'c', ['d', 'b'], ['destroy', 'sigmam'], 1.0)
    return w


VALUES = [1.0, 1, 1 + 1e-9, 1 + 1e-6, 1.001, -1.0, 2, 1e-9, 2e-9, 1e-15, 1e9, 1e9 + 1, 0, 0.0, -1e-9, 1j, -1j, 1 + 1j, 1 - 1j, 1 + 1e-9j,
          np.float64(0.5), np.float32(0.25), np.int64(3), np.complex128(2 + 1j), True, False]


def b_value(where):
    """world in which the frequency of a first term, another term, or a coupling is changed"""
    w = b_pair()
    extra(w, 't', 'b', 'create', 0.7, 2)
    for n in 'ab':
        w.i[n].frequency = 0
        w.tr[n][1].freq = 0
    for n in 'gt':
        w.ti[n].frequency = 0
        w.tr[n][1].freq = 0
    return w, w.ti.get(where) or w.i[where], w.tr[where][1]


def exact(got, want, what):
    """relative to the largest element, so that small changes are seen"""
    g = dense(got)
    if g.shape == () and g == 0 and not np.any(want):
        return
    if g.shape != want.shape or not np.max(np.abs(g - want)) <= 1e-13 * np.max(np.abs(want)):
        raise Violation(f'{what} is {g[np.abs(want) > 0]}, expected {want[np.abs(want) > 0]}')


def check_values(case):
    where, vals = case
    w, obj, t = b_value(where)
    owner = w.tr[where][0]
    for v in vals:
        obj.frequency = v
        t.freq = complex(v)
        if obj.frequency != v:
            raise Violation(f'frequency of {where} is {obj.frequency}, expected {v}')
        for n in ('c', owner.name):
            exact(w.i[n].totalHamiltonian, w.r[n].hamiltonian(), f'{n}.totalHamiltonian after {where}.frequency={vals}')


def check_opers(case):
    """operators of the user, in any order and with any dimension in between"""
    where, ops, dim = case
    w = b_pair()
    t = w.tr[where][1]
    for o in ops:
        obj = w.ti.get(where) or w.i[where]
        obj.operator = OPF[o] if where != 'g' else [qg.sigmax, OPF[o]]
        t.ops = [o] if where != 'g' else ['sigmax', o]
        same(w.i['c'].totalHamiltonian, w.r['c'].hamiltonian(), f'c.totalHamiltonian with {where}.operator={o}')
        if dim:
            w.i['b'].dimension = w.r['b'].dim = dim
            same(w.i['c'].totalHamiltonian, w.r['c'].hamiltonian(), f'c.totalHamiltonian with {where}.operator={o}')
            dim = 3
    same(w.i['c'].totalHamiltonian, w.r['c'].hamiltonian(), 'c.totalHamiltonian')


def library_domain(deep):
    for cls in (qg.Cavity, qg.Spin, qg.QuantumSystem, qg.Qubit):
        for where in 'bxtg':
            for ops in itertools.product(OPF, repeat=2):
                pauli = cls is qg.Qubit or any(o in PAULI for o in ops)
                for order in ((1, 2) if where == 't' or (deep and where != 'g') else (1,)):
                    for dims in (((2,),) if pauli else ((3, 2), (4, 5)) if deep else ((3, 2),)):
                        yield cls.__name__, where, ops, order, dims


def check_library(case):
    """operators of the library, one after another and with another dimension: of the first term (set through the system: b,
    through the term: x), of another term, or in a coupling"""
    cls, where, ops, order, dims = case
    w = World()
    leaf(w, 'a', qg.Qubit, 2, 1.0, 'Jz')
    first = {'Cavity': 'number', 'Spin': 'Jz', 'Qubit': 'Jz', 'QuantumSystem': 'number'}[cls]
    leaf(w, 'b', getattr(qg, cls), dims[0], 2.0, first)
    if cls == 'QuantumSystem':
        w.i['b'].operator = qg.number
    w.i['c'] = w.i['b'] + w.i['a']
    w.r['c'] = RSys('c', None, [w.r['b'], w.r['a']])
    extra(w, 't', 'b', ops[0], 0.7)
    coupling(w, 'g', 'c', ['a', 'b'], ['sigmax', ops[0]], 0.3)
    key = 'b' if where == 'x' else where
    t = w.tr[key][1]
    obj = {'b': w.i['b'], 'x': list(w.i['b'].terms.values())[0], 't': w.ti['t'], 'g': w.ti['g']}[where]

    def look(when):
        for n in 'cb':
            same(w.i[n].totalHamiltonian, w.r[n].hamiltonian(), f'{n}.totalHamiltonian {when}')
    if order != 1:
        obj.order = order
        t.orders = [order]
    for o in ops:
        obj.operator = OPF[o] if where != 'g' else [qg.sigmax, OPF[o]]
        t.ops = [o] if where != 'g' else ['sigmax', o]
        look(f'with {where}.operator={o}')
    for d in dims[1:]:
        w.i['b'].dimension = w.r['b'].dim = d
        look(f'with b.dimension={d}')


def check_coupling(case):
    """a coupling of any ordered selection of the systems, with repetitions, in any of the composites that hold them"""
    systems, owner, when = case
    w = World()
    for n, c, d, o in (('a', qg.Qubit, 2, 'Jz'), ('b', qg.Cavity, 3, 'number'), ('d', qg.Spin, 2, 'Jz'), ('e', qg.Cavity, 2, 'number')):
        leaf(w, n, c, d, 1.0 + len(w.i), o)
    for n, subs in (('c', 'bd'), ('o', 'ace')):
        w.i[n] = qg.QuantumSystem(subSys=[w.i[x] for x in subs])
        w.r[n] = RSys(n, None, [w.r[x] for x in subs])
    if when:
        same(w.i['o'].totalHamiltonian, w.r['o'].hamiltonian(), 'o.totalHamiltonian at first')
    ops = ['create', 'Jx', 'Jp', 'identity'] if when != 2 else ['Jy', 'destroy', 'number', 'Jz']
    coupling(w, 'g', owner, systems, ops[:len(systems)], 0.5)

    def read(what):
        for n in ('o', 'c') if owner == 'c' or when == 2 else 'o':
            same(w.i[n].totalHamiltonian, w.r[n].hamiltonian(), f'{n}.totalHamiltonian {what}')
        same(w.ti['g'].totalHamiltonian, w.r[owner].term_matrix(w.tr['g'][1]), f'totalHamiltonian of the coupling {what}')
    read('with the coupling')
    s_freq('g', -1.25)[1](w)
    read('with another frequency')
    s_order('g', [2] + [1] * (len(systems) - 1) if len(systems) > 1 else 2)[1](w)
    read('with another order')
    s_dim('b', 2)[1](w)
    read('with another dimension')


def coupling_domain(deep):
    return [(x, o, t) for n in range(2, 5 if deep else 4) for o, names in (('o', 'abde'), ('c', 'bd'))
            for x in itertools.product(names, repeat=n) for t in (0, 1, 2)]


# -------------------------------------------------------------- couplings by name
NAMED = {'JC': (('destroy', 'Jp'), ('create', 'Jm')), 'Rabi': (('destroy', 'sigmax'), ('create', 'sigmax')),
         'Dicke': (('destroy', 'Jx'), ('create', 'Jx'))}


def s_named(name, kind, freq, args):
    """c.JC(freq), or with the systems in either order: two terms with a common frequency"""
    def op(w):
        if name in w.named or (kind == 'Rabi' and w.r['a'].dim != 2):
            raise Disabled()
        w.named[name] = obj = getattr(w.i['c'], kind)(freq, *[w.i[x] for x in args])
        for k, ops in enumerate(NAMED[kind]):
            t = RTerm(freq, ops, [1, 1], [w.r['b'], w.r['a']])
            w.r['c'].terms.append(t)
            w.tr[f'{name}{k}'] = (w.r['c'], t)
            w.ti[f'{name}{k}'] = list(obj.subSys.values())[k]
    return (f'{name}=c.{kind}({freq},{args})', op)


def s_namedf(name, freq):
    def op(w):
        if name not in w.named:
            raise Disabled()
        w.named[name].frequency = freq
        for k in (0, 1):
            w.tr[f'{name}{k}'][1].freq = freq
        equal(w.named[name].frequency, freq, f'{name}.frequency')
    return (f'{name}.frequency={freq}', op)


def b_named(cls, dim):
    def build():
        w = World()
        w.named = {}
        leaf(w, 'b', qg.Cavity, 3, 2.0, 'number')
        leaf(w, 'a', cls, dim, 1.0, 'Jz')
        leaf(w, 'd', qg.Cavity, 2, 0.5, 'number')
        w.i['c'] = qg.QuantumSystem(subSys=[w.i['a'], w.i['b'], w.i['d']])
        w.r['c'] = RSys('c', None, [w.r['a'], w.r['b'], w.r['d']])
        return w
    return build


def named_ops(dims):
    return [s_named('x', k, f, a) for k, f in (('JC', 0.3), ('Rabi', 0.2), ('Dicke', -0.4)) for a in ('', 'ab', 'ba')] + [
        s_named('y', 'JC', 1.5, 'ab'), s_namedf('x', 0.7), s_namedf('x', 0), s_namedf('y', 2j), s_freq('x1', 0.9), s_del('x0'),
        s_order('y1', [2, 1]), s_dim('b', 2), s_freq('a', 3.0), s_read('c'), s_read('x1')] + [s_dim('a', d) for d in dims]


USER = ['f1', 'f2', 'f3', 'f4', 'f5', 'f6', 'f7', 'number', 'Jx']


def components(tier):
    deep = tier == 'thorough'
    single = [s_freq('a', 2.0), s_freq('a', 0), s_freq('a', 1.0), s_oper('a', 'create'), s_oper('a', 'number'),
              s_order('a', 2), s_order('a', 1), s_dim('a', 4), s_dim('a', 3), s_new('t', 'a', 'destroy', 0.5),
              s_freq('t', -1.0), s_order('t', 3), s_oper('t', 'identity'), s_del('t'), s_del('a'), s_terms('a', 'ta'), s_terms('a', 't'),
              s_terms('a', 'a'), s_read('a'), s_read('t')]
    spin = [s_freq('a', 2.5), s_freq('a', 1.0), s_oper('a', 'Jx'), s_oper('a', 'sigmay'), s_dim('a', 3), s_dim('a', 2), s_jvalue('a', 1.5), s_jvalue('a', 0.5),
            s_new('t', 'a', 'sigmax', 0.5), s_new('u', 'a', 'Jp', 1 + 2j), s_freq('u', 2), s_del('t'), s_order('u', 2),
            s_read('a'), s_read('u')]
    pair = [s_freq('a', 2.0), s_freq('b', 0.5), s_freq('b', 0), s_dim('b', 4), s_dim('b', 3), s_freq('g', 0.9),
            s_freq('g', 0), s_order('g', [1, 2]), s_oper('g', ['sigmaz', 'number']), s_oper('b', 'create'),
            s_order('b', 2), s_new('t', 'b', 'identity', 0.25), s_del('g'),
            s_newc('h', 'c', ['b', 'a'], ['create', 'Jy'], 1.5), s_read('a'), s_read('b'), s_read('c'), s_read('g')]
    nested = [s_qsys('k', ['a', 'd'], ['Jx', 'sigmaz']), s_freq('a', 4.0), s_freq('d', 1.0), s_freq('b', 2.5), s_dim('a', 3), s_dim('b', 3), s_freq('g', 1.1),
              s_freq('k', 1.2), s_oper('g', ['number', 'Jz']), s_order('k', [2, 1]), s_order('g', [2, 1]),
              s_del('g', 'o'), s_del('k', 'a'), s_new('t', 'd', 'sigmax', 0.4), s_oper('d', 'sigmaz'), s_read('a'),
              s_read('c'), s_read('o'), s_read('d'), s_read('k')]
    two = [s_qsys('g', ['b', 'd'], ['Jx', 'number']), s_qsys('g', ['d', 'a', 'b'], ['create', 'Jz', 'sigmay']),
           s_qsys('k', ['a', 'b'], ['Jp', 'sigmam']), s_freq('g', 0.1), s_order('g', [1, 1, 2]), s_oper('g', ['Jz', 'number', 'Jm']), s_dim('a', 2), s_dim('d', 3),
           s_freq('k', 2), s_del('k'), s_freq('b', 7), s_new('t', 'b', 'sigmay', 1), s_unitary('c'), s_read('c'),
           s_read('a'), s_read('g')]
    k = 1 if deep else 0
    return [
        Histories('single cavity', b_single(qg.Cavity, 3, 'number'), single, final(), 4 + k, state, no_double_read),
        Histories('single spin', b_single(qg.Spin, 2, 'Jz'), spin, final(), 4 + k, state, no_double_read),
        Histories('qubit-cavity pair', b_pair, pair, final(), 3 + k, state, no_double_read),
        Histories('pair, top first', b_pair, pair, final(['c', 'b', 'a']), 3 + k, state, no_double_read),
        Histories('nested', b_nested, nested, final(['o', 'c', 'a', 'b', 'd']), 3 + k, state, no_double_read),
        Histories('nested, leaves first', b_nested, nested, final(['d', 'b', 'a', 'c', 'o']), 3 + k, state,
                  no_double_read),
        Histories('repeated system in a coupling', b_twofold, two, final(), 3 + k, state, no_double_read),
        Histories('couplings by name, qubit', b_named(qg.Qubit, 2), named_ops(()), final(), 3 + k, state, no_double_read),
        Histories('couplings by name, spin', b_named(qg.Spin, 3), named_ops((2, 4)), final(), 3 + k, state, no_double_read),
        Cases('values', [(x, v) for x in 'abgt' for v in itertools.product(VALUES, repeat=2)] +
              ([(x, v) for x in 'bg' for v in itertools.product(VALUES[:20], repeat=3)] if deep else []), check_values, 40),
        Cases('operators of the library', lambda: library_domain(deep), check_library, 40),
        Cases('couplings of several systems', lambda: coupling_domain(deep), check_coupling, 20),
        Cases('operators of the user', [(x, o, d) for x in 'abg' for o in itertools.product(USER, repeat=2 + k) for d in (0, 2, 4)],
              check_opers, 40),
    ]
