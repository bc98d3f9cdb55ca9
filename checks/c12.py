"""C12: copies and sums of systems are equivalent to the originals, and independent of them."""
import itertools
import numpy as np
import quanguru as qg
from mc.core import Cases, Histories, Disabled, Violation
from mc.ref import RSys, RTerm
from mc.util import same, equal, dense
from . import c04
from .c01 import leaf, coupling, s_freq, s_oper, s_order, s_new, s_newc, s_del, extra
from .c02 import s_add, s_rem
from .c04 import SWorld, s_state, s_dim, vecs, novec

PROPERTY = 'C12'
LEVEL = 'model_checking'
ASSUMPTIONS = ['a copy is compared by Hamiltonian, dimension, structure and initial state; simulation parameters and '
               'compute functions are not copied, as stated in the code']


# -------------------------------------------------------------- copies
def rcopy(w, r, suffix):
    """copy of the reference system, everything in it is registered with the suffix"""
    old = r.nested()
    new = {}
    for s in old:
        new[s] = RSys(s.name + suffix, s._dim)
        new[s].state = s.state
    for s in old:
        for x in s.subs:
            new[s].add(new[x])
        for t in s.terms:
            new[s].terms.append(RTerm(t.freq, t.ops, t.orders, [new[x] for x in t.systems]))
    return new


def register(w, obj, r, suffix):
    new = rcopy(w, r, suffix)
    impl = {r: obj}

    def walk(s):
        subs = list(impl[s].subSys.values())
        equal(len(subs), len(s.subs), f'sub-systems of the copy of {s.name}')
        for a, b in zip(s.subs, subs):
            impl[a] = b
            walk(a)
    walk(r)
    for s, n in new.items():
        w.i[n.name], w.r[n.name] = impl[s], n
        if s.name in c04.COEF:
            c04.COEF.add(n.name)
        terms = list(impl[s].terms.values())
        equal(len(terms), len(s.terms), f'terms of the copy of {s.name}')
        for k, (a, b) in enumerate(zip(s.terms, n.terms)):
            for name, (_, t) in list(w.tr.items()):
                if t is a:
                    w.tr[name + suffix] = (n, b)
                    if name in w.ti or k > 0:
                        w.ti[name + suffix] = terms[k]
    return new[r]


def s_copy(name, suffix="'"):
    def op(w):
        if any(x.name + suffix in w.r for x in w.r[name].nested()):
            raise Disabled()
        c = w.i[name].copy()
        if type(c) is not type(w.i[name]):
            raise Violation(f'copy of {name} is a {type(c).__name__}')
        ids = {id(x) for x in w.i.values()}
        new = register(w, c, w.r[name], suffix)
        for x in new.nested():
            if id(w.i[x.name]) in ids:
                raise Violation(f'{x.name} is not a new object')
    return (f'{name}{suffix}={name}.copy()', op)


def on(op):
    """enabled as soon as the copy exists"""
    def new(w):
        try:
            op[1](w)
        except KeyError as e:
            if str(e.args[0]).rstrip("'") != str(e.args[0]) and e.args[0] not in w.r:
                raise Disabled()
            raise
    return (op[0], new)


def compare(w, n):
    if w.r[n]._dim is None and not w.r[n].subs:
        return
    i, r = w.i[n], w.r[n]
    same(i.totalHamiltonian, r.hamiltonian(), f'{n}.totalHamiltonian')
    equal(i.dimension, r.dim, f'{n}.dimension')
    equal(i.superSys is (None if r.sup is None else w.i[r.sup.name]), True, f'{n}.superSys')
    equal([x is w.i[s.name] for x, s in itertools.zip_longest(i.subSys.values(), r.subs)], [True] * len(r.subs),
          f'sub-systems of {n}')
    c04.read(w, n)


def s_read(n):
    return (f'read {n}', lambda w: compare(w, n))


def final(first=''):
    def check(w):
        names = list(first) + [n for n in w.r if n not in first]
        for _ in range(2):
            for n in names:
                if n in w.r:
                    compare(w, n)
    return check


def state(w):
    return [r.key() for r in w.r.values() if r.sup is None], sorted(w.tr)


def prune(labels):
    # nothing before a copy is worth anything without one
    return any(a == b for a, b in zip(labels, labels[1:]))


def b_single(cls, dim, op, st=None, coef=False):
    def build():
        c04.COEF.clear()
        w = SWorld()
        leaf(w, 'a', cls, dim, 1.0, op)
        if coef:
            w.i['a']._inpCoef = True
            c04.COEF.add('a')
        if st is not None:
            w.i['a'].initialState = st
            w.r['a'].state = st
        return w
    return build


def b_pair():
    c04.COEF.clear()
    w = SWorld()
    a = leaf(w, 'a', qg.Qubit, 2, 1.0, 'Jz')
    b = leaf(w, 'b', qg.Cavity, 3, 2.0, 'number')
    leaf(w, 'd', qg.Spin, 2, 4.0, 'Jz')
    for n, s in (('a', 1), ('b', [0, 2]), ('d', 0)):
        w.i[n].initialState = s
        w.r[n].state = s
    w.i['c'] = qg.QuantumSystem(subSys=[a, b])
    w.r['c'] = RSys('c', None, [w.r['a'], w.r['b']])
    coupling(w, 'g', 'c', ['b', 'a'], ['destroy', 'sigmap'], 0.3)
    return w


def b_nested():
    """[d, [a, b]], coupling over the levels, a second term in a leaf"""
    c04.COEF.clear()
    w = SWorld()
    for n, c, d, o in (('a', qg.Cavity, 2, 'number'), ('b', qg.Spin, 2, 'Jz'), ('d', qg.Qubit, 2, 'Jz')):
        leaf(w, n, c, d, 1.0 + len(w.i), o)
        w.i[n].initialState = 0
        w.r[n].state = 0
    w.i['c'] = qg.QuantumSystem(subSys=[w.i['a'], w.i['b']])
    w.r['c'] = RSys('c', None, [w.r['a'], w.r['b']])
    w.i['o'] = qg.QuantumSystem()
    w.i['o'].addSubSys(w.i['d'])
    w.i['o'].addSubSys(w.i['c'])
    w.r['o'] = RSys('o', None, [w.r['d'], w.r['c']])
    extra(w, 't', 'b', 'Jx', 0.25, 2)
    coupling(w, 'g', 'c', ['a', 'b'], ['create', 'Jm'], 0.5)
    coupling(w, 'k', 'o', ['b', 'd'], ['Jy', 'sigmay'], 0.7)
    return w


# -------------------------------------------------------------- time dependency of the terms of a copy
def check_time(case):
    """the Hamiltonian of a copy depends on time as the one of the original"""
    shape, where, nth = case

    def func(term, time):
        term.frequency = 1 + time
    a = qg.Qubit(frequency=1)
    a.createTerm(operator=qg.Jx, frequency=2)
    tops = [a]
    if shape != 'single':
        b = qg.Cavity(frequency=1, dimension=2)
        tops.append(qg.QuantumSystem(subSys=[b, a] if shape == 'right' else [a, b]))
        tops[1].createTerm(qSystem=[a, b], operator=[qg.Jx, qg.number], frequency=3)
    if shape == 'nested':
        tops.append(qg.QuantumSystem(subSys=[tops[1]]))
        tops[2].addSubSys(qg.Qubit(frequency=1))
    terms = list(tops[where].terms.values())
    if nth >= len(terms):
        return
    terms[nth].timeDependency = func
    new = tops[-1].copy()
    for s in (tops[-1], new):
        s.simulation.stepSize = 0.25
        s.simulation.totalTime = 1
        s.simulation.delStates = False
        s.initialState = init(s)
    x, y = [], []
    for obj, lst in ((tops[-1], x), (new, y)):
        obj.runSimulation()   # a run clears the results of all the others
        lst += [dense(q) for q in obj.simulation.states[str(obj.name) + 'Results']]
    equal(len(x), len(y), 'number of states')
    for k, (p, q) in enumerate(zip(x, y)):
        same(q, p, f'state {k} of the copy')


def init(s):
    d = s.dimension
    v = np.arange(1, d + 1).reshape(-1, 1) / np.linalg.norm(np.arange(1, d + 1))
    return v


def time_domain():
    return [(s, k, n) for s, m in (('single', 1), ('right', 2), ('left', 2), ('nested', 3))
            for k in range(m) for n in (0, 1)]


# -------------------------------------------------------------- sums and products
def trees(n):
    """expressions with n operands: index of a leaf is given on evaluation"""
    if n == 1:
        yield 'x'
        return
    for k in range(1, n):
        for a in trees(k):
            for b in trees(n - k):
                yield ('+', a, b)


def with_products(t, ns):
    if t == 'x':
        for n in ns:
            yield t if n == 1 else (n, t)
        return
    for a in with_products(t[1], ns):
        for b in with_products(t[2], ns):
            for n in ns:
                yield (t[0], a, b) if n == 1 else (n, (t[0], a, b))


def leaves(t):
    """number of systems in the end"""
    if t == 'x':
        return 1
    if t[0] == '+':
        return leaves(t[1]) + leaves(t[2])
    return t[0] * leaves(t[1])


KINDS = [('Qubit', 2, 'Jz'), ('Cavity', 3, 'number'), ('Spin', 2, 'Jz'), ('Cavity', 2, 'number')]


def rnew(w, r):
    return list(rcopy(w, r, "'").values())[0]


def evaluate(w, t, count):
    if t == 'x':
        k = next(count)
        c, d, o = KINDS[k]
        n = 'abde'[k]
        leaf(w, n, getattr(qg, c), d, float(k + 1), o)
        w.i[n].createTerm(operator=qg.identity, frequency=0.5)
        w.r[n].terms.append(RTerm(0.5, ['identity'], [1], [w.r[n]]))
        w.i[n].initialState = k % d
        w.r[n].state = k % d
        return w.i[n], w.r[n]
    if t[0] == '+':
        i1, r1 = evaluate(w, t[1], count)
        i2, r2 = evaluate(w, t[2], count)
        if len(r1.subs) > 0 and r2._dim is not None:
            r1.add(r2)
            r = r1
        elif r1._dim is not None and len(r2.subs) > 0:
            r2.add(r1)
            r = r2
        else:
            r = RSys('+', None, [r1, r2])
        return i1 + i2, r
    i, r = evaluate(w, t[1], count)
    return t[0] * i, RSys('*', None, [r] + [rnew(w, r) for _ in range(t[0] - 1)])


def shape(i):
    return [shape(s) for s in i.subSys.values()] if len(i.subSys) else i.dimension


def rshape(r):
    return [rshape(s) for s in r.subs] if r.subs else r.dim


def check_sum(case):
    t, read, change = case
    c04.COEF.clear()
    w = SWorld()
    i, r = evaluate(w, t, iter(range(9)))

    def compare_all(i, r):
        same(i.totalHamiltonian, r.hamiltonian(), 'Hamiltonian')
        equal(i.dimension, r.dim, 'dimension')
        for a, b in zip(i.subSys.values(), r.subs):
            compare_all(a, b)
    equal(shape(i), rshape(r), 'structure of the sum')
    if read:
        compare_all(i, r)
        same(i.initialState, c04.rket(r), 'initial state')
    if change is not None:
        # a change in one of the systems: only this one
        sys = [x for x in r.nested() if not x.subs]
        tgt = sys[change % len(sys)]
        path = []
        x = tgt
        while x.sup is not None:
            path.append(x.sup.subs.index(x))
            x = x.sup
        j = i
        for k in reversed(path):
            j = list(j.subSys.values())[k]
        j.frequency = 7.5
        tgt.terms[0].freq = 7.5
        if tgt.dim == 3:
            j.dimension = 4
            tgt.dim = 4
        j.initialState = 1
        tgt.state = 1
    compare_all(i, r)
    same(i.initialState, c04.rket(r), 'initial state')


def sums_domain(deep):
    out = []
    limit = 6 if deep else 5
    for n in range(1, 5):
        for t in trees(n):
            for p in with_products(t, (1, 2, 3) if n < 3 or deep else (1, 2)):
                if leaves(p) <= limit and p != 'x':
                    for c in [None] + list(range(leaves(p))):
                        out += [(p, read, c) for read in (False, True)]
    return out


def check_self(case):
    """sums of a system with itself, and with an empty composite"""
    kind, how, hist = case
    c04.COEF.clear()
    w = SWorld()
    c, d, o = KINDS[kind]
    leaf(w, 'a', getattr(qg, c), d, 1.0, o)
    w.i['a'].initialState = 1
    w.r['a'].state = 1
    if 'f' in hist:
        w.i['a'].frequency = 2.5
        w.r['a'].terms[0].freq = 2.5
    if 't' in hist:
        extra(w, 't', 'a', 'Jx', 0.5, 2)
    if 'r' in hist:
        assert w.i['a'].totalHamiltonian is not None and w.i['a'].initialState is not None
    if how == 'a+a':
        i, subs = w.i['a'] + w.i['a'], 2
    elif how == '0+a':
        i, subs = qg.QuantumSystem() + w.i['a'], 1
    elif how == 'a+a+a':
        i, subs = w.i['a'] + w.i['a'] + w.i['a'].copy(), 3
    elif how == 'aa+aa':
        x = w.i['a'] + w.i['a'].copy()
        i, subs = x + x, 4
    r = RSys('+', None, [w.r['a']] + [rnew(w, w.r['a']) for _ in range(subs - 1)])
    if how == 'aa+aa':
        rs = r.subs
        r = RSys('+', None, [RSys('1', None, rs[:2]), RSys('2', None, rs[2:])])
    equal(shape(i), rshape(r), 'structure')
    same(i.totalHamiltonian, r.hamiltonian(), 'Hamiltonian')
    same(i.initialState, c04.rket(r), 'initial state')
    w.i['a'].frequency = -3
    w.r['a'].terms[0].freq = -3
    same(i.totalHamiltonian, r.hamiltonian(), 'Hamiltonian after a change of the first')
    same(i.initialState, c04.rket(r), 'initial state')


def self_domain():
    hist = [''.join(h) for n in range(3) for h in itertools.permutations('ftr', n)]
    return list(itertools.product(range(4), ('a+a', '0+a', 'a+a+a', 'aa+aa'), hist))


def components(tier):
    k = 1 if tier == 'thorough' else 0
    q = "'"
    single = [s_copy('a'), on(s_copy("a'")), s_copy('a', "''"), s_freq('a', 2.0), s_oper('a', 'create'), s_order('a', 2),
              s_dim('a', 4), s_new('t', 'a', 'destroy', 0.5), s_del('a'), s_del('t'), s_state('a', [0, 2]),
              s_state('a', vecs(3)), s_read('a'), on(s_freq("a'", 3.0)), on(s_dim("a'", 2)), on(s_state("a'", 1)),
              on(s_del("t'")), on(s_oper("a'", 'number'))]
    coef = [s_copy('a'), s_copy('a', "''"), s_state('a', {0: 0.6, 1: 0.8j}), s_state('a', {2: 1, 0: -1}),
            s_dim('a', 4), s_read('a'), s_new('t', 'a', 'Jx', 0.5), s_freq('t', 0), s_order('t', 2),
            on(s_state("a'", {1: 1j, 0: 1})), on(s_dim("a'", 2)), on(s_freq("t'", 1.5)), on(s_freq("a'", 0))]
    pair = [s_copy('c'), s_copy('a'), s_copy('b', "''"), s_freq('a', 2.0), s_dim('b', 2), s_freq('g', 0.9),
            s_order('g', [2, 1]), s_oper('g', ['number', 'sigmaz']), s_del('g'), s_state('b', 1),
            s_state('c', vecs(6)), s_state('c', [0, {0: 1, 1: 2}]), s_read('c'), novec(s_add('c', 'd')),
            novec(s_rem('c', 'a')), on(s_freq("a'", 3.0)), on(s_freq("g'", 0.1)), on(s_dim("b'", 4)),
            on(novec(s_rem("c'", "b'"))), on(novec(s_add('c', "a'"))), on(s_state("c'", [1, 1])),
            on(s_newc("h", "c'", ["a'", "b'"], ['Jx', 'create'], 1.5)), on(s_del("g'"))]
    nested = [s_copy('o'), s_copy('c'), s_copy('b'), s_freq('t', 0.75), s_dim('a', 3), s_freq('k', 1.2),
              s_oper('g', ['number', 'Jz']), s_order('k', [2, 1]), s_del('k'), s_state('c', [1, 0]),
              s_state('o', vecs(8)), s_read('o'), s_read('c'), novec(s_rem('o', 'c')), on(s_freq("k'", 5)),
              on(s_freq("g'", 6)), on(s_freq("t'", 7)), on(s_dim("a'", 3)), on(novec(s_rem("o'", "d'"))),
              on(novec(s_add('o', "c'"))), on(s_read("c'"))]
    return [
        Histories('single', b_single(qg.Cavity, 3, 'number'), single, final(), 4 if k else 3, state, prune),
        Histories('amplitudes', b_single(qg.Spin, 3, 'Jz', 2, True), coef, final("a"), 4 if k else 3, state, prune),
        Histories('pair', b_pair, pair, final(), 4 if k else 3, state, prune),
        Histories('nested', b_nested, nested, final('oc'), 4 if k else 3, state, prune),
        Cases('sums', lambda: sums_domain(k), check_sum),
        Cases('sums with itself', self_domain, check_self),
        Cases('time dependency', time_domain, check_time),
    ]
