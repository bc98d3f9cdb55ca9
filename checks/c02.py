"""C02: adding, removing and nesting systems keeps dimensions, order, couplings and operators consistent."""
import numpy as np
import quanguru as qg
from mc.core import Cases, Histories, Disabled
from mc.ref import RSys, RTerm, OPS, ket, kron
from mc.util import same, equal, OPF
from .c01 import (World, leaf, s_dim, s_freq, s_read, s_new, s_newc, s_del, state, no_double_read, coupling)

PROPERTY = 'C02'
LEVEL = 'model_checking'
ASSUMPTIONS = ['a system is in at most one composite at a time (the library has one super-system per system)']


def inside(sys, top):
    return sys in top.nested()


def s_add(owner, name, how='addSubSys'):
    def op(w):
        o, s = w.r[owner], w.r[name]
        if s.sup is not None or s is o or inside(o, s):
            raise Disabled()
        if how == '+':
            # the sum adds a single system into an existing composite and returns the composite
            got = w.i[owner] + w.i[name]
            equal(got is w.i[owner], True, f'{owner}+{name} is {owner}')
        elif how == 'r+':
            got = w.i[name] + w.i[owner]
            equal(got is w.i[owner], True, f'{name}+{owner} is {owner}')
        elif how == 'name':
            w.i[owner].addSubSys(str(w.i[name].name))
        else:
            w.i[owner].addSubSys(w.i[name])
        o.add(s)
    return (f'{owner}.{how}({name})', op)


def s_rem(via, name, how='removeSubSys'):
    def op(w):
        v, s = w.r[via], w.r[name]
        if s.sup is None or s.root is not v.root or v._dim is not None or inside(v, s):
            raise Disabled()
        if how == '-':
            equal((w.i[via] - w.i[name]) is w.i[via], True, f'{via}-{name}')
        elif how == 'name':
            w.i[via].removeSubSys(str(w.i[name].name))
        else:
            w.i[via].removeSubSys(w.i[name])
        s.sup.remove(s)
    return (f'{via}.{how}({name})', op)


def s_subs(owner, names, how='setter'):
    """replaces the sub-systems, which removes the old ones"""
    def op(w):
        o = w.r[owner]
        if o._dim is not None or any((w.r[n].sup not in (None, o)) or w.r[n] is o or inside(o, w.r[n]) for n in names):
            raise Disabled()
        if how == 'setter':
            w.i[owner].subSys = [w.i[n] for n in names]
        else:
            w.i[owner].resetSubSys()
        for s in list(o.subs):
            o.remove(s)
        for n in names:
            o.add(w.r[n])
    return (f'{owner}.subSys={names}' if how == 'setter' else f'{owner}.resetSubSys', op)


def dims(r):
    return r.dim if r._dim is not None else [dims(s) for s in r.subs]


def s_readdims(name):
    def op(w):
        if not all(x.subs or x._dim is not None for x in w.r[name].nested()):
            raise Disabled()   # nothing was ever added: neither single nor composite
        equal(w.i[name].subSysDimensions, dims(w.r[name]), f'{name}.subSysDimensions')
    return (f'dims {name}', op)


def final(order):
    def check(w):
        for n in order:
            i, r = w.i[n], w.r[n]
            equal([str(s.name) for s in i.subSys.values()], [str(w.i[s.name].name) for s in r.subs], f'{n}.subSys')
            equal(i.superSys is (None if r.sup is None else w.i[r.sup.name]), True, f'{n}.superSys')
            equal(i.dimension, r.dim, f'{n}.dimension')
            if r._dim is not None or all(x.subs or x._dim is not None for x in r.nested()):
                equal(i.subSysDimensions, dims(r), f'{n}.subSysDimensions')
            equal(len(i.terms), len(r.terms), f'number of terms of {n}')
            equal(i.ind, 0 if r.sup is None else r.sup.subs.index(r), f'{n}.ind')
        for n in order:
            if w.r[n]._dim is not None or w.r[n].subs:
                same(w.i[n].totalHamiltonian, w.r[n].hamiltonian(), f'{n}.totalHamiltonian')
    return check


def build_flat():
    w = World()
    a = leaf(w, 'a', qg.Cavity, 2, 1.0, 'number')
    b = leaf(w, 'b', qg.Spin, 3, 2.0, 'Jz')
    leaf(w, 'd', qg.Qubit, 2, 3.0, 'Jz')
    w.i['c'] = a + b
    w.r['c'] = RSys('c', None, [w.r['a'], w.r['b']])
    coupling(w, 'g', 'c', ['a', 'b'], ['create', 'Jm'], 0.5)
    return w


def build_nested():
    w = World()
    a = leaf(w, 'a', qg.Cavity, 2, 1.0, 'number')
    b = leaf(w, 'b', qg.Spin, 3, 2.0, 'Jz')
    d = leaf(w, 'd', qg.Qubit, 2, 3.0, 'Jz')
    leaf(w, 'e', qg.Cavity, 2, 4.0, 'number')
    w.i['c'] = qg.QuantumSystem(subSys=[a, b])
    w.r['c'] = RSys('c', None, [w.r['a'], w.r['b']])
    w.i['o'] = qg.QuantumSystem()
    w.i['o'].addSubSys(d)
    w.i['o'].addSubSys(w.i['c'])
    w.r['o'] = RSys('o', None, [w.r['d'], w.r['c']])
    coupling(w, 'g', 'c', ['a', 'b'], ['create', 'Jx'], 0.5)
    coupling(w, 'k', 'o', ['b', 'd'], ['Jz', 'sigmay'], 0.7)
    return w


def build_deep():
    """(((a b) d) e), built from inside"""
    w = World()
    a = leaf(w, 'a', qg.Qubit, 2, 1.0, 'Jz')
    b = leaf(w, 'b', qg.Cavity, 2, 2.0, 'number')
    d = leaf(w, 'd', qg.Qubit, 2, 3.0, 'Jz')
    e = leaf(w, 'e', qg.Cavity, 2, 4.0, 'number')
    for n, subs in (('c', 'ab'), ('o', 'cd'), ('p', 'oe')):
        w.i[n] = qg.QuantumSystem()
        w.r[n] = RSys(n, None, [])
        for s in subs:
            w.i[n].addSubSys(w.i[s])
            w.r[n].add(w.r[s])
    assert a and b and d and e
    return w


def build_loose():
    """nothing is composed yet"""
    w = World()
    leaf(w, 'a', qg.Cavity, 2, 1.0, 'number')
    leaf(w, 'b', qg.Spin, 3, 2.0, 'Jz')
    leaf(w, 'd', qg.Qubit, 2, 3.0, 'Jz')
    for n in 'co':
        w.i[n] = qg.QuantumSystem()
        w.r[n] = RSys(n, None, [])
    return w


def build_four():
    """four systems in a row, couplings over the middle"""
    w = World()
    for n, c, d, f, o in (('a', qg.Qubit, 2, 1.0, 'Jz'), ('b', qg.Cavity, 3, 2.0, 'number'),
                          ('d', qg.Spin, 2, 3.0, 'Jz'), ('e', qg.Cavity, 2, 4.0, 'number')):
        leaf(w, n, c, d, f, o)
    w.i['c'] = qg.QuantumSystem(subSys=[w.i[n] for n in 'abde'])
    w.r['c'] = RSys('c', None, [w.r[n] for n in 'abde'])
    coupling(w, 'g', 'c', ['a', 'e'], ['sigmap', 'destroy'], 0.5)
    coupling(w, 'k', 'c', ['b', 'd'], ['create', 'Jx'], 0.7)
    return w


def check_dims(case):
    """dimension of the system in the middle is changed several times, diagonal Hamiltonian so that it is cheap"""
    nest, before, after, dims = case
    if nest.startswith('np '):   # integers of numpy are accepted as well
        nest, before, after, dims = nest[3:], np.int64(before), np.int32(after), [np.int64(d) for d in dims]
    a, b, c = (qg.Cavity(dimension=d, frequency=f) for d, f in ((before, 100.0), (dims[0], 10.0), (after, 1.0)))
    if nest == 'flat':
        top = qg.QuantumSystem(subSys=[a, b, c])
    elif nest == 'left':
        top = qg.QuantumSystem(subSys=[qg.QuantumSystem(subSys=[a, b]), c])
    else:
        top = qg.QuantumSystem(subSys=[a, qg.QuantumSystem(subSys=[b, c])])
    for d in dims[1:]:
        b.dimension = d
    d = dims[-1]
    equal(top.dimension, before * d * after, 'dimension')
    i, j, k = np.meshgrid(np.arange(before), np.arange(d), np.arange(after), indexing='ij')
    for obj, diag, what in ((a, 100. * i, 'first'), (b, 10. * j, 'middle'), (c, k, 'last'),
                            (top, 100. * i + 10. * j + k, 'composite')):
        ham = obj.totalHamiltonian.tocsr()
        n = before * d * after
        equal(ham.shape, (n, n), f'shape of the Hamiltonian of the {what} system')
        equal(bool(np.array_equal(ham.diagonal(), diag.ravel())), True, f'Hamiltonian of the {what} system')
        equal(abs(ham).sum() == diag.sum(), True, f'off-diagonal elements of the {what} system are zero')


def dims_domain(deep):
    top, m = (17, 13) if deep else (14, 9)
    out = []
    for old in range(2, top):
        for new in range(2, top):
            if old != new:
                for n in range(2, m):
                    out += [('flat', 2, n, (old, new)), ('flat', n, 2, (old, new))]
                    if n == 3:
                        out += [('np flat', 2, n, (old, new)), ('np flat', n, 2, (old, new)),
                                ('np left', n, 2, (old, new, 3)), ('np right', 2, n, (old, new, 3))]
                    if n in (3, 5) or deep:
                        out += [('left', n, 2, (old, new, 3)), ('right', 2, n, (old, new, 3))]
    return out


# ---------------------------------------------------------------- ways of adding
WAYS = ('object', 'class', 'create class', 'create object', 'name', 'alias', 'list', 'tuple', 'list of class', 'again', 'setter', 'setter name', 'setter list',
        'setter class', 'sum', 'reset')
ARGS = ({}, {'dimension': 3}, {'frequency': 0.5}, {'dimension': 3, 'frequency': 0.5, 'initialState': 2}, {'initialState': 1},
        {'operator': 'create', 'frequency': 0.25})


def adding_domain():
    return [(start, read, way, n) for start in ('empty', 'pair', 'nested') for read in (False, True) for way in WAYS for n in range(len(ARGS))
            if n == 0 or way in ('object', 'class', 'create class', 'create object', 'name', 'again', 'list of class')]


def check_adding(case):
    start, read, way, n = case
    kw = dict(ARGS[n])
    spec = {'freq': kw.get('frequency', 1.5), 'dim': kw.get('dimension', 2), 'state': kw.get('initialState', 0), 'op': kw.get('operator', 'number')}
    if 'operator' in kw:
        kw['operator'] = OPF[kw['operator']]
    top = qg.QuantumSystem()
    have, outer = [], None
    if start != 'empty':
        have = [qg.Qubit(frequency=1.0, initialState=1), qg.Spin(jValue=1, frequency=2.0, initialState=0)]
        top.addSubSys(have)
    before = [(2, 1.0, 'Jz', 1), (3, 2.0, 'Jz', 0)][:len(have)]
    if start == 'nested':
        outer = qg.QuantumSystem()
        outer.addSubSys(qg.Qubit(frequency=3.0, initialState=0))
        outer.addSubSys(top)
    if read and have:
        for s in [top] + have + ([outer] if outer else []):
            assert s.totalHamiltonian is not None and s.initialState is not None
    new = None
    if 'class' in way:
        cls = {'dimension': 2, 'frequency': 1.5, 'initialState': 0, 'operator': qg.number}
        cls.update(kw)
        if way == 'class':
            new = top.addSubSys(qg.Cavity, **cls)
        elif way == 'create class':
            new = top.createSubSys(qg.Cavity, **cls)
        elif way == 'list of class':
            top.addSubSys([qg.Cavity], **cls)
            new = list(top.subSys.values())[-1]
        else:
            top.subSys = qg.Cavity
            new = list(top.subSys.values())[-1]
            for k, v in cls.items():
                setattr(new, k, v)
    else:
        new = qg.Cavity(dimension=2, frequency=1.5, initialState=0, alias='new')
        if way == 'object':
            top.addSubSys(new, **kw)
        elif way == 'create object':
            top.createSubSys(new, **kw)
        elif way == 'name':
            top.addSubSys(str(new.name), **kw)
        elif way == 'alias':
            top.addSubSys('new')
        elif way == 'list':
            top.addSubSys([new])
        elif way == 'tuple':
            top.addSubSys((new,))
        elif way == 'again':
            top.addSubSys(new)
            if read:
                assert top.totalHamiltonian is not None
            top.addSubSys(new, **kw)
        elif way == 'setter':
            top.subSys = new
        elif way == 'setter name':
            top.subSys = str(new.name)
        elif way == 'setter list':
            top.subSys = have[1:] + [new] + have[:1]
        elif way == 'sum':
            if start == 'empty':
                raise Disabled()
            equal(top + new is top, True, 'the sum with a composite system is the composite system')
        elif way == 'reset':
            top.addSubSys(new)
            top.resetSubSys()
            top.addSubSys([new] + have)
    last = (spec['dim'], spec['freq'], spec['op'], spec['state'])
    if way in ('setter', 'setter name', 'setter class'):
        order, specs = [new], [last]
    elif way == 'setter list':
        order, specs = have[1:] + [new] + have[:1], before[1:] + [last] + before[:1]
    elif way == 'reset':
        order, specs = [new] + have, [last] + before
    else:
        order, specs = have + [new], before + [last]
    equal([s is o for s, o in zip(top.subSys.values(), order)], [True] * len(order), 'order of the sub-systems')
    equal(len(top.subSys), len(order), 'number of sub-systems')
    specs = ([(2, 3.0, 'Jz', 0)] if outer else []) + specs
    sizes = [s[0] for s in specs]
    total = int(np.prod(sizes))
    equal(top.dimension, total // (2 if outer else 1), 'dimension')
    if outer:
        equal(outer.dimension, total, 'dimension of the outer system')
    mats = []
    for k, (d, f, o, _) in enumerate(specs):
        mats.append(f * np.kron(np.kron(np.eye(int(np.prod(sizes[:k]))), OPS[o](d)), np.eye(int(np.prod(sizes[k + 1:])))))
    objs = ([list(outer.subSys.values())[0]] if outer else []) + order
    for rnd in ('', ' (second read)'):
        for k, (s, m) in enumerate(zip(objs, mats)):
            same(s.totalHamiltonian, m, f'Hamiltonian of the sub-system {k}{rnd}')
        same(top.totalHamiltonian, sum(mats[(1 if outer else 0):]), f'Hamiltonian of the system{rnd}')
        if outer:
            same(outer.totalHamiltonian, sum(mats), f'Hamiltonian of the outer system{rnd}')
        kets = [ket(d, st) for d, _, _, st in specs]
        same((outer or top).initialState, kron(*kets), f'initial state{rnd}')
    for s in have:
        if not any(s is o for o in order):
            equal(s.superSys, None, 'removed systems have no super-system')
            d = s.dimension
            same(s.totalHamiltonian, dict((x[0], x[1] * OPS[x[2]](x[0])) for x in before)[d], 'Hamiltonian of the removed system')


# ---------------------------------------------------------------- many systems
MANY = 'abcdefghijkl'


def check_many(case):
    n, nest, k, dim, via = case
    w = World()
    names = MANY[:n]
    for i, x in enumerate(names):
        leaf(w, x, (qg.Cavity, qg.Spin)[i % 2], 3 if i == 1 and n < 8 else 2, 1.0 + i, ('number', 'Jz')[i % 2])

    def group(name, subs):
        w.i[name] = qg.QuantumSystem(subSys=[w.i[x] for x in subs])
        w.r[name] = RSys(name, None, [w.r[x] for x in subs])
        return name
    if nest == 'flat':
        top = group('top', names)
    elif nest == 'pairs':
        top = group('top', [group(f'p{i}', names[i:i + 2]) if i + 1 < n else names[i] for i in range(0, n, 2)])
    elif nest == 'left':
        top = names[0]
        for i in range(1, n):
            top = group(f'p{i}', [top, names[i]])
    else:
        top = names[-1]
        for i in range(n - 2, -1, -1):
            top = group(f'p{i}', [names[i], top])
    for i, (x, y) in enumerate(((0, n - 1), (n - 1, 1), (k, (k + 1) % n), ((k + 2) % n, k))):
        coupling(w, f'g{i}', top, [names[x], names[y]], ['create', 'Jx'], 0.5 + i)

    def read(what):
        for x in (top, names[k], names[0], names[-1]):
            if w.r[x].root is w.r[top] or x != top:
                got, want = w.i[x].totalHamiltonian, w.r[x].hamiltonian()
                try:
                    same(got, want, f'{x}.totalHamiltonian')
                except Exception as e:
                    raise type(e)(f'{what}: {e}') from e
        equal(w.i[top].subSysDimensions, dims(w.r[top]), f'{what}: subSysDimensions')
        equal([s.ind for s in w.i[top].subSys.values()], list(range(len(w.r[top].subs))), f'{what}: ind of the sub-systems')
    read('at first')
    s_dim(names[k], dim)[1](w)
    read('new dimension')
    sup = w.r[names[k]].sup
    if len(sup.subs) > 1:
        s_rem(top if via == 'top' else sup.name, names[k])[1](w)
        read('removed')
        s_add(sup.name, names[k])[1](w)
        coupling(w, 'new', top, [names[k], names[(k + 3) % n]], ['Jx', 'destroy'], 0.25)
        read('added again')


def many_domain(deep):
    return [(n, nest, k, 3 if n < (9 if deep else 7) else 2, via) for via in ('top', 'own') for n in ((5, 6, 7, 8, 9) if deep else (5, 6, 7, 8))
            for nest in ('flat', 'pairs', 'left', 'right') for k in range(n) if via == 'top' or nest != 'flat' and (deep or n < 7)]


def components(tier):
    k = 1 if tier == 'thorough' else 0
    flat = [s_add('c', 'd'), s_add('c', 'd', '+'), s_rem('c', 'a'), s_rem('c', 'b', '-'), s_rem('c', 'd'),
            s_add('c', 'a'), s_add('c', 'b', 'name'), s_dim('a', 3), s_dim('b', 2), s_freq('g', 0.9), s_freq('d', 1.5),
            s_newc('h', 'c', ['d', 'a'], ['sigmax', 'number'], 0.2), s_subs('c', ['d']),
            s_subs('c', ['b', 'd', 'a']), s_subs('c', [], 'reset'), s_read('c'), s_read('a'), s_read('d'),
            s_readdims('c')]
    nested = [s_rem('o', 'c'), s_rem('o', 'a'), s_rem('c', 'b'), s_rem('c', 'd'), s_rem('o', 'd', '-'),
              s_add('o', 'c'), s_add('c', 'd'), s_add('o', 'd'), s_add('c', 'e'), s_add('o', 'a', '+'), s_add('c', 'a'),
              s_dim('a', 3), s_dim('b', 2), s_new('t', 'd', 'sigmax', 0.4), s_del('k', 'd'), s_subs('c', ['b']), s_subs('o', ['c', 'e']),
              s_subs('o', [], 'reset'), s_read('o'), s_read('c'),
              s_read('d')]
    deep = [s_rem('p', 'a'), s_rem('c', 'b'), s_rem('o', 'e'), s_rem('c', 'd'), s_rem('p', 'o'), s_rem('o', 'c', 'name'),
            s_add('c', 'e'), s_add('o', 'a'), s_add('p', 'c'), s_add('p', 'd'), s_add('c', 'd'), s_dim('b', 3),
            s_dim('e', 3), s_newc('h', 'p', ['b', 'e'], ['create', 'destroy'], 0.2),
            s_newc('j', 'o', ['d', 'a'], ['sigmax', 'Jy'], 0.6), s_read('p'), s_read('c')]
    loose = [s_add('c', 'a'), s_add('c', 'b'), s_add('c', 'd', '+'), s_add('o', 'c'), s_add('o', 'd'), s_add('o', 'b'),
             s_add('c', 'o'), s_dim('a', 4), s_dim('b', 2), s_rem('o', 'a'), s_rem('c', 'b', '-'), s_read('a'),
             s_newc('h', 'c', ['a', 'b'], ['number', 'Jx'], 0.2), s_readdims('o')]
    four = [s_rem('c', 'a'), s_rem('c', 'b'), s_rem('c', 'd'), s_rem('c', 'e', '-'), s_add('c', 'a'), s_add('c', 'b'),
            s_dim('b', 2), s_dim('e', 3), s_dim('d', 3), s_freq('k', 1.0), s_read('c'), s_read('d')]
    return [
        Histories('flat', build_flat, flat, final('cabd'), 3 + k, state, no_double_read),
        Histories('nested', build_nested, nested, final('ocabde'), 3 + k, state, no_double_read),
        Histories('three levels', build_deep, deep, final('pocabde'), 3 + k, state, no_double_read),
        Histories('from nothing', build_loose, loose, final('abdco'), 4 + k, state, no_double_read),
        Cases('ways of adding', adding_domain, check_adding, 8),
        Cases('dimensions', lambda: dims_domain(k), check_dims),
        Cases('many systems', lambda: many_domain(k), check_many, 2),
        Histories('four in a row', build_four, four, final('abdec'), 3 + k, state, no_double_read),
    ]
