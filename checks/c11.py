"""C11: dictionaries with aliases behave like plain dictionaries in which all the names of an object are one key."""
import copy
import pickle
from quanguru.classes.base import aliasDict, aliasClass
from mc.core import Histories, Disabled, Violation, expect
from mc.util import equal, raises

PROPERTY = 'C11'
LEVEL = 'model_checking'
ASSUMPTIONS = ['no key of a history is a name of two different entries (e.g. two strings that are both names of an object '
               'that is used as a key later)']

PROBES = ['A', 'a', 'a1', 'a2', 'z', 'B', 'b', 'b1', 'c', 7]


class DW:
    def __init__(self):
        self.obj = {'A': aliasClass(name='a', alias=['a1', 'a2']), 'B': aliasClass(name='b', alias=['b1'])}
        self.names = {'A': {'a', 'a1', 'a2'}, 'B': {'b', 'b1'}}
        self.d = aliasDict()
        self.m = []      # [key, value] in the order of the insertion
        self.copies = []

    def key(self, k):
        return self.obj.get(k, k)

    def sets(self, k):
        return self.names[k] if k in self.names else {k}

    def find(self, k):
        """position of the entry of a key, None if there is none; ambiguous keys are not enabled"""
        hits = [i for i, (x, _) in enumerate(self.m) if self.sets(x) & self.sets(k)]
        if len(hits) > 1:
            raise Disabled()
        return hits[0] if hits else None

    def put(self, k, v):
        i = self.find(k)
        if i is None:
            self.m.append([k, v])
        else:
            self.m[i][1] = v


def o_set(k, v):
    def op(w):
        w.put(k, v)
        w.d[w.key(k)] = v
    return (f'd[{k}]={v}', op)


def o_del(k):
    def op(w):
        i = w.find(k)
        if i is None:
            def f():
                del w.d[w.key(k)]
            raises(f, KeyError, f'del d[{k}]')
        else:
            w.m.pop(i)
            del w.d[w.key(k)]
    return (f'del d[{k}]', op)


def o_pop(k, *default):
    def op(w):
        i = w.find(k)
        if i is None and not default:
            raises(lambda: w.d.pop(w.key(k)), KeyError, f'pop({k})')
            return
        want = default[0] if i is None else w.m.pop(i)[1]
        equal(w.d.pop(w.key(k), *default), want, f'pop({k}, {default})')
    return (f'pop({k}, {default})', op)


def o_setdefault(k, v):
    def op(w):
        i = w.find(k)
        want = v if i is None else w.m[i][1]
        if i is None:
            w.m.append([k, v])
        equal(w.d.setdefault(w.key(k), v), want, f'setdefault({k}, {v})')
    return (f'setdefault({k}, {v})', op)


def o_update(how, *items):
    def op(w):
        if how != 'r|':
            for k, v in items:
                w.put(k, v)
        pairs = [(w.key(k), v) for k, v in items]
        if how == 'dict':
            w.d.update(dict(pairs))
        elif how == 'aliasDict':
            o = aliasDict()
            for k, v in pairs:
                o[k] = v
            w.d.update(o)
        elif how == 'pairs':
            w.d.update(pairs)
        elif how == 'iter':
            w.d.update(iter(pairs))
        elif how == 'kwargs':
            w.d.update(**dict(pairs))
        elif how == 'both':
            w.d.update(dict(pairs[:1]), **dict(pairs[1:]))
        elif how == '|=':
            w.d |= dict(pairs)
        elif how == '|':
            w.d = w.d | dict(pairs)
        elif how == 'r|':
            w.d = dict(pairs) | w.d
            m, w.m = w.m, []
            for k, v in list(items) + m:
                w.put(k, v)
        elif how == 'new':
            w.d = aliasDict(list(w.d.items()) + pairs)
    return (f'update {how} {items}', op)


def o_fromkeys():
    def op(w):
        w.d = aliasDict.fromkeys([w.obj['A'], 'a1', 'c', w.obj['A'], 'a'], 0)
        w.m = [['A', 0], ['c', 0]]
    return ('fromkeys(A, a1, c, A, a)', op)


def o_alias(k, alias):
    def op(w):
        if alias in w.names[k] or any(alias in w.sets(x) and x != k for x, _ in w.m):
            raise Disabled()
        w.obj[k].alias = alias
        w.names[k] = w.names[k] | {alias}
    return (f'{k}.alias={alias}', op)


def o_clear():
    def op(w):
        w.d.clear()
        w.m = []
    return ('clear()', op)


def o_popitem():
    def op(w):
        if not w.m:
            raises(w.d.popitem, KeyError, 'popitem of an empty dictionary')
            return
        k, v = w.m.pop()
        got = w.d.popitem()
        expect(got[0] is w.key(k) or got[0] == k, f'popitem returns key {got[0]!r}, expected {k}')
        equal(got[1], v, 'popitem')
    return ('popitem()', op)


def o_copy(how):
    def op(w):
        old, oldm = w.d, [list(x) for x in w.m]
        w.d = {'copy': lambda: old.copy(), 'copy.copy': lambda: copy.copy(old), 'type': lambda: aliasDict(old),
               'pickle': lambda: pickle.loads(pickle.dumps(old))}[how]()
        if how == 'pickle':     # the keys are new objects
            w.copies.clear()
            ks = list(w.d)
            for (k, _), n in zip(w.m, ks):
                if k in w.obj:
                    w.obj[k] = n
        else:
            w.copies.append((old, oldm))
            equal(w.d == old, True, f'{how} of the dictionary is equal to it')
        equal(type(w.d), aliasDict, f'type of {how}')
    return (f'd={how}(d)', op)


def check_dict(w, d, m, label):
    equal(len(d), len(m), f'{label}: length')
    equal(bool(d), bool(m), f'{label}: bool')
    for it, what in ((list(d), 'iteration'), (list(d.keys()), 'keys()'), ([k for k, _ in d.items()], 'items()'),
                     (list(reversed(list(reversed(d)))), 'reversed()')):
        want = [w.key(k) for k, _ in m]
        if len(it) != len(want) or any(a is not b and not (type(a) is type(b) and a == b) for a, b in zip(it, want)):
            raise Violation(f'{label}: {what} gives {it}, expected {[k for k, _ in m]}')
    equal(list(d.values()), [v for _, v in m], f'{label}: values')
    equal([v for _, v in d.items()], [v for _, v in m], f'{label}: values of items')
    missing = object()
    for k in PROBES:
        hits = [v for x, v in m if w.sets(x) & w.sets(k)]
        if len(hits) > 1:
            continue
        key = w.key(k)
        equal(key in d, bool(hits), f'{label}: {k} in d')
        equal(key not in d, not hits, f'{label}: {k} not in d')
        equal(d.get(key), hits[0] if hits else None, f'{label}: get({k})')
        got = d.get(key, missing)
        expect(got is (hits[0] if hits else missing) or got == (hits[0] if hits else missing), f'{label}: get({k}, x)')
        if hits:
            equal(d[key], hits[0], f'{label}: d[{k}]')
        else:
            raises(lambda: d[key], KeyError, f'{label}: d[{k}]')


def final(w):
    check_dict(w, w.d, w.m, 'dictionary')
    for old, m in w.copies:
        check_dict(w, old, m, 'dictionary that was copied before')


def state(w):
    return (w.m, sorted((k, sorted(v)) for k, v in w.names.items()))


def components(tier):
    k = 1 if tier == 'thorough' else 0
    basic = [o_set('A', 1), o_set('a', 2), o_set('a1', 3), o_set('b1', 4), o_set('B', 5), o_set('c', None), o_set(7, 0),
             o_del('A'), o_del('a1'), o_del('b'), o_del('z'), o_pop('a2'), o_pop('b1', 9), o_pop('B'),
             o_setdefault('a1', 6), o_setdefault('A', 7), o_setdefault('B', None), o_alias('A', 'z'), o_alias('B', 'z'),
             o_clear(), o_popitem(), o_copy('copy'), o_copy('pickle')]
    whole = [o_set('A', 1), o_set('a1', 3), o_set('b', 5), o_set('B', 8), o_del('a1'), o_alias('A', 'z'), o_set('z', 4),
             o_update('dict', ('a1', 3), ('B', 2)), o_update('aliasDict', ('A', 5), ('c', 1)),
             o_update('pairs', ('A', 1), ('a1', 2), ('a', 3)), o_update('iter', ('b1', 1), ('A', 4)),
             o_update('kwargs', ('a2', 3), ('c', 4)), o_update('both', ('B', 1), ('b1', 2)),
             o_update('|=', ('a1', 9), ('c', 1)), o_update('|', ('a1', 9), ('B', 1)), o_update('r|', ('c', 5), ('B', 1)),
             o_update('new', ('a1', 5), ('B', 1), ('b1', 2)), o_fromkeys(), o_copy('copy'), o_copy('copy.copy'),
             o_copy('type'), o_copy('pickle')]
    return [
        Histories('single keys', DW, basic, final, 4 + k, state),
        Histories('whole dictionaries', DW, whole, final, 4 + k, state),
    ]
