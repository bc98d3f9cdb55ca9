"""C10: names and aliases identify exactly one object."""
import gc
import weakref
import quanguru as qg
from quanguru.classes.base import named, qBase
from mc.core import Histories, Disabled, Violation, expect
from mc.util import equal, raises

PROPERTY = 'C10'
COUNT_FROM = 0         # the names are in the alphabet
LEVEL = 'model_checking'
ASSUMPTIONS = ['aliases are strings', 'an alias of a deleted object does not have to become available again']

CLASSES = {'QuantumSystem': qg.QuantumSystem, 'Qubit': qg.Qubit, 'Cavity': qg.Cavity, 'Simulation': qg.Simulation,
           'freeEvolution': qg.freeEvolution, 'qProtocol': qg.qProtocol, 'named': named, 'qBase': qBase}


class NW:
    def __init__(self):
        self.objs = []        # [object, set of names, class]
        self.dead = set()     # names of the deleted objects
        self.rejected = False


def add(w, obj, cls, aliases=()):
    names = {str(obj.name)} | set(aliases)
    for o, ns, _ in w.objs:
        expect(not (names & ns), f'{sorted(names & ns)} of a new object is already a name of {o.name}')
    expect(str(obj.name) not in w.dead, f'name {obj.name} of a deleted object is given to a new one')
    w.objs.append([obj, names, cls])


def nth(w, i):
    if i >= len(w.objs):
        raise Disabled()
    return w.objs[i]


def taken(w, alias, but=None):
    return any(alias in ns for o, ns, _ in w.objs if o is not but)


def internal(w, obj, name):
    # name of an object that is created by the library (e.g. the free evolution of a system)
    try:
        return obj.getByNameOrAlias(name) is not obj
    except ValueError:
        return False


def o_create(cls, alias=None):
    def op(w):
        if len(w.objs) >= 4:
            raise Disabled()
        kw = {} if alias is None else {'alias': alias}
        if alias is not None and (taken(w, alias) or results_name(w, alias) or (
                hasattr(CLASSES[cls], 'qRes') and taken(w, alias + 'Results'))):
            raises(lambda: CLASSES[cls](**kw), ValueError, f'{cls}(alias={alias}), which is in use,')
            w.rejected = True     # a rejected object might use up its default name
            return
        if alias in w.dead or (w.rejected and alias and w.objs and internal(w, w.objs[0][0], alias)):
            raise Disabled()
        add(w, CLASSES[cls](**kw), cls, kw.values())
    return (f'create {cls} {alias or ""}', op)


def o_alias(i, alias, as_type=list):
    """one alias, or a list of aliases that are given together, or not at all"""
    def op(w):
        obj, names, _ = nth(w, i)
        many = not isinstance(alias, str)
        given = [str(nth(w, int(a[8:]))[0].name) if a.startswith('name of ') else a for a in (alias if many else [alias])]
        if any(a in w.dead for a in given):
            raise Disabled()
        before, res = list(obj.alias), list(obj.qRes.alias) if hasattr(obj, 'qRes') else None
        # the results of an object are given its aliases followed by Results
        every = given + [a + 'Results' for a in given if res is not None]
        inuse = any(taken(w, a, obj) or ((w.rejected or a.startswith('_')) and internal(w, obj, a)) for a in given)
        inuse = inuse or any(taken(w, a) for a in every[len(given):]) or any(results_name(w, a) for a in given)
        if inuse:
            raises(lambda: setattr(obj, 'alias', as_type(given) if many else given[0]), ValueError, f'alias {alias} that is in use')
            equal(list(obj.alias), before, 'aliases after a rejected one')
            if res is not None:
                equal(list(obj.qRes.alias), res, 'aliases of the results after a rejected one')
        else:
            obj.alias = as_type(given) if many else given[0]
            names.update(given)
            if res is not None:
                for a in given:
                    expect(obj.getResultByNameOrAlias(a + 'Results') is obj.qRes, f'results of {obj.name} by {a}Results')
    return (f'{i}.alias={alias if isinstance(alias, str) else as_type(alias)}', op)


def results_name(w, alias):
    """alias is a name of the results of one of the objects"""
    return any(hasattr(o, 'qRes') and alias in {n + 'Results' for n in ns} for o, ns, _ in w.objs)


def o_copy(i):
    def op(w):
        obj, _, cls = nth(w, i)
        if cls not in ('QuantumSystem', 'Qubit', 'Cavity', 'qBase') or len(w.objs) >= 4:
            raise Disabled()
        add(w, obj.copy(), cls)
    return (f'copy {i}', op)


def o_sub(i, j):
    def op(w):
        a, b = nth(w, i), nth(w, j)
        if a[2] != 'QuantumSystem' or b[2] not in ('Qubit', 'Cavity') or i == j or b[0].superSys is not None:
            raise Disabled()
        a[0].addSubSys(sorted(b[1])[-1])
        expect(list(a[0].subSys.values())[-1] is b[0], f'addSubSys({sorted(b[1])[-1]})')
    return (f'{i}.addSubSys(a name of {j})', op)


def o_delete(i):
    def op(w):
        obj, names, cls = nth(w, i)
        if (getattr(obj, 'superSys', None) is not None) or len(getattr(obj, 'subSys', {})) and cls == 'QuantumSystem':
            raise Disabled()
        w.objs.pop(i)
        ref = weakref.ref(obj)
        del obj
        gc.collect()
        if ref() is not None:      # the library still refers to it, so it is not deleted
            raise Disabled()
        w.dead |= names
    return (f'delete {i}', op)


def o_many(cls):
    def op(w):
        if len(w.objs) >= 4:
            raise Disabled()
        new = 2 * CLASSES[cls]()
        for x in new.subSys.values():
            add(w, x, cls)
    return (f'2 * {cls}', op)


def final(w):
    every = [o for o, _, _ in w.objs]
    fresh = [qg.QuantumSystem(), qg.Simulation()]
    for n, x in ((str(f.name), f) for f in fresh):
        expect(not taken(w, n), f'new object is given the name {n}, which is in use')
    names = {}
    for obj, ns, cls in w.objs:
        for n in ns:
            expect(n not in names, f'{n} is the name of two objects')
            names[n] = obj
    for n, obj in names.items():
        for o in every + fresh:
            got = o.getByNameOrAlias(n)
            expect(got is obj, f'look-up of {n} through {o.name} finds {got}, expected {obj.name}')
        equal(obj.name == n, True, f'{obj.name} == {n}')
        for o in every:
            if o is not obj:
                equal(o.name == n, False, f'{o.name} == {n}')
    for obj, ns, cls in w.objs:
        for n in (obj.qRes.alias if hasattr(obj, 'qRes') else []):
            expect(str(n)[:-7] in ns, f'results of {obj.name} are given the alias {n}, but it is only known as {sorted(ns)}')
    for n in ['no such name'] + sorted(w.dead):
        if n not in names and not any(f.name == n for f in fresh):
            got = None
            try:
                got = fresh[0].getByNameOrAlias(n)
            except ValueError:
                continue
            raise Violation(f'look-up of {n} of a deleted object gives {got}, has to be rejected')
    # places that accept names
    for n, obj in names.items():
        if isinstance(obj, qg.QuantumSystem):
            sup = obj.superSys
            sim = qg.Simulation()
            sim.addSubSys(n)
            expect(sim.qSystems[-1] is obj, f'system of a simulation added by {n}')
            sw = sim.Sweep.createSweep(system=n, sweepKey='frequency', sweepList=[1.0])
            expect(list(sw.subSys.values()) == [obj], f'sweep of {n}')
            expect(sw.subSys[n] is obj, f'system {n} of a sweep')
            sim.removeSweep(n)
            equal(len(sim.Sweep.sweeps), 0, f'removeSweep({n})')
            gate = qg.xGate(angle=1.0)
            gate.addSubSys(n)
            expect(gate.system[-1] is obj, f'system of a gate added by {n}')
            sim.removeQSystems(n)
            equal(len(sim.subSys), 0, f'removeQSystems({n})')
            if sup is None and type(obj) is not qg.QuantumSystem:
                comp = qg.QuantumSystem()
                comp.addSubSys(n)
                expect(comp.subSys[n] is obj, f'sub-system {n}')
                expect(n in comp.subSys, f'{n} in subSys')
                other = qg.Cavity(dimension=2)
                comp.addSubSys(other)
                term = comp.createTerm(operator=[qg.identity, qg.number], frequency=1.0, qSystem=[n, other],
                                       alias='term of ' + n)
                expect(term.qSystem[0] is obj, f'coupling of {n}')
                expect(comp.terms['term of ' + n] is term, 'term by its alias')
                comp.removeTerm('term of ' + n)
                equal(len(comp.terms), 0, 'removeTerm by alias')
                comp.removeSubSys(n)
                expect(obj not in comp.subSys.values(), f'removeSubSys({n})')
                new = qg.QuantumSystem() + n
                expect(list(new.subSys.values()) == [obj], f'+ {n}')
                new = new - n
                equal(len(new.subSys), 0, f'- {n}')
            elif sup is not None:
                expect(sup.subSys[n] is obj, f'sub-system {n} of {sup.name}')
                expect(obj.ind == list(sup.subSys.values()).index(obj), 'index of the sub-system')
        if hasattr(obj, 'qRes'):
            expect(obj.getResultByNameOrAlias(n + 'Results') is obj.qRes, f'results of {n}')
        if isinstance(obj, qg.freeEvolution):
            p = qg.qProtocol()
            q = qg.Qubit()
            p.system = q
            b = qBase()
            b.addSubSys(n)
            expect(b.subSys[n] is obj, f'{n} in subSys')
            b.removeSubSys(n)
            equal(len(b.subSys), 0, f'removeSubSys({n})')


def state(w):
    return ([(cls, sorted(ns)) for _, ns, cls in w.objs], sorted(w.dead))


def components(tier):
    k = 1 if tier == 'thorough' else 0
    names = [o_create('QuantumSystem'), o_create('Qubit'), o_create('Qubit', 'x'), o_create('Simulation', 'x'), o_create('named'), o_create('qBase', 'x'),
             o_create('Cavity', 'Qubit1'), o_create('qProtocol', 'y'), o_alias(0, 'x'), o_alias(1, 'x'), o_alias(0, 'Qubit2'),
             o_alias(0, 'name of 0'), o_alias(0, 'name of 1'), o_alias(1, 'name of 0'), o_alias(1, 'Simulation3'),
             o_copy(0), o_delete(0), o_delete(1), o_many('Qubit'), o_alias(0, '_freeEvolution3'),
             o_alias(0, ['x', 'z']), o_alias(1, ['z', 'x'], tuple), o_alias(1, ['u', 'name of 0']), o_alias(1, 'xResults')]
    uses = [o_create('QuantumSystem'), o_create('Qubit', 'q'), o_create('Cavity', 'c'), o_create('Cavity'),
            o_create('freeEvolution', 'f'), o_alias(0, 'x'), o_alias(1, 'y'), o_alias(1, 'z'), o_alias(2, 'x'), o_sub(0, 1),
            o_sub(1, 2), o_copy(1), o_delete(0)]

    def uprune(labels):
        return not labels[0].startswith('create') if labels else False
    return [
        Histories('names', NW, names, final, 3 + k, state, uprune),
        Histories('uses of names', NW, uses, final, 4 + k, state, uprune),
    ]
