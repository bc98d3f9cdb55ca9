"""C19: data saved into CSV files is read back with the same values, shapes and keys."""
import itertools
import os
import shutil
import sys
import tempfile
import numpy as np
import quanguru as qg
from quanguru.extensions import saveReadCSV as csvf, _helpers
from mc.core import Cases, Histories, Violation
from mc.util import equal

PROPERTY = 'C19'
LEVEL = 'exploration'
RULE = ('all shapes of lists and tables up to a size with values of every number type from a list of special ones, all '
        'sequences of saves and reads of two files up to a depth, results of all small simulations with up to three sweeps')
ASSUMPTIONS = ['a table of a single row is read back as a list, since files do not distinguish the two',
               'parent directories exist (only the last directory is created)']

INF, NAN = float('inf'), float('nan')
REALS = (0.0, -0.0, 1.0, 0.1, 1 / 3, -2.5e-308, 1.7976931348623157e308, 5e-324, INF, -INF, NAN, 123456789.123456789, -7.0)
INTS = (0, 1, -3, 2 ** 53, 10 ** 15, 7)
CPLX = (1j, 1 + 2j, -0.1 - 0.3j, 1e-300 + 1e300j, 0j, complex(INF, 1), -2.5 + 0j, complex(0.1, -1e-20))
KINDS = {'float': (float, REALS), 'np.float64': (np.float64, REALS), 'np.float32': (np.float32, (0.0, 0.1, -2.5, 1e-30, INF)),
         'np.float16': (np.float16, (0.5, 0.1, -2.0)), 'int': (int, INTS), 'np.int64': (np.int64, INTS), 'np.int32': (np.int32, (0, 1, -5, 9)),
         'complex': (complex, CPLX), 'np.complex128': (np.complex128, CPLX), 'np.complex64': (np.complex64, (1j, 0.5 - 2j, -1 + 0j))}


class Scratch:
    def __enter__(self):
        self.path = tempfile.mkdtemp(prefix='qgcsv_')
        return self.path

    def __exit__(self, *_):
        shutil.rmtree(self.path)


def value(kind, i):
    f, vals = KINDS[kind]
    return f(vals[i % len(vals)])


def alike(got, want, kind, what):
    """same value (for types with less digits, after conversion)"""
    want = list(want)
    if len(got) != len(want):
        raise Violation(f'{what}: {len(got)} values, expected {len(want)}')
    for g, w in zip(got, want):
        f = KINDS[kind][0] if kind in KINDS else None
        if f in (np.float32, np.float16, np.complex64):
            g, w = f(g), f(w)
        gc, wc = complex(g), complex(w)
        for a, b in ((gc.real, wc.real), (gc.imag, wc.imag)):
            if not (a == b or (a != a and b != b)):
                raise Violation(f'{what}: {g!r}, expected {w!r}')


def reader(kind):
    return (np.complex128, False) if 'complex' in kind else (float, True)


def read(path, kind):
    t, rv = reader(kind)
    return csvf.readCSV(path, t, rv)


# -------------------------------------------------------------- lists
def check_list(case):
    kind, start, n, cont = case
    data = [value(kind, start + k) for k in range(n)]
    was = list(data)
    given = np.array(data) if cont == 'array' else (tuple(data) if cont == 'tuple' else data)
    with Scratch() as d:
        path = csvf.saveCSV(given, d, 'x')
        equal(path, d, 'returned path')
        equal(sorted(os.listdir(d)), ['x.txt'], 'files')
        got = read(d + '/x.txt', kind)
        alike(got, was, kind, f'{kind} list')
        if 'complex' in kind:
            alike(csvf.readCSV(d + '/x.txt', np.complex128), [complex(v).real for v in was], kind, 'real parts')
        else:
            alike(csvf.readCSV(d + '/x.txt'), was, kind, 'default type')
            alike(csvf.readCSV(d + '/x.txt', np.complex128, False), was, kind, 'as complex numbers')
        if 'int' in kind:
            got = csvf.readCSV(d + '/x.txt', int)
            alike(got, was, kind, 'as integers')
        alike(list(given), was, kind, 'the data is not changed')


def list_domain(deep):
    out = []
    for k, (_, vals) in KINDS.items():
        for cont in ('list', 'array', 'tuple'):
            for start in range(len(vals)):
                out += [(k, start, n, cont) for n in range(1, 6 if deep else 4)]
            out += [(k, 0, n, cont) for n in (9, 10, 11, 40, 101, 1025)]
    return out


# -------------------------------------------------------------- tables
def check_table(case):
    kind, lens, cont = case
    it = itertools.count()
    rows = [[value(kind, next(it)) for _ in range(n)] for n in lens]
    given = {'lists': rows, 'arrays': [np.array(r) for r in rows], 'table': np.array(rows) if len(set(lens)) == 1 else None}[cont]
    with Scratch() as d:
        csvf.saveCSV(given, d, 'x')
        got = read(d + '/x.txt', kind)
        if len(lens) == 1:
            got = [got]
        equal(len(got), len(rows), 'number of the rows')
        for g, r in zip(got, rows):
            alike(g, r, kind, f'row of {kind}')


def table_domain(deep):
    out = []
    for n in range(1, 5 if deep else 4):
        for lens in itertools.product(range(0, 5 if deep else 4), repeat=n):
            if n == 1 and lens[0] == 0:
                continue
            for kind in KINDS if n < 3 or deep else ('float', 'np.complex128', 'int', 'complex'):
                out += [(kind, lens, c) for c in ('lists', 'arrays')]
                if len(set(lens)) == 1 and lens[0]:
                    out.append((kind, lens, 'table'))
    for lens in ((1,) * 12, (2,) * 33, tuple(range(12)), (64, 65), (100,) * 11):
        out += [(kind, lens, c) for kind in KINDS for c in ('lists', 'arrays', 'table') if c != 'table' or len(set(lens)) == 1]
    return out


# -------------------------------------------------------------- mixed types
def check_mixed(case):
    data = [value(k, 1 + i) for i, k in enumerate(case)]
    with Scratch() as d:
        csvf.saveCSV(data, d, 'x')
        got = csvf.readCSV(d + '/x.txt', np.complex128, False)
        for g, v, k in zip(got, data, case):
            alike([g], [v], k, f'{k} in a mixed list')
        equal(len(got), len(data), 'number of the values')


# -------------------------------------------------------------- sequences of saves and reads
class W:
    def __init__(self):
        self.root = tempfile.mkdtemp(prefix='qgcsv_')
        self.files = {}
        self.stamps = []


DATA = {'one': [0.1], 'long': [1.0, 2.0, 3.0, 4.5, -1e-9], 'rows': [[1.0, 2.0], [3.0], [4.0, 5.0, 6.0]]}
WHERE = ('', '/sub')


def s_save(name, where, key):
    def op(w):
        p = w.root + where
        equal(csvf.saveCSV(DATA[key], p, name), p, 'returned path')
        w.files[where, str(name)] = key
    return (f'save {key} as {where}/{name}', op)


def s_stamp(w):
    """without a name"""
    before = {x for _, _, fs in os.walk(w.root) for x in fs}
    csvf.saveCSV(DATA['long'], w.root)
    new = {x for _, _, fs in os.walk(w.root) for x in fs} - before
    equal(len(new), 1, 'a new file for each save without a name')
    w.files['', new.pop()[:-4]] = 'long'


def s_default(w):
    """without a path"""
    old = sys.path[0]
    sys.path[0] = w.root
    try:
        equal(csvf.saveCSV(DATA['one'], fileName='default'), w.root, 'returned path')
    finally:
        sys.path[0] = old
    w.files['', 'default'] = 'one'


def s_change(w):
    """data that is saved is not changed by changing what was read"""
    for (where, name), key in w.files.items():
        got = csvf.readCSV(f'{w.root}{where}/{name}.txt')
        for g in (got if isinstance(got, list) else [got]):
            g *= 0


def check_files(w):
    found = sorted(os.path.join(p, f)[len(w.root):] for p, _, fs in os.walk(w.root) for f in fs)
    equal(found, sorted(f'{where}/{name}.txt' for where, name in w.files), 'files')
    for (where, name), key in w.files.items():
        got = csvf.readCSV(f'{w.root}{where}/{name}.txt')
        want = DATA[key]
        if key == 'rows':
            equal([list(g) for g in got], want, 'rows that are read')
        else:
            equal(list(got), want, 'values that are read')


# -------------------------------------------------------------- results of simulations
def leaves(data, idx=''):
    """(indices, table or list) of nested results, as they are split into files"""
    if isinstance(data, (list, np.ndarray)) and len(data) and isinstance(data[0], (list, np.ndarray)) and len(data[0]) \
            and isinstance(data[0][0], (list, np.ndarray)):
        return [x for k, y in enumerate(data) for x in leaves(y, idx + str(k))]
    return [(idx, data if isinstance(data, (list, np.ndarray)) else [data])]


VALS = {'float': lambda t: float(0.1 * t + 0.3), 'complex': lambda t: complex(t, -0.1), 'np': lambda t: np.int64(t),
        'c128': lambda t: np.complex128(1j * t)}


def check_results(case):
    sweeps, kinds, where, runs, alias = case
    q = qg.Qubit(frequency=1.0, initialState=0)
    if alias:
        q.alias = 'myqubit'
    p = qg.freeEvolution(system=q)
    sim = q.simulation if where == 'own' else qg.Simulation(subSys=q) if where == 'sim' else None
    if where == 'protocol':
        sim = qg.Simulation()
        sim.addProtocol(protocol=p, system=q)
    sim.totalTime, sim.stepSize, sim.delStates = 0.5, 0.25, True
    owner = {'own': q, 'sim': sim, 'protocol': p}[where]
    count = itertools.count()

    def comp(obj, *_):
        t = next(count)
        for k in kinds:
            if k == 'average':
                obj.qRes.resAverage = ('average', float(t))
            else:
                obj.resultsDict[k].append(VALS[k](t))
    owner.compute = comp
    for k, n in enumerate(sweeps):
        if n == 'steps':
            sim.Sweep.createSweep(system=sim, sweepKey='stepSize', sweepList=[0.25, 0.5, 0.125])
        else:
            sim.Sweep.createSweep(system=q, sweepKey='frequency', sweepList=[0.5 * (j + 1) for j in range(n)], combinatorial=True)
    for _ in range(runs):
        sim.run()
    with Scratch() as d:
        csvf.saveQResCSV(sim.qRes, d)
        want = [(k, idx, val) for k in kinds for idx, val in leaves(owner.resultsDict[k])]
        found = sorted(os.listdir(d))
        if len(found) != len(want):
            raise Violation(f'{len(found)} files, expected {len(want)} (results of {sweeps}, {kinds})')
        for k, idx, val in want:
            names = [f for f in found if f.endswith(f'Results{k}{idx}.txt') and f'{owner.name}Results' in f]
            equal(len(names), 1, f'number of the files of {k}{idx}')
            f = names[0]
            got = csvf.readCSV(f'{d}/{f}', np.complex128, False)
            rows = val if isinstance(val[0], (list, np.ndarray)) else [val]
            if not isinstance(got, list):
                got = [got]
            equal(len(got), len(rows), f'rows of {f}')
            for g, r in zip(got, rows):
                alike(g, r, 'float', f)


def results_domain(deep):
    out = []
    kinds = [(k,) for k in VALS] + [('average',), ('float', 'complex'), ('np', 'float', 'average'), ('float', 'c128', 'np')]
    for sweeps in ((), (1,), (3,), (2, 3), (3, 2), ('steps',), (2, 2, 3), (1, 2, 2), (2, 2, 2, 2), (11, 2)) + (((12, 3), (2, 11, 2)) if deep else ()):
        for ks in kinds:
            for where in ('own', 'sim', 'protocol'):
                out += [(sweeps, ks, where, runs, al) for runs in (1, 2) for al in (False, True)
                        if (runs, al) != (2, True) and (where == 'own' or not al)]
    return out


def check_collisions(case):
    """each list of nested data is found in its own file"""
    shape = case
    total = int(np.prod(shape))
    data = np.arange(1.0, total + 1).reshape(shape).tolist()
    with Scratch() as d:
        csvf._saveDictToCSV({'r': data}, d)
        got = sorted(v for f in os.listdir(d) for row in [csvf.readCSV(f'{d}/{f}')] for x in (row if isinstance(row, list) else [row])
                     for v in x)
        equal(len(got), total, 'number of the values in all the files')
        equal(got, [float(k) for k in range(1, total + 1)], 'values in all the files')


def components(tier):
    k = tier == 'thorough'
    ops = [s_save(n, wh, key) for n, wh, key in (('a', '', 'one'), ('a', '', 'long'), ('a', '', 'rows'), ('b', '', 'long'),
                                                 ('a', '/sub', 'one'), ('a', '/sub', 'rows'), (3, '', 'one'))]
    ops += [('save without a name', s_stamp), ('save without a path', s_default), ('change what is read', s_change)]
    return [
        Cases('lists', lambda: list_domain(k), check_list),
        Cases('tables', lambda: table_domain(k), check_table),
        Cases('mixed types', lambda: list(itertools.product(KINDS, repeat=2)) + (list(itertools.product(KINDS, repeat=3)) if k else []), check_mixed),
        Histories('saves and reads', W, ops, check_files, 5 if k else 4, state=lambda w: sorted(
            (a, '#' if '.' in b else b, v) for (a, b), v in w.files.items()), teardown=lambda w: shutil.rmtree(w.root)),
        Cases('results', lambda: results_domain(k), check_results),
        Cases('nested data', lambda: [s for n in (1, 2, 3, 4, 5) for s in itertools.product((2, 3), repeat=n)]
              + [(12,), (12, 3), (12, 2, 2), (2, 12, 2), (2, 12, 2, 2), (12, 2, 2, 2), (12, 12, 1, 1)], check_collisions),
    ]
