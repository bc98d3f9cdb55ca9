"""
Explorer: exhaustive enumeration of operation histories and finite input domains, run on the real code.

Two kinds of components make up the check of a property:

``Histories``
    A small alphabet of operations on a world. A world is a pair: fresh objects of the library and the state of an
    independent reference model (plain numpy/dicts, mc/ref.py). *Every* operation sequence up to the depth is a trace
    of the model, and each one is replayed from scratch on the real objects. Observations are compared with the model
    after the last operation, and by read operations (which are part of the alphabet, because hidden caches make reads
    change the state of the implementation) anywhere in the history.

``Cases``
    A finite domain that is enumerated completely.
"""
import hashlib
import itertools
import json
import multiprocessing
import os
import pickle
import signal
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.environ.get('QG_OUT', VERIF)
REPO = os.environ.get('QG_REPO', '/repo')
_POOL = multiprocessing.get_context('fork').Pool  # checks may replace the attributes of the multiprocessing module

HIST_TIMEOUT = 120   # seconds for one history/case: a hang is reported instead of running into the check's time limit


class Violation(Exception):
    """The implementation and the reference disagree."""


class Disabled(Exception):
    """The operation is not enabled in this state of the model (the history is not a trace of the model)."""


class Hang(BaseException):
    pass


def _alarm(signum, frame):
    raise Hang()


def expect(cond, msg):
    if not cond:
        raise Violation(msg() if callable(msg) else msg)


def digest(obj):
    return hashlib.blake2b(repr(obj).encode(), digest_size=8).digest()


class Histories:
    """
    name    : label
    build   : () -> world
    ops     : list of (label, function(world))
    final   : function(world), compares every observable with the model
    depth   : maximum length of the operation part
    state   : function(world) -> repr-able state of the model, for the state/transition counts
    prune   : function(tuple of labels) -> True if the (partial) history is redundant
    """
    def __init__(self, name, build, ops, final, depth, state=None, prune=None, teardown=None):
        self.name = name
        self.build = build
        self.ops = ops
        self.final = final
        self.depth = depth
        self.state = state
        self.prune = prune
        self.teardown = teardown

    def tasks(self):
        n = len(self.ops)
        k = min(2, self.depth)
        out = [('h', p, False) for ln in range(k) for p in itertools.product(range(n), repeat=ln)]
        out += [('h', p, True) for p in itertools.product(range(n), repeat=k)]
        return out

    def labels(self, hist):
        return [self.ops[i][0] for i in hist]

    def run_one(self, hist, stats=None):
        world = self.build()
        try:
            prev = None
            track = stats is not None and self.state is not None
            for i in hist:
                if track:
                    prev = digest(self.state(world))
                self.ops[i][1](world)
            if track:
                cur = digest(self.state(world))
                stats['states'].add(cur)
                if hist:
                    stats['transitions'].add(digest((prev, hist[-1], cur)))
            self.final(world)
        finally:
            if self.teardown is not None:
                self.teardown(world)

    def run_task(self, task, ctx):
        _, prefix, extend = task
        stack = [tuple(prefix)]
        while stack:
            hist = stack.pop()
            if self.prune is not None and self.prune(tuple(self.labels(hist))):
                continue
            res = ctx.execute(self, hist)
            if res is Disabled:
                continue
            if ctx.stop():
                return
            if extend and len(hist) < self.depth:
                stack.extend(hist + (i,) for i in reversed(range(len(self.ops))))

    def describe(self, hist):
        return self.labels(hist)

    def parse(self, data):
        idx = {lab: i for i, (lab, _) in enumerate(self.ops)}
        return tuple(idx[d] for d in data)


class Cases:
    """
    name   : label
    domain : list (or callable returning a list) of JSON-like, hashable cases
    check  : function(case)
    """
    def __init__(self, name, domain, check, chunk=None):
        self.name = name
        self._domain = domain
        self.check = check
        self.chunk = chunk
        self._cache = None

    @property
    def domain(self):
        if self._cache is None:
            self._cache = list(self._domain() if callable(self._domain) else self._domain)
        return self._cache

    def tasks(self):
        n = len(self.domain)
        size = self.chunk or max(1, min(200, n // 32))
        return [('c', i, min(n, i + size)) for i in range(0, n, size)]

    def run_one(self, case, stats=None):
        self.check(case)
        if stats is not None:
            stats['states'].add(digest((self.name, case)))

    def run_task(self, task, ctx):
        _, a, b = task
        for case in self.domain[a:b]:
            ctx.execute(self, case)
            if ctx.stop():
                return

    def describe(self, case):
        return case

    def parse(self, data):
        def tup(x):
            return tuple(tup(y) for y in x) if isinstance(x, list) else x
        return tup(data)


class _Ctx:
    def __init__(self, comp, ci, deadline, known, maxviol=1):
        self.comp, self.ci, self.deadline, self.known = comp, ci, deadline, known
        self.maxviol = maxviol
        self.stats = {'states': set(), 'transitions': set()}
        self.execs = 0
        self.disabled = 0
        self.steps = 0
        self.violations = []
        self.knownhits = []
        self.truncated = False
        self.sample = None

    def stop(self):
        if len(self.violations) >= self.maxviol:
            return True
        if time.time() > self.deadline:
            self.truncated = True
            return True
        return False

    def execute(self, comp, item):
        reset_library()
        signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(HIST_TIMEOUT)
        try:
            comp.run_one(item, self.stats)
            self.execs += 1
            if isinstance(comp, Histories):
                self.steps += len(item)
            if self.sample is None or (isinstance(comp, Histories) and len(item) > len(self.sample)):
                self.sample = item
            return None
        except Disabled:
            self.disabled += 1
            return Disabled
        except Hang:
            msg = f'no answer within {HIST_TIMEOUT} s'
        except Violation as exc:
            msg = str(exc)
        except RecursionError as exc:
            msg = f'RecursionError: {exc}'
        except Exception as exc:  # an operation that has to work raised
            tb = traceback.extract_tb(exc.__traceback__)
            where = ' <- '.join(f'{os.path.basename(f.filename)}:{f.lineno}:{f.name}' for f in reversed(tb[-4:]))
            msg = f'unexpected {type(exc).__name__}: {exc} [{where}]'
        finally:
            signal.alarm(0)
        self.execs += 1
        entry = {'component': comp.name, 'item': comp.describe(item), 'message': msg[:2000]}
        key = json.dumps([comp.name, entry['item']], default=str)
        for kid, text in self.known.items():
            if kid == key:
                self.knownhits.append((key, text))
                return None
        self.violations.append(entry)
        return None


def reset_library():
    """Fresh registries, so that executions are independent of each other (and the registries stay small)."""
    import quanguru.classes.base as b
    import quanguru.classes.QRes as r
    import quanguru.classes.QSim as s
    try:
        b.named._resetAll()
    except Exception:
        pass
    try:
        _count_from(b.named)
    except Exception:
        pass
    try:
        r.qResults._allResults.clear()
    except Exception:
        pass
    try:
        b.qBase._auxiliaryDict.clear()
    except Exception:
        pass
    try:
        s._poolMemory.coreCount = None
    except Exception:
        pass


_COUNT_FROM = 8     # default names are <label>9, <label>10, ..., whose alphabetical order is not the one of creation


def _count_from(cls):
    for sub in cls.__subclasses__():
        sub._instances = sub._externalInstances = sub._internalInstances = _COUNT_FROM
        _count_from(sub)


_COMPONENTS = None
_DEADLINE = None
_KNOWN = None


def _worker_init():
    warnings.simplefilter('ignore')
    try:
        import numpy
        numpy.seterr(all='ignore')
    except Exception:
        pass
    # results printed by the library do not belong to the output of the checks
    devnull = open(os.devnull, 'w')
    sys.stdout = devnull


def _run_task(arg):
    ci, task = arg
    comp = _COMPONENTS[ci]
    ctx = _Ctx(comp, ci, _DEADLINE, _KNOWN)
    if time.time() > _DEADLINE:
        ctx.truncated = True
    else:
        comp.run_task(task, ctx)
    return (ci, ctx.execs, ctx.disabled, ctx.steps, pickle.dumps((ctx.stats['states'], ctx.stats['transitions'])),
            ctx.violations, ctx.knownhits, ctx.truncated,
            None if ctx.sample is None else comp.describe(ctx.sample))


def load_known(prop):
    """known_findings.txt: lines 'known: property=<id> key=<json> :: text' (and 'fixed: ...', which suppress nothing)."""
    out = {}
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            if line.startswith('known:') and f'property={prop} ' in line:
                key, _, text = line.split('key=', 1)[1].partition(' :: ')
                out[json.dumps(json.loads(key))] = text.strip()
    return out


def run_check(mod, tier, seed=1, workers=None, quiet=False):
    """mod: check module with PROPERTY, LEVEL, components(tier), ASSUMPTIONS, RULE."""
    global _COMPONENTS, _DEADLINE, _KNOWN, _COUNT_FROM
    t0 = time.time()
    prop = mod.PROPERTY
    budget = 800 if tier == 'quick' else float(os.environ.get('VERIF_THOROUGH_BUDGET', 6 * 3600))
    _DEADLINE = t0 + budget
    _KNOWN = load_known(prop)
    _COUNT_FROM = getattr(mod, 'COUNT_FROM', _COUNT_FROM)
    comps = mod.components(tier)
    for c in comps:
        if isinstance(c, Cases):
            c.domain  # build before forking
    _COMPONENTS = comps
    tasks = [(ci, t) for ci, c in enumerate(comps) for t in c.tasks()]
    # spread the components over the workers deterministically
    tasks.sort(key=lambda t: (digest(t), t[0]))
    per = [dict(execs=0, disabled=0, steps=0, states=set(), transitions=set(), sample=None) for _ in comps]
    violations, known, truncated, dead = [], {}, False, None
    workers = workers or min(8, os.cpu_count() or 1)
    pool = _POOL(workers, initializer=_worker_init)
    try:
        it = pool.imap_unordered(_run_task, tasks, chunksize=1)
        while True:
            try:
                r = it.next(timeout=HIST_TIMEOUT * 3)
            except StopIteration:
                break
            except multiprocessing.TimeoutError:
                dead = 'a worker process ended or hung'
                break
            ci, ex, dis, steps, packed, viol, kn, trunc, sample = r
            p = per[ci]
            p['execs'] += ex
            p['disabled'] += dis
            p['steps'] += steps
            st, tr = pickle.loads(packed)
            p['states'] |= st
            p['transitions'] |= tr
            if sample is not None and (p['sample'] is None or len(str(sample)) > len(str(p['sample']))):
                p['sample'] = sample
            violations += viol
            for k, text in kn:
                known[k] = text
            truncated = truncated or trunc
            if len(violations) >= 5 and time.time() - t0 > 20:
                break
            if len(violations) >= 40:
                break
    finally:
        pool.terminate()
        pool.join()
    if dead is not None:
        violations.append({'component': '(harness)', 'item': [], 'message': dead})
    # shortest history first
    violations.sort(key=lambda v: (len(v['item']) if isinstance(v['item'], (list, tuple)) else 1, str(v)))
    wall = time.time() - t0
    write_evidence(mod, tier, seed, comps, per, violations, known, truncated, wall)
    for k, text in sorted(known.items()):
        print(f'KNOWN-FINDING: property={prop} {k} {text}')
    execs = sum(p['execs'] for p in per)
    states = sum(len(p['states']) for p in per)
    if not quiet:
        for c, p in zip(comps, per):
            print(f"  {c.name}: {p['execs']} executions, {len(p['states'])} model states, "
                  f"{len(p['transitions'])} transitions, {p['disabled']} disabled")
        print(f'{prop} {tier}: {execs} executions, {states} states, {wall:.1f} s'
              + (' (time budget reached, NOT exhaustive)' if truncated else ''))
    old = os.path.join(OUT, 'replays', f'{prop}.json')
    if not violations and os.path.exists(old):
        os.remove(old)
    if violations:
        rdir = os.path.join(OUT, 'replays')
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f'{prop}.json')
        v = violations[0]
        with open(path, 'w') as f:
            json.dump({'property': prop, 'tier': tier, **v, 'others': violations[1:10]}, f, indent=1, default=str)
        print(f"{v['component']}: {v['item']}\n  {v['message']}")
        print(f'VIOLATION property={prop} replay={path}')
        return 1
    return 0


def write_evidence(mod, tier, seed, comps, per, violations, known, truncated, wall):
    execs = sum(p['execs'] for p in per)
    states = sum(len(p['states']) for p in per)
    trans = sum(len(p['transitions']) for p in per)
    samples = [{'component': c.name, 'case': p['sample']} for c, p in zip(comps, per) if p['sample'] is not None][:20]
    bounds = {}
    for c, p in zip(comps, per):
        if isinstance(c, Histories):
            bounds[c.name] = {'depth': c.depth, 'alphabet': [o[0] for o in c.ops], 'histories_replayed': p['execs'],
                              'operations_run': p['steps'], 'model_states': len(p['states']),
                              'model_transitions': len(p['transitions']), 'not_enabled': p['disabled']}
        else:
            bounds[c.name] = {'cases': p['execs'], 'domain_size': len(c.domain)}
    cov = {'exhaustive': not truncated and not violations, 'components': bounds, 'samples': samples}
    if mod.LEVEL == 'model_checking':
        cov.update(states=states, transitions=trans, traces_validated_against_impl=execs)
    else:
        cov.update(evaluations=execs, distinct_nontrivial=states, rule=mod.RULE)
    if known:
        cov['known_findings_hit'] = sorted(known)
    ev = {'property': mod.PROPERTY, 'tier': tier, 'seed': seed, 'level': mod.LEVEL, 'coverage': cov,
          'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])), 'wall_s': round(wall, 2), 'violations': len(violations)}
    os.makedirs(os.path.join(OUT, 'evidence'), exist_ok=True)
    path = os.path.join(OUT, 'evidence', f'{mod.PROPERTY}.json')
    with open(path + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(path + '.tmp', path)


def replay(mod, path):
    global _COUNT_FROM
    _COUNT_FROM = getattr(mod, 'COUNT_FROM', _COUNT_FROM)
    data = json.load(open(path))
    warnings.simplefilter('ignore')
    comps = {c.name: c for c in mod.components(data.get('tier', 'quick'))}
    comp = comps[data['component']]
    ctx = _Ctx(comp, 0, time.time() + 3600, {})
    ctx.execute(comp, comp.parse(data['item']))
    if ctx.violations:
        print(ctx.violations[0]['component'], ctx.violations[0]['item'])
        print(ctx.violations[0]['message'])
        print(f'VIOLATION property={mod.PROPERTY} replay={path}')
        return 1
    print('no violation')
    return 0
