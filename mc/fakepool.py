"""
Controlled replacement of multiprocessing.pool.Pool: real forked processes, but the assignment of the tasks to the
workers and the order of completion are decisions of the explorer instead of the operating system.

The workers are forked when the pool is created (as for the real one), every task is pickled on its own when it is sent,
and a worker keeps everything it does not receive with the task (module- and class-level state) from its previous tasks.
Workers share nothing, so that running one task at a time loses no behaviour: a schedule is fully determined by the
worker and position of each task, and (for the methods that return results in the order of completion) by the order.
"""
import itertools
import multiprocessing
import multiprocessing.pool
import os
import pickle
import struct
import sys
import traceback


class Schedule:
    """
    assignment : block number of each task (a restricted growth string), tasks beyond its length are dealt in turns
    order      : order of completion (a permutation of the tasks of a call), None: in order of the tasks
    """
    def __init__(self, assignment=(), order=None):
        self.assignment, self.order = tuple(assignment), order
        self.log = []

    def worker(self, k, n):
        return (self.assignment[k] if k < len(self.assignment) else k) % n

    def completion(self, n):
        if self.order is None or len(self.order) != n:
            return list(range(n)) if self.order is None else list(reversed(range(n)))
        return list(self.order)


SCHEDULE = Schedule()


def partitions(n, workers):
    """all assignments of n tasks to at most this many identical workers"""
    def rec(pre, top):
        if len(pre) == n:
            yield tuple(pre)
            return
        for b in range(min(top + 2, workers)):
            yield from rec(pre + [b], max(top, b))
    return list(rec([], -1))


def orders(assignment):
    """all orders of completion of an assignment: a worker completes its tasks in their order"""
    n = len(assignment)
    for perm in itertools.permutations(range(n)):
        pos = {t: i for i, t in enumerate(perm)}
        if all(pos[i] < pos[j] for i in range(n) for j in range(i + 1, n) if assignment[i] == assignment[j]):
            yield perm


def _read(fd, n):
    out = b''
    while len(out) < n:
        b = os.read(fd, n - len(out))
        if not b:
            raise EOFError()
        out += b
    return out


def _send(fd, data):
    data = struct.pack('>Q', len(data)) + data
    while data:
        data = data[os.write(fd, data):]


def _recv(fd):
    return _read(fd, struct.unpack('>Q', _read(fd, 8))[0])


class _Worker:
    def __init__(self, initializer, initargs, others):
        r1, self.w = os.pipe()
        self.r, w2 = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                import signal
                signal.alarm(0)
                for o in others:
                    os.close(o.w)
                    os.close(o.r)
                os.close(self.w)
                os.close(self.r)
                if initializer is not None:
                    initializer(*initargs)
                while True:
                    data = _recv(r1)
                    calls, res = None, []
                    try:
                        calls = pickle.loads(data)
                        for func, args, kwds in calls:
                            try:
                                res.append((True, func(*args, **kwds)))
                            except Exception as exc:
                                res.append((False, exc))
                        out = pickle.dumps(res)
                        if not all(ok for ok, _ in res):
                            pickle.loads(out)
                    except Exception as exc:  # values or exceptions that cannot be pickled
                        err = RuntimeError(repr(exc) + traceback.format_exc())
                        out = pickle.dumps([(False, err)] * len(calls or [0]))
                    _send(w2, out)
            except BaseException:
                pass
            finally:
                os._exit(0)
        os.close(r1)
        os.close(w2)

    def call(self, data):
        _send(self.w, data)
        return pickle.loads(_recv(self.r))

    def end(self):
        for fd in (self.w, self.r):
            try:
                os.close(fd)
            except OSError:
                pass
        os.waitpid(self.pid, 0)


class _Result:
    def __init__(self, ok, value):
        self._ok, self._value = ok, value

    def get(self, timeout=None):
        if self._ok:
            return self._value
        raise self._value

    def wait(self, timeout=None):
        return None

    def ready(self):
        return True

    def successful(self):
        return self._ok


class FakePool:
    created = []

    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None):
        self._processes = processes or os.cpu_count() or 1
        if self._processes < 1:
            raise ValueError('Number of processes must be at least 1')
        self._state = 'RUN'
        self._workers = []
        sys.stdout.flush()
        for _ in range(min(self._processes, 8)):
            self._workers.append(_Worker(initializer, initargs, self._workers))
        self._count = 0
        self.schedule = SCHEDULE
        FakePool.created.append(self)

    # ---- tasks
    def _run(self, calls, chunksize=None):
        """calls: list of (func, args, kwds); returns list of (index, ok, value) in the order of the completion. The tasks
        of a chunk are pickled together, i.e. they share the objects in them."""
        if self._state != 'RUN':
            raise ValueError('Pool not running')
        calls = list(calls)
        n = chunksize or 1
        chunks = [list(range(i, min(i + n, len(calls)))) for i in range(0, len(calls), n)]
        data = [pickle.dumps([calls[i] for i in c]) for c in chunks]
        done = []
        for k, (c, d) in enumerate(zip(chunks, data)):
            w = self.schedule.worker(self._count + k, len(self._workers))
            self.schedule.log.append(w)
            done.append([(i,) + r for i, r in zip(c, self._workers[w].call(d))])
        self._count += len(chunks)
        return [r for k in self.schedule.completion(len(chunks)) for r in done[k]]

    @staticmethod
    def _collect(res):
        res = sorted(res, key=lambda r: r[0])
        for _, ok, val in res:
            if not ok:
                raise val
        return [val for _, _, val in res]

    @staticmethod
    def _default_chunk(n, workers):
        c, extra = divmod(n, workers * 4)
        return c + bool(extra)

    def map(self, func, iterable, chunksize=None):
        items = list(iterable)
        return self._collect(self._run([(func, (i,), {}) for i in items],
                                       chunksize or self._default_chunk(len(items), self._processes) or 1))

    def starmap(self, func, iterable, chunksize=None):
        items = list(iterable)
        return self._collect(self._run([(func, tuple(i), {}) for i in items],
                                       chunksize or self._default_chunk(len(items), self._processes) or 1))

    def imap(self, func, iterable, chunksize=1):
        return iter(self._collect(self._run([(func, (i,), {}) for i in iterable], chunksize)))

    def imap_unordered(self, func, iterable, chunksize=1):
        for _, ok, val in self._run([(func, (i,), {}) for i in iterable], chunksize):
            if not ok:
                raise val
            yield val

    def apply(self, func, args=(), kwds=None):
        return self._collect(self._run([(func, tuple(args), kwds or {})]))[0]

    def apply_async(self, func, args=(), kwds=None, callback=None, error_callback=None):
        _, ok, val = self._run([(func, tuple(args), kwds or {})])[0]
        if ok and callback is not None:
            callback(val)
        if not ok and error_callback is not None:
            error_callback(val)
        return _Result(ok, val)

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        try:
            val, ok = self.map(func, iterable, chunksize), True
        except Exception as exc:
            val, ok = exc, False
        if ok and callback is not None:
            callback(val)
        if not ok and error_callback is not None:
            error_callback(val)
        return _Result(ok, val)

    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        try:
            val, ok = self.starmap(func, iterable, chunksize), True
        except Exception as exc:
            val, ok = exc, False
        if ok and callback is not None:
            callback(val)
        return _Result(ok, val)

    # ---- life
    def close(self):
        if self._state == 'RUN':
            self._state = 'CLOSE'

    def terminate(self):
        self._state = 'TERMINATE'
        self.join()

    def join(self):
        if self._state == 'RUN':
            raise ValueError('Pool is still running')
        for w in self._workers:
            w.end()
        self._workers = []

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.terminate()


class controlled:
    """with controlled(schedule): every multiprocessing.Pool is a controlled one"""
    def __init__(self, schedule):
        self.schedule = schedule

    def __enter__(self):
        global SCHEDULE
        self.old = multiprocessing.pool.Pool
        self.oldsched = SCHEDULE
        SCHEDULE = self.schedule
        multiprocessing.pool.Pool = FakePool
        FakePool.created = []
        multiprocessing.process.current_process()._config['daemon'] = False
        return self

    def __exit__(self, *exc):
        global SCHEDULE
        multiprocessing.pool.Pool = self.old
        SCHEDULE = self.oldsched
        for p in FakePool.created:
            if p._workers:
                p.terminate()
        return False
