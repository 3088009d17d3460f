"""A controlled scheduler for the thread pool engine.

Worker threads are real threads, but exactly one thread runs at any time; control changes hands only where the schedule
says so. A schedule is a list of segments (job, steps): the job runs until it has taken that many steps (None: to its end).
Steps are counted at trace events inside foxes code.
"""
import sys, os, dis, threading, traceback, itertools, uuid
from collections import defaultdict
import concurrent.futures as cf
import foxes

ROOT = os.path.dirname(os.path.abspath(foxes.__file__)) + os.sep
STORES = {"STORE_SUBSCR", "STORE_ATTR", "STORE_GLOBAL", "STORE_SLICE", "DELETE_SUBSCR", "DELETE_ATTR", "DELETE_GLOBAL"}
_lines = {}


def store_lines(code):
    r = _lines.get(code)
    if r is None:
        r, ln = set(), None
        for i in dis.get_instructions(code):
            if i.starts_line:
                ln = i.positions.lineno if i.positions and i.positions.lineno else ln
            if i.opname in STORES:
                r.add(i.positions.lineno if i.positions and i.positions.lineno else ln)
        _lines[code] = r
    return r


class Abort(BaseException):
    pass


class Job:
    def __init__(self, sch, k, f, a, kw):
        self.sch, self.k, self.f, self.a, self.kw = sch, k, f, a, kw
        self.fut = Future(sch, self)
        self.go = threading.Semaphore(0)
        self.steps, self.limit, self.started, self.done = 0, None, False, False
        self.where = None

    def start(self):
        self.started = True
        self.th = threading.Thread(target=self._main, daemon=True)
        self.th.start()

    def step(self, frame):
        self.steps += 1
        if self.sch.trace is not None:
            self.sch.trace.append((self.k, frame.f_code.co_filename[len(ROOT):], frame.f_lineno))
        if self.limit is not None and self.steps >= self.limit:
            self.where = f"{frame.f_code.co_filename[len(ROOT):]}:{frame.f_lineno}"
            self.sch.back.release()
            self.go.acquire()
            if self.limit is None and not self.sch.full:
                sys.settrace(None)

    def _tracer(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(ROOT):
            return None
        if self.sch.fine:
            def local(fr, ev, a):
                if ev in ("line", "return"):
                    self.step(fr)
                return local
        else:
            sl = store_lines(frame.f_code)
            st = [False]

            def local(fr, ev, a):
                if ev == "line":
                    if st[0]:
                        self.step(fr)
                    st[0] = fr.f_lineno in sl
                elif ev == "return":
                    self.step(fr)
                return local
        return local

    def _main(self):
        self.go.acquire()
        if self.limit is not None or self.sch.full:
            sys.settrace(self._tracer)
        try:
            try:
                r = self.f(*self.a, **self.kw)
            finally:
                sys.settrace(None)
        except BaseException as e:
            cf.Future.set_exception(self.fut, e)
        else:
            cf.Future.set_result(self.fut, r)
        self.done = True
        self.sch.back.release()


class Future(cf.Future):
    def __init__(self, sch, job):
        super().__init__()
        self._sch, self._job = sch, job

    def result(self, timeout=None):
        self._sch.finish(self._job)
        return super().result(timeout)

    def exception(self, timeout=None):
        self._sch.finish(self._job)
        return super().exception(timeout)


class Scheduler:
    """early: segments run right after the submission of the given job number, late: run when the first result is needed

    full: count the steps of all jobs; otherwise steps are counted as long as a preemption is ahead"""

    def __init__(self, early=(), late=(), fine=False, trace=None, full=False):
        self.full = full
        self.early, self.late, self.fine, self.trace = dict(early), list(late), fine, trace
        self.jobs, self.back, self.started = [], threading.Semaphore(0), False
        self.workers = 1
        self.log = []

    def submit(self, f, a, kw):
        j = Job(self, len(self.jobs), f, a, kw)
        self.jobs.append(j)
        for seg in self.early.get(j.k, ()):
            self.run(*seg)
        return j.fut

    def can_start(self, k):
        j = self.jobs[k]
        return j.started or (all(q.started for q in self.jobs[:k]) and sum(q.started and not q.done for q in self.jobs) < self.workers)

    def run(self, k, steps=None):
        if k >= len(self.jobs):
            return
        j = self.jobs[k]
        if j.done or not self.can_start(k):
            return
        if not j.started:
            j.start()
        j.limit = None if steps is None else j.steps + steps
        j.where = None
        if steps is not None and steps <= 0:
            return
        j.go.release()
        self.back.acquire()
        self.log.append((k, j.steps, j.where or "end"))

    def finish(self, need=None):
        """continues until something (the needed job, if given) has ended"""
        while self.late and self.late[0][0] < len(self.jobs):
            self.run(*self.late.pop(0))
        if self.late and need is None:
            # the next job of the schedule comes later: those that are not part of it run on
            held = [j for j in self.jobs if j.started and not j.done]
            done = False
            for k, j in enumerate(list(self.jobs)):
                if not j.done and j not in held:
                    self.run(k)
                    done = done or j.done
            if done:
                return
        for _ in range(len(self.jobs) + 1):
            for k in range(len(self.jobs)):
                self.run(k)


CUR = [None]


class Pool:
    def __init__(self, max_workers=None, *a, **kw):
        self.sch = CUR[0]
        self.sch.workers = max_workers or 2
        self.sch.pools = getattr(self.sch, "pools", 0) + 1
        self._max_workers = self.sch.workers

    def submit(self, f, /, *a, **kw):
        return self.sch.submit(f, a, kw)

    def map(self, f, *its, timeout=None, chunksize=1):
        fs = [self.submit(f, *a) for a in zip(*its)]
        return (x.result() for x in fs)

    def shutdown(self, wait=True, cancel_futures=False):
        self.sch.finish()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.shutdown()


class control:
    """with control(scheduler): thread pools created inside are controlled"""

    def __init__(self, sch):
        self.sch = sch

    def __enter__(self):
        CUR[0] = self.sch
        orig = cf.ThreadPoolExecutor
        import concurrent.futures.thread as cft
        self.undo = []
        self._dask()
        for m in [cf, cft] + [m for n, m in list(sys.modules.items()) if n.startswith("foxes") and m is not None]:
            for a, v in list(vars(m).items()):
                if v is orig:
                    self.undo.append((m, a, v))
                    setattr(m, a, Pool)
                elif v is _WAIT or v is _ASC:
                    self.undo.append((m, a, v))
                    setattr(m, a, _wait if v is _WAIT else _asc)
        return self.sch

    def _dask(self):
        """dask's threaded scheduler: its thread pool and the point where the main thread waits; names of tasks repeat"""
        try:
            import dask.threaded as dt, dask.local as dl
        except ImportError:
            return
        def put(m, a, v):
            self.undo.append((m, a, getattr(m, a)))
            setattr(m, a, v)
        count = itertools.count(1)
        get0, pool0, main = dl.queue_get, dt.ContextAwareThreadPoolExecutor, threading.current_thread()
        def queue_get(q):
            if CUR[0] is not None and threading.current_thread() is main:
                CUR[0].finish()
            return get0(q)
        def pool(*a, **kw):
            # the jobs themselves may use dask as well
            return (Pool if threading.current_thread() is main else pool0)(*a, **kw)
        put(dl, "queue_get", queue_get)
        put(dt, "ContextAwareThreadPoolExecutor", pool)
        put(dt, "default_pool", None)
        put(dt, "pools", defaultdict(dict))
        put(uuid, "uuid4", lambda: uuid.UUID(int=next(count)))
        put(uuid, "uuid1", lambda *a: uuid.UUID(int=next(count)))

    def __exit__(self, *e):
        for m, a, v in reversed(self.undo):
            setattr(m, a, v)
        CUR[0] = None


_WAIT, _ASC = cf.wait, cf.as_completed


def _wait(*a, **k):
    if CUR[0] is not None:
        CUR[0].finish()
    return _WAIT(*a, **k)


def _asc(*a, **k):
    if CUR[0] is not None:
        CUR[0].finish()
    return _ASC(*a, **k)
