"""Cooperative scheduler: real threads of which exactly one runs at a time.

Every task is a thread that stops at each executed source line of optbinning
where the schedule asks for a switch (``sys.settrace`` line events), when it
blocks on a simulated lock or job, and when it ends.  The schedule is plain
data: a list of switches, either ``{"at": global line count, "to": task}`` or
``{"site": source line, "occ": how often it ran, "to": task}``; between
switches the current task keeps running, so replaying the list replays the
interleaving exactly and minimising means deleting switches.  A dry run of the
same work (``Profile``) turns the fractions of a plan into such switches; half
of them pick a source line uniformly, so that lines outside hot loops are
switch points as often as lines inside.
"""

import contextlib
import random
import sys
import threading

from .core import PKG, HarnessError

_REAL_LOCK = threading.Lock
_REAL_RLOCK = threading.RLock
_Sem = threading.Semaphore
_LOCAL = threading.local()


def current_task():
    return getattr(_LOCAL, "task", None)


class Profile:
    """Counts the source lines a piece of work executes."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.hits = {}
        self.total = 0

    def __call__(self, task, frame):
        self.total += 1
        k = (frame.f_code.co_filename[len(PKG):], frame.f_lineno)
        self.hits[k] = self.hits.get(k, 0) + 1

    def run(self, fn):
        """Run fn as a single traced task; returns the finished task."""
        s = Sched(self.ctx, trace_fn=self)
        t = s.spawn(fn)
        s.run()
        return t

    def place(self, ops, scale=1.0):
        out = []
        sites = sorted(self.hits)
        for o in ops:
            if "frac" not in o:
                continue
            if o.get("lock") and sites:
                fs = sorted({f for f, _ in sites})
                out.append({"file": fs[int(o["frac"] * len(fs)) % len(fs)],
                            "budget": o["lock"]})
            elif o.get("rare") is not None and sites:
                k = sites[int(o["frac"] * len(sites)) % len(sites)]
                occ = 1 + int(o["rare"] * self.hits[k] * scale)
                out.append({"site": k, "occ": occ, "to": o["to"]})
            else:
                out.append({"at": 1 + int(o["frac"] * self.total * scale),
                            "to": o["to"]})
        return out


def gen_switches(r, n_tasks=4, ks=(1, 2, 3, 5, 8, 15, 40)):
    """Preemptions anywhere, at chosen source lines, or (lock step) at every
    line of a chosen source file."""
    if r.random() < .3:
        return [{"frac": round(r.random(), 6), "to": r.randrange(n_tasks),
                 "lock": r.choice([60, 400, 1500])}
                for _ in range(r.choice([1, 1, 2]))]
    return [{"frac": round(r.random(), 6), "to": r.randrange(n_tasks),
             "rare": round(r.random(), 4) if r.random() < .5 else None}
            for _ in range(r.choice(ks))]


class Task:
    def __init__(self, sched, tid, fn, label):
        self.sched, self.id, self.fn, self.label = sched, tid, fn, label
        self.sem = _Sem(0)
        self.done = False
        self.started = False
        self.result = self.error = None
        self.pred = None             # blocked until this holds
        self.steps = 0
        self.thread = None

    def _main(self):
        self.sem.acquire()
        _LOCAL.task = self
        sys.settrace(self.sched._global_trace)
        try:
            self.result = self.fn()
        except BaseException as e:
            self.error = e
        finally:
            sys.settrace(None)
            self.done = True
            self.sched._back.release()

    def get(self):
        self.sched.wait(lambda: self.done)
        if self.error is not None:
            raise self.error
        return self.result


class Sched:
    def __init__(self, ctx, switches=(), seed=0, trace_fn=None):
        self.ctx = ctx
        self.switches = sorted(((s["at"], s["to"]) for s in switches
                                if "at" in s), key=lambda a: a[0])
        self.sited = {}
        for s in switches:
            if "site" in s:
                self.sited.setdefault(tuple(s["site"]), []).append(
                    (s["occ"], s["to"]))
        self.hits = {k: 0 for k in self.sited}
        self.lock = {s["file"]: s["budget"] for s in switches if "file" in s}
        self.pos = 0
        self.step = 0
        self.tasks = []
        self.rng = random.Random(seed)
        self._back = _Sem(0)
        self.running = None
        self.n_switch = 0
        self.sites = set()
        self.trace_fn = trace_fn

    # ------------------------------------------------------------- tracing
    def _global_trace(self, frame, event, arg):
        co = frame.f_code
        if event == "call" and co.co_filename.startswith(PKG) \
                and co.co_name != "<module>":
            return self._line
        return None

    def _line(self, frame, event, arg):
        if event == "line":
            t = _LOCAL.task
            self.step += 1
            t.steps += 1
            if self.trace_fn is not None:
                self.trace_fn(t, frame)
            to = None
            if self.pos < len(self.switches) and \
                    self.step >= self.switches[self.pos][0]:
                to = self.switches[self.pos][1]
                self.pos += 1
            if self.sited:
                k = (frame.f_code.co_filename[len(PKG):], frame.f_lineno)
                if k in self.hits:
                    self.hits[k] += 1
                    for occ, dest in self.sited[k]:
                        if occ == self.hits[k]:
                            to = dest
            if self.lock:
                f = frame.f_code.co_filename[len(PKG):]
                if self.lock.get(f, 0) > 0:
                    self.lock[f] -= 1
                    to = sum(a.id < t.id for a in self._runnable())
            if to is not None:
                site = "%s:%d" % (frame.f_code.co_filename[len(PKG):],
                                  frame.f_lineno)
                self._switch(t, to, site)
        return self._line

    # ---------------------------------------------------------- scheduling
    def spawn(self, fn, label=""):
        t = Task(self, len(self.tasks), fn, label)
        t.thread = threading.Thread(target=t._main, daemon=True)
        self.tasks.append(t)
        t.thread.start()
        return t

    def _runnable(self):
        return [t for t in self.tasks if not t.done and
                (t.pred is None or t.pred())]

    def _switch(self, t, to, site):
        run = self._runnable()
        others = [a for a in run if a is not t]
        if not others:
            return
        nxt = others[to % len(others)]
        self.n_switch += 1
        self.sites.add(site)
        self.ctx.event("switch", self.step, t.id, nxt.id, site)
        self.ctx.fault("preemption")
        self._pass(t, nxt)

    def _pass(self, t, nxt):
        """From task t (or the controller when None) to task nxt; returns
        when t is scheduled again."""
        self._next = nxt
        if t is not None:
            self._back.release()
            t.sem.acquire()

    def wait(self, pred):
        """Block the caller until pred() holds, running other tasks."""
        t = current_task()
        if t is not None:
            while not pred():
                t.pred = pred
                self._next = None
                self._back.release()
                t.sem.acquire()
                t.pred = None
            return
        nxt = self.running
        while not pred():
            run = self._runnable()
            if not run:
                raise HarnessError("deadlock: no runnable task")
            if nxt is None or nxt.done or nxt not in run:
                nxt = run[self.rng.randrange(len(run))]
                self.ctx.event("run", nxt.id)
            self.running = nxt
            self._next = None
            nxt.started = True
            nxt.sem.release()
            if not self._back.acquire(timeout=120):
                raise HarnessError("task %d blocks outside the simulator"
                                   % nxt.id)
            if nxt.done and getattr(nxt, "on_done", None):
                cb, nxt.on_done = nxt.on_done, None
                cb(nxt)
            nxt = self._next if self._next is not None else (
                None if nxt.done or nxt.pred is not None else nxt)
            self.running = nxt

    def run(self):
        self.wait(lambda: all(t.done for t in self.tasks))
        self.ctx.steps += self.step
        for s in self.sites:
            self.ctx.state(s)


# -------------------------------------------------------------------- locks --

class SimLock:
    """Lock created by the code under test."""

    def __init__(self, reentrant):
        self.re = reentrant
        self.owner = None
        self.depth = 0

    def _me(self):
        return current_task() or threading.get_ident()

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        if self.owner == me and self.re:
            self.depth += 1
            return True
        if self.owner is not None:
            if not blocking:
                return False
            t = current_task()
            if t is None:
                raise HarnessError("controller blocks on a simulated lock")
            t.sched.wait(lambda: self.owner is None)
        self.owner, self.depth = me, 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.depth -= 1
        if self.depth <= 0:
            self.owner = None

    def locked(self):
        return self.owner is not None

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def __reduce__(self):
        raise TypeError("cannot pickle '_thread.lock' object")


def _factory(real, reentrant):
    def make(*a, **k):
        f = sys._getframe(1)
        if f.f_code.co_filename.startswith(PKG):
            return SimLock(reentrant)
        return real(*a, **k)
    return make


def patch_locks():
    """Before the code under test is imported."""
    threading.Lock = _factory(_REAL_LOCK, False)
    threading.RLock = _factory(_REAL_RLOCK, True)


# ------------------------------------------------------------------- joblib --

def sim_backend(sched, n_cpus=4, isolate=False, log=None):
    """A joblib backend whose workers are tasks of the scheduler.

    isolate: arguments and results are pickled, as a process pool does.
    """
    import pickle
    from joblib._parallel_backends import ParallelBackendBase

    class SimBackend(ParallelBackendBase):
        uses_threads = not isolate
        supports_sharedmem = not isolate

        def effective_n_jobs(self, n_jobs):
            if n_jobs is None:
                return 1
            if n_jobs < 0:
                return max(1, n_cpus + 1 + n_jobs)
            return n_jobs

        def configure(self, n_jobs=1, parallel=None, **kw):
            self.parallel = parallel
            return self.effective_n_jobs(n_jobs)

        def submit(self, func, callback=None):
            if isolate:
                blob = pickle.dumps(func)

                def body():
                    return pickle.loads(pickle.dumps(pickle.loads(blob)()))
            else:
                body = func
            t = sched.spawn(body, "job")
            t.on_done = callback
            if log is not None:
                log.append(t)
            return t

        apply_async = submit

        def retrieve_result(self, out, timeout=None):
            return out.get()

        def abort_everything(self, ensure_ready=True):
            sched.wait(lambda: all(t.done for t in sched.tasks
                                   if t.label == "job"))

    return SimBackend


@contextlib.contextmanager
def joblib_on(sched, n_jobs=None, **k):
    import joblib
    from joblib import parallel
    joblib.register_parallel_backend("sim", sim_backend(sched, **k))
    try:
        kw = {} if n_jobs is None else {"n_jobs": n_jobs}
        with joblib.parallel_config(backend="sim", **kw):
            yield
    finally:
        parallel.BACKENDS.pop("sim", None)
