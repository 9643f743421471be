"""Solver seam: the OR-Tools back ends under a simulated time budget.

CP-SAT runs single-threaded with a seed the simulator chooses.  The simulated
search emits incumbents at simulated instants; when the budget the code asked
for (``max_time_in_seconds``) is spent the search is stopped after the last
incumbent found so far, exactly what a real deadline does, or before the first
one (status UNKNOWN).  The budget the code set is recorded so a check can
tell whether the caller's limit reached the solver.
"""

import contextlib
import random

from ortools.linear_solver import linear_solver_pb2
from ortools.linear_solver import pywraplp
from ortools.sat.python import cp_model

NAMES = {0: "UNKNOWN", 1: "MODEL_INVALID", 2: "FEASIBLE", 3: "INFEASIBLE",
         4: "OPTIMAL"}


def pin_osqp():
    """OSQP adapts its step after a number of iterations it derives from the
    time its set-up took: a clock inside the engine, which no seam of Python
    reaches.  The number is fixed instead."""
    try:
        import osqp
    except ImportError:
        return
    orig = osqp.OSQP.setup
    if getattr(orig, "pinned", False):
        return

    def setup(self, *a, **kw):
        kw.setdefault("adaptive_rho_interval", 25)
        return orig(self, *a, **kw)
    setup.pinned = True
    osqp.OSQP.setup = setup


pin_osqp()


class _Stop(cp_model.CpSolverSolutionCallback):
    def __init__(self, k):
        super().__init__()
        self.k = k
        self.seen = 0

    def on_solution_callback(self):
        self.seen += 1
        if self.seen >= self.k:
            self.StopSearch()


class SolverSim:
    """Deterministic solver world.

    mode: "full"    the search runs to its end
          "stop"    the simulated deadline strikes after ``k`` incumbents
          "nosol"   the deadline strikes before any incumbent
          "draw"    each incumbent costs a random simulated time, deadline is
                    the limit the code passed
    """

    def __init__(self, ctx=None, mode="full", k=1, seed=0, clock=None,
                 mip_mode="full", on_solve=None, noise=0.0, models=False):
        self.ctx, self.mode, self.k = ctx, mode, k
        self.seed = seed
        self.rng = random.Random(seed)
        self.calls = []
        self.clock = clock
        self.mip_mode = mip_mode
        self.on_solve = on_solve
        self.noise = noise
        self.models = models

    # CP-SAT ---------------------------------------------------------------
    def _cp(self, solver, model, cb):
        p = solver.parameters
        limit = p.max_time_in_seconds
        call = {"solver": "cp", "limit": limit}
        p.num_workers = 1
        p.random_seed = self.seed % (1 << 30)
        p.log_search_progress = False
        mode, k = self.mode, self.k
        if mode == "draw":
            # incumbent i is found after a random amount of simulated time
            t = 0.0
            k = 0
            while True:
                t += self.rng.expovariate(1.0 / 8.0)
                if t > limit or k > 40:
                    break
                k += 1
            if t <= limit:
                mode = "full"
            else:
                mode = "stop" if k else "nosol"
        if mode == "nosol":
            p.max_time_in_seconds = 0.0
            p.cp_model_presolve = False
            st = self._orig_cp(solver, model, cb)
            p.max_time_in_seconds = limit
            if self.ctx and st == cp_model.UNKNOWN:
                self.ctx.fault("solver-deadline-no-incumbent")
        elif mode == "stop":
            # generous real limits: the simulated deadline is the callback
            p.max_time_in_seconds = 1e6
            p.max_deterministic_time = 60.0
            stop = _Stop(k)
            st = self._orig_cp(solver, model, stop)
            p.max_time_in_seconds = limit
            if self.ctx and st == cp_model.FEASIBLE:
                self.ctx.fault("solver-deadline-with-incumbent")
        else:
            p.max_time_in_seconds = 1e6
            p.max_deterministic_time = 60.0
            st = self._orig_cp(solver, model, cb)
            p.max_time_in_seconds = limit
        call["status"] = NAMES.get(int(st), str(st))
        call["mode"] = mode
        try:
            call["objective"] = solver.ObjectiveValue() if int(st) in (2, 4) \
                else None
        except Exception:
            call["objective"] = None
        self.calls.append(call)
        if self.clock is not None:
            self.clock.advance(self.rng.uniform(0, min(limit, 100.0)))
        if self.on_solve:
            self.on_solve(call)
        return st

    # MPSolver -------------------------------------------------------------
    def _mip(self, solver, *a):
        call = {"solver": "mip", "limit": self._limits.pop(id(solver), None)}
        if self.mip_mode == "nosol":
            st = pywraplp.Solver.NOT_SOLVED
            if self.ctx:
                self.ctx.fault("mip-deadline-no-incumbent")
        elif self.mip_mode == "incumbent":
            # stopped at some solution: the optimum of another objective
            ob = solver.Objective()
            ob.Clear()
            for v in solver.variables():
                if v.integer():
                    ob.SetCoefficient(v, self.rng.uniform(-1, 1))
            ob.SetMinimization()
            st = self._orig_mip(solver, *a)
            if st == pywraplp.Solver.OPTIMAL:
                st = pywraplp.Solver.FEASIBLE
                if self.ctx:
                    self.ctx.fault("mip-deadline-with-incumbent")
        else:
            st = self._orig_mip(solver, *a)
            if self.mip_mode == "feasible" and st == pywraplp.Solver.OPTIMAL:
                st = pywraplp.Solver.FEASIBLE
                if self.ctx:
                    self.ctx.fault("mip-deadline-unproven")
        call["status"] = int(st)
        if self.models:
            m = linear_solver_pb2.MPModelProto()
            solver.ExportModelToProto(m)
            call["model"] = m
            if st in (pywraplp.Solver.OPTIMAL, pywraplp.Solver.FEASIBLE):
                call["objective"] = solver.Objective().Value()
        self.calls.append(call)
        if call["limit"] is not None and self.clock is not None:
            self.clock.advance(self.rng.uniform(0, call["limit"] / 1e3))
        if self.on_solve:
            self.on_solve(call)
        return st

    def mistaken(self):
        """The engine itself was wrong about a model it was given: another
        engine disagrees on the optimum."""
        for call in self.calls:
            if "model" not in call:
                continue
            other = pywraplp.Solver.CreateSolver("SCIP")
            other.LoadModelFromProto(call["model"])
            st = self._orig_mip(other)
            if st != pywraplp.Solver.OPTIMAL:
                if "objective" in call:
                    return True
            elif call["status"] == pywraplp.Solver.INFEASIBLE:
                return True
            elif "objective" in call:
                a, b = call["objective"], other.Objective().Value()
                if abs(a - b) > 1e-4 * max(1, abs(b)):
                    return True
        return False

    @contextlib.contextmanager
    def installed(self):
        C = cp_model.CpSolver
        P = pywraplp.Solver
        self._orig_cp = C.solve
        self._orig_mip = P.Solve
        self._limits = {}
        orig_stl, orig_stl2 = P.SetTimeLimit, P.set_time_limit
        me = self

        def solve(solver, model, solution_callback=None):
            return me._cp(solver, model, solution_callback)

        def mip_solve(solver, *a):
            return me._mip(solver, *a)

        def set_limit(solver, ms):
            me._limits[id(solver)] = ms
            return orig_stl(solver, max(int(ms), 10 ** 7))

        V = pywraplp.Variable
        orig_v = V.solution_value, V.SolutionValue

        def value(var):
            # a MIP solver's integer values are integral within a tolerance
            v = orig_v[0](var)
            if me.noise:
                v += me.rng.uniform(-me.noise, me.noise)
            return v

        V.solution_value = V.SolutionValue = value
        C.solve = solve
        P.Solve = mip_solve
        P.SetTimeLimit = set_limit
        P.set_time_limit = set_limit
        try:
            yield self
        finally:
            V.solution_value, V.SolutionValue = orig_v
            C.solve = self._orig_cp
            P.Solve = self._orig_mip
            P.SetTimeLimit = orig_stl
            P.set_time_limit = orig_stl2
