"""Failures injected at a source line of the code under test.

``Strike`` is a trace function for a scheduler task: it raises the chosen
failure when the task reaches one line (the k-th executed line, or the j-th
execution of one source line).  ``aim`` turns the fractions of a plan into
such a target using a dry run of the same call, so that plans stay valid when
the code changes.
"""

import numpy as np

from .core import (INJECTED, PKG, InjectedCancel, InjectedError,
                   InjectedMemoryError, InjectedOSError)
from .sched import Profile, Sched

KINDS = {"error": lambda: InjectedError("injected failure"),
         "memory": lambda: InjectedMemoryError("injected allocation failure"),
         "cancel": lambda: InjectedCancel("injected cancellation")}


def gen_strike(r):
    return {"kind": r.choice(["error", "memory", "memory", "cancel"]),
            "frac": round(r.random(), 6),
            "rare": round(r.random(), 4) if r.random() < .7 else None}


class Strike:
    def __init__(self, ctx, prof, st):
        self.ctx, self.st = ctx, st
        self.fired = None
        self.count = 0
        self.site = None
        if st is None:
            return
        sites = sorted(prof.hits)
        if st.get("rare") is not None and sites:
            self.site = sites[int(st["frac"] * len(sites)) % len(sites)]
            self.at = 1 + int(st["rare"] * prof.hits[self.site])
        else:
            self.at = 1 + int(st["frac"] * prof.total)

    def __call__(self, task, frame):
        if self.st is None or self.fired is not None:
            return
        k = (frame.f_code.co_filename[len(PKG):], frame.f_lineno)
        if self.site is None or k == self.site:
            self.count += 1
            if self.count == self.at:
                self.fired = "%s:%d" % k
                self.ctx.fault("raise-" + self.st["kind"])
                self.ctx.state(self.fired)
                self.ctx.event("strike", self.st["kind"], self.fired)
                raise KINDS[self.st["kind"]]()


def profile(ctx, fn):
    """Dry run: -> (finished task, profile)."""
    p = Profile(ctx)
    return p.run(fn), p


def struck(ctx, fn, prof, st):
    """Run fn as one traced task with the failure; -> (task, strike)."""
    s = Strike(ctx, prof, st)
    sc = Sched(ctx, trace_fn=s)
    t = sc.spawn(fn)
    sc.run()
    return t, s
