"""Virtual clock behind the ``time`` module."""

import contextlib
import time


class Clock:
    def __init__(self, start=1.7e9, ctx=None):
        self.mono = 1000.0
        self.wall = start
        self.ctx = ctx
        self.step = 1e-4

    def advance(self, dt):
        self.mono += dt
        self.wall += dt
        if self.ctx is not None:
            self.ctx.tick(dt)

    def jump(self, dt):
        """Wall clock steps (NTP, operator); the monotonic clock does not."""
        self.wall += dt
        if self.ctx is not None:
            self.ctx.fault("clock-jump")

    @contextlib.contextmanager
    def installed(self):
        names = {}

        def mono():
            self.mono += self.step
            self.wall += self.step
            return self.mono

        def wall():
            self.mono += self.step
            self.wall += self.step
            return self.wall

        rep = {"perf_counter": mono, "monotonic": mono, "time": wall,
               "process_time": mono,
               "perf_counter_ns": lambda: int(mono() * 1e9),
               "monotonic_ns": lambda: int(mono() * 1e9),
               "time_ns": lambda: int(wall() * 1e9)}
        for k, v in rep.items():
            names[k] = getattr(time, k)
            setattr(time, k, v)
        try:
            yield self
        finally:
            for k, v in names.items():
                setattr(time, k, v)
