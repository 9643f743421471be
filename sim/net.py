"""Discrete-event world: virtual time, a lossy network, crashing nodes.

Everything that happens is an event on one heap ordered by (virtual time,
sequence number); delays, losses, duplications, partitions and crashes are
drawn from one seeded generator or scripted by the plan, so a plan is one
repeatable execution.
"""

import heapq
import random


class World:
    def __init__(self, ctx, seed, net=None):
        self.ctx = ctx
        self.rng = random.Random(seed)
        self.now = 0.0
        self.seq = 0
        self.heap = []
        self.nodes = {}
        self.cut = {}           # frozenset({a, b}) -> heal time
        net = net or {}
        self.p_drop = net.get("drop", 0.0)
        self.p_dup = net.get("dup", 0.0)
        self.delay = net.get("delay", [0.5, 5.0])
        self.faults_until = net.get("until", 1e18)

    # -- scheduling ----------------------------------------------------------
    def at(self, dt, fn, *args):
        self.seq += 1
        heapq.heappush(self.heap, (self.now + max(dt, 0.0), self.seq, fn,
                                   args))

    def add(self, node):
        self.nodes[node.name] = node
        node.world = self

    def faulty(self):
        return self.now < self.faults_until

    def send(self, src, dst, msg, size=0):
        ctx = self.ctx
        key = frozenset((src, dst))
        if self.cut.get(key, -1) > self.now:
            ctx.fault("partition-drop")
            ctx.event("cut", src, dst, msg[0])
            return
        if self.faulty() and self.rng.random() < self.p_drop:
            ctx.fault("message-lost")
            ctx.event("lost", src, dst, msg[0])
            return
        n = 1
        if self.faulty() and self.rng.random() < self.p_dup:
            ctx.fault("message-duplicated")
            n = 2
        for _ in range(n):
            lo, hi = self.delay
            d = self.rng.uniform(lo, hi)
            if self.faulty() and self.rng.random() < 0.1:
                d *= 8
                ctx.fault("message-delayed")
            self.at(d, self._deliver, src, dst, msg)

    def _deliver(self, src, dst, msg):
        node = self.nodes[dst]
        if not node.up:
            self.ctx.event("dead-letter", src, dst, msg[0])
            return
        self.ctx.event("recv", round(self.now, 6), src, dst, msg[0],
                       msg[1] if len(msg) > 1 else None)
        node.receive(src, msg)

    def partition(self, a, b, dur):
        self.ctx.fault("partition")
        self.ctx.event("partition", a, b, dur)
        self.cut[frozenset((a, b))] = self.now + dur

    def crash(self, name, downtime):
        node = self.nodes[name]
        if not node.up:
            return
        self.ctx.fault("crash-restart")
        self.ctx.event("crash", round(self.now, 6), name)
        node.up = False
        node.epoch += 1
        node.crashed()
        self.at(downtime, self._restart, name)

    def _restart(self, name):
        node = self.nodes[name]
        if node.up:
            return
        node.up = True
        self.ctx.event("restart", round(self.now, 6), name)
        node.restart()

    # -- running -------------------------------------------------------------
    def run(self, done, max_events=20000):
        n = 0
        while self.heap and not done():
            t, _, fn, args = heapq.heappop(self.heap)
            self.ctx.tick(t - self.now)
            self.now = t
            fn(*args)
            n += 1
            self.ctx.steps += 1
            if n >= max_events:
                return False
        return done()


class Node:
    """A process: ``self.up`` state is volatile, ``self.disk`` survives."""

    def __init__(self, name):
        self.name = name
        self.up = True
        self.epoch = 0
        self.disk = {}
        self.world = None

    def timer(self, dt, fn, *args):
        epoch = self.epoch

        def fire():
            if self.up and self.epoch == epoch:
                fn(*args)
        self.world.at(dt, fire)

    def receive(self, src, msg):
        raise NotImplementedError

    def crashed(self):
        pass

    def restart(self):
        pass
