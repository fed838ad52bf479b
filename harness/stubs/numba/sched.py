"""The schedule explorer for parallel loops (see numba/__init__.py).

Iterations are dealt in contiguous chunks to SCHED.threads threads.  As in numba, every thread owns a random
generator: the calling thread's (thread 0), which ``numpy.random.seed`` in jitted code seeds, and one per
worker, started from entropy.
"""
import random

import numpy as _np

from .record import record


class _Sched:
    policy = "off"       # off | seq | rev | perm | weave | plan | record
    plan = []            # under policy plan: segments (thread, statements), repeated
    recorded = []        # one log per loop run under policy record
    threads = 3
    rnd = random.Random(0)
    loops = 0            # parallel loops executed with more than one iteration
    switches = 0         # context switches taken inside iterations
    transformed = set()
    skipped = set()
    workers = {}

    def set(self, policy, seed=0, threads=3):
        self.policy, self.threads, self.rnd = policy, threads, random.Random(seed)
        self.workers = {}


SCHED = _Sched()


def _worker_state(k):
    if k not in SCHED.workers:
        SCHED.workers[k] = _np.random.RandomState(SCHED.rnd.randrange(2 ** 31)).get_state()
    return SCHED.workers[k]


def run_parallel(body, *rng):
    its = list(range(*[int(x) for x in rng]))
    if not its:
        return
    if len(its) > 1:
        SCHED.loops += 1
    pol = SCHED.policy
    if pol == "record":
        log = []
        SCHED.recorded.append(log)
        record(body, its, log)
        return
    rnd = SCHED.rnd
    t = max(1, min(SCHED.threads, len(its)))
    chunks = [its[k * len(its) // t:(k + 1) * len(its) // t] for k in range(t)]
    owner = 0

    def become(k):
        nonlocal owner
        if k == owner:
            return
        SCHED.workers[owner] = _np.random.get_state()
        _np.random.set_state(_worker_state(k))
        owner = k

    SCHED.workers.pop(0, None)
    try:
        if pol not in ("weave", "plan"):
            order = [(k, i) for k, c in enumerate(chunks) for i in c]
            if pol == "rev":
                order.reverse()
            elif pol == "perm":
                rnd.shuffle(order)
            for k, i in order:
                become(k)
                for _ in body(i):
                    pass
            return
        # weave: the threads are interleaved at statement level
        ids = [k for k, c in enumerate(chunks) if c]
        live = [iter(chunks[k]) for k in ids]
        cur = [None] * len(live)
        last = -1
        step = 0

        def planned():
            """The next segment of the plan whose thread is still running: (its place, statements)."""
            nonlocal step
            for _ in range(len(SCHED.plan)):
                thread, burst = SCHED.plan[step % len(SCHED.plan)]
                step += 1
                if thread - 1 in ids:
                    return ids.index(thread - 1), burst
            return 0, 10 ** 9
        while live:
            if pol == "plan":
                k, burst = planned()
            else:
                k, burst = rnd.randrange(len(live)), rnd.choice((1, 1, 2, 3, 7))
            become(ids[k])
            for _ in range(burst):
                if cur[k] is None:
                    try:
                        cur[k] = body(next(live[k]))
                    except StopIteration:
                        del live[k], cur[k], ids[k]
                        last = -1
                        break
                if k != last:
                    SCHED.switches += 1
                    last = k
                try:
                    next(cur[k])
                except StopIteration:
                    cur[k] = None
    finally:
        become(0)
