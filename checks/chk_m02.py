"""M02: time and memory metrics under a controlled clock and heap."""
import importlib
import numpy as np
from core import num


class Clock:
    """A clock that stands still except when read (each reading costs something), slept on or moved."""
    def __init__(self, now, cost, oversleep):
        self.now, self.cost, self.oversleep = now, cost, oversleep

    def read(self):
        v = self.now
        self.now += self.cost
        return v

    def sleep(self, d):
        self.now += d + self.oversleep


class Heap:
    def __init__(self, size):
        self.size = size

    def __call__(self, *a, **kw):
        return self

    def heap(self):
        return self


def patched(clock, heap):
    """The performance module, loaded on top of the controlled clock and heap."""
    import gc, time, timeit, guppy
    saved = [(m, n, getattr(m, n)) for m, n in ((time, "perf_counter"), (time, "time"), (time, "monotonic"), (time, "sleep"), (time, "process_time"),
                                                (time, "perf_counter_ns"), (time, "time_ns"), (time, "monotonic_ns"), (timeit, "default_timer"), (guppy, "hpy"), (gc, "collect"))]
    for m, n, _ in saved:
        setattr(m, n, clock.sleep if n == "sleep" else heap if n == "hpy" else (lambda *a: 0) if n == "collect"
                else (lambda: int(round(clock.read() * 1e9))) if n.endswith("_ns") else clock.read)
    mod = importlib.reload(importlib.import_module("ais_benchmarks.metrics.performance"))
    return mod, lambda: [setattr(m, n, v) for m, n, v in saved]


def one(t, which, lives, salt):
    r = np.random.RandomState(salt)
    clock = Clock(r.uniform(50, 5000), (0., 1e-4, .003)[r.randint(3)], (0., 2e-4)[r.randint(2)])
    heap = Heap(int(r.randint(10 ** 7, 10 ** 9)))
    mod, undo = patched(clock, heap)
    try:
        m = mod.CElapsedTime() if which == "time" else mod.CMemoryUsage()
        t.cfg = {"cost": num(clock.cost + clock.oversleep) if which == "time" else "0", "unit": "1" if which == "time" else "1e6"}

        def at():
            return num(clock.now if which == "time" else heap.size)

        def out(op, a):
            t.add(op, at=a, v=num(m.compute()), value=num(m.value))
        out("New", at())
        for ops in lives:
            for op in ops:
                a = at()
                if op == "Move":
                    clock.now += r.choice([0., 1e-3, .7, 400.])
                    heap.size += int(r.choice([0, 17, 10 ** 6, 3 * 10 ** 8, -10 ** 6, -5 * 10 ** 5]))
                    continue
                if op == "Start":
                    m.pre(n=3)
                elif op == "Stop":
                    m.post(n=3)
                elif op == "Reset":
                    m.reset()
                elif op == "Read":
                    m.compute(p=None, q=None, nsamples=5)
                out(op, a)
    finally:
        undo()


def run(chk):
    behs = chk.behaviours("MC_Meter", "MC_MeterDeep" if chk.thorough else "MC_Meter")
    r = np.random.RandomState(chk.seed)
    chk.notes["histories_enumerated"] = len(behs)
    jobs = []
    order = r.permutation(len(behs))
    per = 4          # several histories in a row on one object: a history need not begin on a fresh one
    take = len(behs) if chk.thorough else 1600
    for which in ("time", "memory"):
        for i in range(0, min(take, len(behs)), per):
            jobs.append(("%s/%d" % (which, i), one, (which, [behs[j] for j in order[i:i + per]], int(r.randint(1 << 30)))))
    chk.validate("TraceMeter", chk.drive(jobs))
