"""A clock which only the evaluations of a target advance, in place of the time of day, while NOW[0] is a number."""
import time
import numpy as np
import drv

# the clocks are replaced before the repository is imported, so that every way of asking the time is covered
REAL = {n: getattr(time, n) for n in ("time", "perf_counter", "monotonic", "process_time")}
NOW = [None]


def _ask(name):
    def f():
        if NOW[0] is None:
            return REAL[name]()
        NOW[0] += 2. ** -20                  # asking takes a moment, so that no loop can wait for ever
        return NOW[0]

    def f_ns():
        return int(f() * 1e9)
    return f, f_ns


for _n in REAL:
    _f, _g = _ask(_n)
    setattr(time, _n, _f)
    setattr(time, _n + "_ns", _g)


class Slow(drv.Target):
    """Every evaluated point takes `cost`; each batch is noted with the moment at which it was asked for."""
    cost, ev = 1., None

    def log_prob(self, x):
        a = self._take(x)
        if self.ev is not None:
            self.ev.append((NOW[0], len(a)))
        v = super().log_prob(x)
        if NOW[0] is not None:
            NOW[0] += self.cost * len(a)
        return v


def request(m, tg, n, budget):
    """A request under the controlled clock.  Returns samples, weights and whether the time was over."""
    NOW[0] = 1000.
    try:
        S, W = m.importance_sample(tg, n, budget)
        return S, W, bool(NOW[0] >= 1000. + budget)
    finally:
        NOW[0] = None


class Haste:
    """Decides which requests of a history get little time; without a seed none do."""
    def __init__(self, seed, least=1, most=60, share=.6):
        self.r = np.random.RandomState(seed) if seed else None
        self.least, self.most, self.share = least, most, share

    def request(self, m, tg, n, ample=1e9):
        short = self.r is not None and self.r.rand() < self.share
        return request(m, tg, n, self.r.randint(self.least, self.most) + .5 if short else ample)
