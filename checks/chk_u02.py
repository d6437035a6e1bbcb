"""U02: grids, durations and generated mixtures."""
import numpy as np
from core import num, nums, rows


class Tagged:
    """A density whose value names the point."""
    def __init__(self, r, D):
        self.v = r.randn(D)

    def log_prob(self, x):
        return np.asarray(x) @ self.v

    def prob(self, x):
        return np.exp(self.log_prob(x) * .1)


def box(r, D):
    lo = r.uniform(-9, 5, D)
    if r.rand() < .3:
        lo = np.round(lo)
    if r.rand() < .15:
        lo = lo + 1000.
    return lo, lo + (r.uniform(.1, 12, D) if r.rand() < .5 else r.randint(1, 12, D).astype(float))


def grids(t, counts, salt):
    import ais_benchmarks.sampling_methods.base as base
    import ais_benchmarks.utils.plot_utils as pu
    r = np.random.RandomState(salt)
    for mod in (base, pu):
        for D in ([len(counts)] if r.rand() < .7 else [1, 2, 3]):
            lo, hi = box(r, D)
            if D == len(counts) and r.rand() < .7:
                frac = r.uniform(.02, .98, D) if r.rand() < .6 else np.zeros(D)
                res = (hi - lo) / (np.array(counts) + frac)
                if r.rand() < .2:
                    res = (hi - lo) * r.uniform(1.01, 5, D)        # coarser than the box
            elif r.rand() < .5:
                res = float(np.max(hi - lo) / r.uniform(.5, 6))
            else:
                res = float((.1, .5, .25, 1.)[r.randint(4)])
                hi = lo + res * r.randint(1, 9 if D < 3 else 6, D)
            d = Tagged(r, D)
            g, dims, shape = mod.make_grid(lo.copy(), hi.copy(), res)
            g2, val, dims2, shape2 = mod.grid_sample_distribution(d, lo.copy(), hi.copy(), res)
            want = (d.log_prob(g) if mod is base else d.prob(g).flatten())
            same = np.array_equal(g, g2) and len(dims) == len(dims2) and all(np.array_equal(a, b) for a, b in zip(dims, dims2)) and np.array_equal(shape, shape2)
            t.add("Grid", lo=nums(lo), hi=nums(hi), res=nums(np.broadcast_to(res, (D,))), rows=rows(g), dims=[nums(x) for x in dims], shape=[int(x) for x in shape],
                  vals=nums(val) if same else ["other grid"], want=nums(want))
            if mod is base:
                n = int(r.randint(1, 30))
                S, v = base.uniform_sample_distribution(d, lo.copy(), hi.copy(), n)
                t.add("Scatter", n=n, lo=nums(lo), hi=nums(hi), rows=rows(S), vals=nums(v), want=nums(d.log_prob(S)))


def times(t, salt):
    from ais_benchmarks.utils.misc import time_to_hms
    r = np.random.RandomState(salt)
    xs = [0, 59, 60, 61, 3599, 3600, 3601, 3660, 7199.5, 86399, 86400, 1e6 + .25]
    xs += [int(x) for x in r.randint(0, 200000, 12)] + [float(x) for x in r.uniform(0, 20000, 12)] + [float(x) for x in r.uniform(0, 130, 6)]
    xs += [float(60 * a + b) for a, b in zip(r.randint(0, 200, 6), (1e-9, -1e-9, .5, 0, 59.999999, 1e-3)) if 60 * a + b >= 0]
    for x in xs:
        h, m, s = time_to_hms(x)
        t.add("Time", t=num(x), h=num(h), m=num(m), s=num(s))


def describe(g):
    return dict(means=rows(g.means), sig=rows(g.sigmas), w=nums(g.weights), sup=rows(g.support()))


def mixtures(t, salt):
    from ais_benchmarks.utils.misc import generateRandomGMM, generateEggBoxGMM
    from ais_benchmarks.sampling_methods.base import make_grid
    r = np.random.RandomState(salt)
    for _ in range(3):
        D = int(r.randint(1, 4))
        n = int((1, 2, 3, 7)[r.randint(4)])
        if r.rand() < .2:
            D, smin, smax, kw = 3, np.full(3, .04), np.full(3, .05), {}
        else:
            smin = r.uniform(.01, .1, D)
            smax = smin + r.uniform(0, .2, D)
            kw = {"sigma_min": tuple(smin), "sigma_max": tuple(smax)}
        lo = r.uniform(-9, 9, D)
        hi = lo + 10 * smax + r.uniform(.1, 9, D)
        g = generateRandomGMM(lo.copy(), hi.copy(), n, **kw)
        X = lo + (hi - lo) * r.rand(4, D)
        t.add("Mixture", n=n, lo=nums(lo), hi=nums(hi), smin=nums(smin), smax=nums(smax), X=rows(X), LP=nums(g.log_prob(X)), **describe(g))
    D = int(r.randint(1, 3))
    lo = r.uniform(-5, 5, D)
    hi = lo + r.uniform(1, 4, D)
    delta, sigma = float(r.uniform(.5, 1.2)), float(r.uniform(.01, .2))
    g = generateEggBoxGMM(lo.copy(), hi.copy(), delta, sigma)
    grid = make_grid(lo.copy(), hi.copy(), delta)[0]
    X = lo + (hi - lo) * r.rand(4, D)
    t.add("EggBox", n=len(grid), grid=rows(grid), lo=nums(lo), hi=nums(hi), smin=nums(np.full(D, sigma)), smax=nums(np.full(D, sigma)), X=rows(X), LP=nums(g.log_prob(X)), **describe(g))


def run(chk):
    import ais_benchmarks.utils.misc, ais_benchmarks.utils.plot_utils     # loaded once, before the workers are forked
    behs = chk.behaviours("MC_Helpers", "MC_HelpersDeep" if chk.thorough else "MC_Helpers")
    chk.notes["grid_shapes_enumerated"] = len(behs)
    r = np.random.RandomState(chk.seed)
    s = lambda: int(r.randint(1 << 30))
    jobs = []
    for i in range(40 if chk.thorough else 3):
        jobs += [("grid/%s/%d" % ("x".join(map(str, b)), i), grids, (b, s())) for b in behs]
    jobs += [("time/%d" % i, times, (s(),)) for i in range(200 if chk.thorough else 20)]
    jobs += [("mixture/%d" % i, mixtures, (s(),)) for i in range(1500 if chk.thorough else 80)]
    chk.validate("TraceHelpers", chk.drive(jobs))
