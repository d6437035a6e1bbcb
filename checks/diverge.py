"""M01, M03: lives of the metrics that compare two densities."""
import numpy as np
from core import num, nums, rows

METRICS = {"KL": "CKLDivergence", "JSD": "CJSDivergence", "EVMSE": "CExpectedValueMSE"}


class Dens:
    """A density given by its log values: a table on fixed points, a function elsewhere."""
    def __init__(self, lo, hi, fn):
        self.lo, self.hi, self.fn, self.dims = lo, hi, fn, len(lo)
        self.table, self.seen = None, []

    def logs(self, x):
        if self.table is not None and x.shape == self.table[0].shape and np.array_equal(x, self.table[0]):
            return self.table[1].copy()
        return self.fn(x)

    def log_prob(self, x):
        self.seen.append(np.array(x, float))
        return self.logs(np.asarray(x, float))

    def prob(self, x):
        return np.exp(self.log_prob(x))

    def support(self):
        return np.array([self.lo, self.hi])


def bumps(r, D, lo, hi, hole):
    c = r.uniform(lo, hi, (3, D))
    s = (hi - lo) * r.uniform(.1, .6)
    a = r.randn(3)
    j, at = r.randint(D), r.uniform(.2, .8)
    side = r.rand() < .5

    def f(x):
        v = np.logaddexp.reduce([a[i] - .5 * np.sum(((x - c[i]) / s) ** 2, axis=1) for i in range(3)], axis=0)
        if hole:
            cut = x[:, j] < lo[j] + at * (hi[j] - lo[j])
            v = np.where(cut == side, -np.inf, v)
        return v
    return f


KINDS = ["plain", "same-shape", "partly-zero", "disjoint", "spread", "far-apart", "nan", "single", "close", "rare", "equal"]


def table(kind, r, D, lo, hi):
    n = 1 if kind == "single" else int(r.randint(60, 300)) if kind == "rare" else (2, 5, 40)[r.randint(3)]
    X = r.uniform(lo, hi, (n, D))
    lp, lq = r.randn(n) * 1.5, r.randn(n) * 1.5
    if kind == "same-shape":
        lq = lp + r.randn() * 5
    elif kind == "close":
        lq = lp + r.randn(n) * 1e-3
    elif kind in ("partly-zero", "disjoint"):
        zp, zq = r.rand(n) < .4, r.rand(n) < .4
        if kind == "disjoint":
            zq = ~zp
        lp[zp], lq[zq] = -np.inf, -np.inf
        if not np.any(lp > -np.inf):
            lp[0] = 0.
            if kind == "disjoint":
                lq[0] = -np.inf
        if not np.any(lq > -np.inf):
            lq[n - 1] = 0.
            if kind == "disjoint":
                lp[n - 1] = -np.inf
    elif kind == "equal":
        lq = lp.copy()
    elif kind == "rare":            # many points, one or a few of them common
        zp = np.ones(n, bool)
        zp[r.permutation(n)[:r.randint(1, 4)]] = False
        zq = zp.copy()
        lp[zp] = -np.inf
        if r.rand() < .5:
            zq[zp] = r.rand(zp.sum()) < .5
        if r.rand() < .5:
            lq = lp.copy()
        lq[zq] = -np.inf
    elif kind == "spread":          # values so different that sums lose the small ones
        lp, lq = lp * 25, lq * 25
    elif kind == "far-apart":       # each tiny where the other is large, both of small absolute size
        lp, lq = lp * 60 - 200., lq * 60 - 200.
    elif kind == "nan" and n > 1:
        (lp, lq)[r.randint(2)][r.randint(n)] = np.nan
    if kind in ("plain", "same-shape", "partly-zero") and r.rand() < .4:      # densities need not be normalised
        lp, lq = lp + r.uniform(-200, 200), lq + r.uniform(-200, 200)
    if r.rand() < .3 and n > 2:      # a point present twice
        X[1] = X[0]
        lp[1], lq[1] = lp[0], lq[0]
    return X, lp, lq


def run_life(t, metric, kind, cmds, salt):
    import importlib
    mod = importlib.import_module("ais_benchmarks.metrics." + ("statistics" if metric == "EVMSE" else "divergences"))
    r = np.random.RandomState(salt)
    D = r.randint(1, 4)
    lo = r.randn(D) * (1., 40.)[r.randint(2)]
    hi = lo + r.uniform(.5, 3., D) * (1., 10.)[r.randint(2)]
    m = getattr(mod, METRICS[metric])()
    t.add("New", m=metric)
    X, lp, lq = table(kind, r, D, lo, hi)
    fp, fq = bumps(r, D, lo, hi, kind in ("partly-zero", "disjoint")), bumps(r, D, lo, hi, kind == "partly-zero")
    p, q = Dens(lo, hi, fp), Dens(lo - (hi - lo), hi + .5 * (hi - lo), fq)

    def pair():
        if metric == "EVMSE":        # undefined without any mass
            for d in (lp, lq):
                d[np.isnan(d)] = -1.
                if not np.any(np.exp(d) > 0):
                    d[0] = 0.
        p.table, q.table = (X, lp), (X, lq)
        t.add("Pair", X=rows(X), p=nums(np.exp(lp)), q=nums(np.exp(lq)), lp=nums(lp), lq=nums(lq))

    def ev(v):
        return dict(v=num(v), value=num(m.value))
    pair()
    for c in list(cmds) + [{"op": "Eval"}, {"op": "Fresh"}, {"op": "Look"}, {"op": "Reset"}, {"op": "Eval"}]:
        op = c["op"]
        if op == "Eval":
            t.add("Eval", **ev(m.compute_from_samples(p, q, X.copy())))
            if metric == "KL" and kind != "nan":
                t.add("Parts", v=num(np.sum(m.compute_from_log_probs(lp.copy(), lq.copy()))))
                P, Q = np.exp(lp), np.exp(lq)
                if np.array_equal(P > 0, lp > -np.inf) and np.array_equal(Q > 0, lq > -np.inf) and kind not in ("far-apart", "spread"):
                    t.add("Parts", v=num(np.sum(m.compute_from_probs(P, Q))))
        elif op == "Fresh":
            p.seen, q.seen = [], []
            n = (150, 1, 30)[min(2, r.randint(5))] if metric != "EVMSE" else 150
            v = m.compute(p=p, q=q, nsamples=n)
            Y = p.seen[0]
            same = all(np.array_equal(Y, z) for z in p.seen + q.seen)
            cuts = []
            for _ in range(4 * D):
                d, f = r.randint(D), r.uniform(.05, .95)
                cuts.append({"t": num(f), "c": int(np.sum(Y[:, d] < lo[d] + f * (hi[d] - lo[d])))})
            for _ in range(3):
                f = r.uniform(.2, .95, D)
                cuts.append({"t": num(np.prod(f)), "c": int(np.sum(np.all(Y < lo + f * (hi - lo), axis=1)))})
            P, Q = fp(Y), fq(Y)
            if metric == "EVMSE" and not (np.any(np.exp(P) > 0) and np.any(np.exp(Q) > 0)):
                continue
            t.add("Fresh", n=n, np=len(Y), nq=len(q.seen[0]), same=bool(same), lo=nums(lo), hi=nums(hi), min=nums(Y.min(axis=0)), max=nums(Y.max(axis=0)),
                  cuts=cuts, X=rows(Y), p=nums(np.exp(P)), q=nums(np.exp(Q)), lp=nums(P), lq=nums(Q), **ev(v))
        elif op == "Look":
            before = m.value
            m.pre()
            m.post()
            t.add("Bracket", value=num(m.value))
            t.add("Look", value=num(before))
        elif op == "Reset":
            m.reset()
            t.add("Reset", value=num(m.value))
        elif op == "Swap":
            lp, lq = lq.copy(), lp.copy()
            pair()
        elif op == "Same":
            lq = lp.copy()
            pair()
        elif op == "Scale":
            lp = lp + (3., -2.)[r.randint(2)]
            pair()


def run(chk, metrics, n):
    chk.mc("MC_Divergence", "MC_DivergenceDeep" if chk.thorough else "MC_Divergence")
    behs = chk.behaviours("MC_DivCmds", "MC_DivCmdsDeep" if chk.thorough else "MC_DivCmds")
    r = np.random.RandomState(chk.seed)
    jobs = []
    for metric in metrics:
        for kind in KINDS:
            if metric == "EVMSE" and kind == "nan":
                continue
            for i in range(n * (12 if chk.thorough else 1)):
                b = behs[r.randint(len(behs))]
                jobs.append(("%s/%s/%d" % (metric, kind, i), run_life, (metric, kind, b, int(r.randint(1 << 30)))))
    chk.notes["histories_enumerated"] = len(behs)
    chk.validate("TraceDiv", chk.drive(jobs), env={"PROP": chk.prop})
