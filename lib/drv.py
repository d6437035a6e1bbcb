"""Drivers for the sampling methods: recording targets, method factories, observed draw counts."""
import sys
import numpy as np
from core import num, nums, rows, shape


class Target:
    """A target density written here (not the repository's), which records every point it is asked about."""
    def __init__(self, kind, lo, hi, shift=0.0, scale=1.0):
        self.kind, self.lo, self.hi = kind, np.asarray(lo, float), np.asarray(hi, float)
        self.dims = len(self.lo)
        self.name = kind
        self.shift = shift          # moves the mode, in units of the half width
        self.scale = scale          # multiplies the density
        self.points, self.values, self.calls = [], [], 0
        self.mid, self.half = (self.lo + self.hi) / 2, (self.hi - self.lo) / 2

    def logf(self, x):
        u = (x - self.mid) / self.half - self.shift
        if self.kind == "gauss":
            r = -2.0 * np.sum(u * u, axis=1)
        elif self.kind == "ramp":            # mass pressed against the upper boundary, unbounded support
            r = 2.0 * np.sum(np.minimum(u, 3.0), axis=1)
        elif self.kind == "flat":
            r = np.zeros(len(x))
        elif self.kind == "bimodal":
            r = np.logaddexp(-6.0 * np.sum((u - .5) ** 2, axis=1), -6.0 * np.sum((u + .4) ** 2, axis=1))
        elif self.kind == "ripple":
            r = -np.sum(u * u, axis=1) + np.sum(np.sin(5 * u), axis=1) * .7
        elif self.kind == "hole":            # no density in one corner of the space
            r = np.where(u[:, 0] < -.25, -np.inf, -np.sum(u * u, axis=1))
        elif self.kind == "box":             # positive in a box only
            r = np.where(np.all(np.abs(u) < .35, axis=1), 0., -np.inf)
        elif self.kind == "needle":          # nearly all the weight on the nearest sample
            r = -60.0 * np.sum(u * u, axis=1)
        elif self.kind == "spike":           # a chain hardly ever finds a better point
            r = -20000.0 * np.sum(u * u, axis=1)
        elif self.kind == "peak":
            r = np.logaddexp(-40.0 * np.sum((u - .3) ** 2, axis=1), -6.0)
        else:
            raise KeyError(self.kind)
        return r + np.log(self.scale)

    def twin(self):
        """The same density as another object; both keep one record of the evaluations."""
        t = type(self)(self.kind, self.lo, self.hi, self.shift, self.scale)
        t.points, t.values = self.points, self.values
        return t

    def cfg(self):
        """What spec/Targets.tla needs to evaluate this target itself."""
        return {"tkind": self.kind, "mid": nums(self.mid), "half": nums(self.half), "shift": num(self.shift),
                "tscale": num(self.scale), "lo": nums(self.lo), "hi": nums(self.hi)}

    def _take(self, x):
        a = np.array(x, dtype=float)
        a = a.reshape(-1, self.dims)
        return a

    def peek(self, x):
        return np.exp(self.logf(self._take(x)))

    def log_prob(self, x):
        a = self._take(x)
        v = self.logf(a)
        self.calls += 1
        self.points.append(a.copy())
        self.values.append(np.exp(v))
        return v

    def prob(self, x):
        return np.exp(self.log_prob(x))

    def support(self):
        return np.array([self.lo, self.hi])

    def is_ready(self):
        return True

    @property
    def count(self):
        return sum(len(p) for p in self.points)

    def seen(self):
        return np.concatenate(self.points) if self.points else np.zeros((0, self.dims))

    def forget(self):
        self.points.clear()
        self.values.clear()


class Draws:
    """Counts the points drawn from proposal distributions: rows returned by the outermost .sample() of the
    distributions the samplers draw from."""
    def __init__(self):
        from ais_benchmarks.distributions import CMultivariateNormal, CMultivariateUniform, CMixtureModel
        self.classes = [CMultivariateNormal, CMultivariateUniform, CMixtureModel]
        self.n, self.depth, self.log, self.on, self.snap = 0, 0, [], True, None

    def __enter__(self):
        self.saved = [c.sample for c in self.classes]
        for c, f in zip(self.classes, self.saved):
            c.sample = self._wrap(f)
        return self

    def __exit__(self, *a):
        for c, f in zip(self.classes, self.saved):
            c.sample = f

    def _wrap(self, f):
        me = self

        def sample(obj, *a, **kw):
            if me.depth == 0 and me.on and me.snap:
                before = me.snap()
            else:
                before = None
            me.depth += 1
            try:
                r = f(obj, *a, **kw)
            finally:
                me.depth -= 1
            if me.depth == 0 and me.on:
                me.n += len(np.atleast_2d(r))
                me.log.append((id(obj), np.array(r, float), before))
            return r
        return sample


SPACES = {
    "unit1": ([0.], [1.]), "off1": ([3.], [7.]), "neg1": ([-5.], [-1.]),
    "sym2": ([-1., -1.], [1., 1.]), "off2": ([2., -3.], [6., 1.]), "rect2": ([-1., 2.], [3., 3.]),
    "sym3": ([-1., -1., -1.], [1., 1., 1.]), "off3": ([1., -2., 3.], [3., 0., 5.]), "box3": ([0., -1., 2.], [1., 3., 4.]),
}
CUBIC = ["unit1", "off1", "neg1", "sym2", "off2", "sym3", "off3"]
DIMS = {k: len(v[0]) for k, v in SPACES.items()}


def space(name):
    lo, hi = SPACES[name]
    return np.array(lo), np.array(hi)


def make(method, sp, par):
    """Build a sampling method of the repository."""
    import ais_benchmarks.sampling_methods as sm
    lo, hi = space(sp) if isinstance(sp, str) else sp
    D = len(lo)
    w2 = float(np.mean(hi - lo) ** 2)
    p = {"space_min": lo.copy(), "space_max": hi.copy(), "dims": D}
    p.update(par)
    if method == "dm":
        p.setdefault("J", 1000); p.setdefault("sigma", .05 * w2)
        return sm.CDeterministicMixtureAIS(p)
    if method == "lais":
        p.setdefault("J", 1000); p.setdefault("sigma", .05 * w2); p.setdefault("mh_sigma", .05 * w2)
        return sm.CLayeredAIS(p)
    if method == "mpmc":
        p.setdefault("J", 1000); p.setdefault("sigma", .1 * w2)
        return sm.CMixturePMC(p)
    if method == "mh":
        p.setdefault("proposal_sigma", .1 * w2)
        p.setdefault("proposal_d", None); p.setdefault("kde_bw", .01 * w2); p.setdefault("n_samples_kde", 5)
        return sm.CMetropolisHastings(p)
    if method == "rej":
        p.setdefault("proposal", "CMultivariateUniform({'center': (self.space_min+self.space_max)/2, 'radius': (self.space_max-self.space_min)/2})")
        p.setdefault("kde_bw", .01 * w2); p.setdefault("n_samples_kde", 5)
        return sm.CRejectionSampling(p)
    if method == "nested":
        p.setdefault("proposal", "CMultivariateNormal({'mean': np.zeros(self.ndims), 'sigma': np.diag(np.ones(self.ndims)*%r)})" % (.05 * w2))
        p.setdefault("kde_bw", .01 * w2); p.setdefault("n_samples_kde", 5)
        return sm.CNestedSampling(p)
    if method == "multi":
        p.setdefault("proposal", "None")
        p.setdefault("kde_bw", .01 * w2); p.setdefault("n_samples_kde", 5)
        p.setdefault("converged_radius", 1e-3); p.setdefault("inflate_factor", 2.0)
        return sm.CMultiNestedSampling(p)
    if method == "tp":
        return sm.CTreePyramidSampling(p)
    if method == "hid":
        return sm.CHiDaiseeSampling(p)
    raise KeyError(method)


# name -> (method, parameters, flat history?, confined to the space?)
CONFIGS = {
    "dm-a": ("dm", dict(K=2, N=3), True, False),
    "dm-b": ("dm", dict(K=1, N=5), True, False),
    "dm-c": ("dm", dict(K=3, N=1), True, False),
    "dm-d": ("dm", dict(K=1, N=1), True, False),
    "lais-a": ("lais", dict(K=2, N=3, L=1), True, False),
    "lais-b": ("lais", dict(K=1, N=2, L=3), True, False),
    "mpmc-a": ("mpmc", dict(K=8, N=3), True, False),
    "mpmc-b": ("mpmc", dict(K=12, N=1), True, False),
    "mh-a": ("mh", dict(n_steps=1, n_burnin=0), True, True),
    "mh-b": ("mh", dict(n_steps=3, n_burnin=4), True, True),
    "rej-a": ("rej", dict(scaling=60.0), True, True),
    "rej-b": ("rej", dict(scaling=2.0), True, True),
    "nested-a": ("nested", dict(N=4), True, True),
    "nested-b": ("nested", dict(N=9), True, True),
    "multi-a": ("multi", dict(N=12), True, True),
    "multi-b": ("multi", dict(N=20, inflate_factor=1.2), True, True),
    "hid-a": ("hid", dict(target_ess=.9, n_min=3, tau=.01), False, True),
    "hid-b": ("hid", dict(target_ess=.6, n_min=5, tau=.5), False, True),
    "tp-simple-none-haar": ("tp", dict(method="simple", resampling="none", kernel="haar", ess_target=None, n_min=5, parallel_samples=4), False, True),
    "tp-simple-ess-haar": ("tp", dict(method="simple", resampling="none", kernel="haar", ess_target=.9, n_min=3, parallel_samples=6), False, True),
    "tp-simple-leaf-haar": ("tp", dict(method="simple", resampling="leaf", kernel="haar", ess_target=.9, n_min=3, parallel_samples=4), False, True),
    "tp-simple-over-haar": ("tp", dict(method="simple", resampling="leaf", kernel="haar", ess_target=1.1, n_min=1, parallel_samples=4), False, True),
    "tp-simple-none-normal": ("tp", dict(method="simple", resampling="none", kernel="normal", ess_target=None, n_min=5, parallel_samples=4), False, False),
    "tp-simple-leaf-normal": ("tp", dict(method="simple", resampling="leaf", kernel="normal", ess_target=.9, n_min=3, parallel_samples=4), False, False),
    "tp-dm-leaf-haar": ("tp", dict(method="dm", resampling="leaf", kernel="haar", ess_target=None, n_min=5, parallel_samples=4), False, True),
    "tp-mixture-leaf-normal": ("tp", dict(method="mixture", resampling="leaf", kernel="normal", ess_target=None, n_min=5, parallel_samples=4), False, False),
    "tp-mixture-none-haar": ("tp", dict(method="mixture", resampling="none", kernel="haar", ess_target=None, n_min=5, parallel_samples=4), False, True),
}


def arr(x):
    return np.asarray(x, dtype=float)


def as_rows(S):
    """Rows of an N x D array; anything else is encoded as no rows (its shape is recorded separately)."""
    a = np.asarray(S)
    return rows(a) if a.ndim == 2 else []


def as_flat(W):
    a = np.asarray(W)
    return nums(a) if a.ndim == 1 else []


def counts(m):
    s = m.get_stats()
    return {"sev": int(s["target_evals"]), "sdr": int(s["proposal_samples"]), "sn": int(s["n_samples"]),
            "pev": int(m.num_target_evals), "pdr": int(m.num_proposal_samples),
            "sqe": int(s["proposal_evals"]), "pqe": int(m.num_proposal_evals)}


def in_distribution():
    """Is a distribution drawing its own points (and so free to use the generator as it likes)?"""
    f = sys._getframe(2)
    for _ in range(6):
        if f is None:
            return False
        if "/ais_benchmarks/distributions/" in f.f_code.co_filename:
            return True
        f = f.f_back
    return False


class FixedUniform:
    """Replaces the generator's acceptance uniforms (scalars and vectors in [0,1)) by a chosen function of the call."""
    def __init__(self, value):
        self.value = value if callable(value) else (lambda n: np.full(n, float(value)))
        self.given = []

    def _draw(self, size):
        n = 1 if size is None else int(np.prod(size))
        v = np.asarray(self.value(n), float)
        self.given.extend(v.tolist())
        return float(v[0]) if size is None else v.reshape(size)

    def __enter__(self):
        self.saved = (np.random.rand, np.random.random, np.random.random_sample, np.random.uniform)
        me = self
        np.random.rand = lambda *a: me.saved[0](*a) if in_distribution() else me._draw(a if a else None)
        np.random.random = lambda size=None: me.saved[1](size) if in_distribution() else me._draw(size)
        np.random.random_sample = lambda size=None: me.saved[2](size) if in_distribution() else me._draw(size)

        def uniform(low=0.0, high=1.0, size=None):
            if np.isscalar(low) and np.isscalar(high) and low == 0 and high == 1 and not in_distribution():
                return me._draw(size)
            return me.saved[3](low, high, size)
        np.random.uniform = uniform
        return self

    def __exit__(self, *a):
        np.random.rand, np.random.random, np.random.random_sample, np.random.uniform = self.saved
