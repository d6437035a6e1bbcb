"""D06: user-defined densities, kernel estimates, point masses, box integrals."""
import numpy as np
import dist
from core import num, nums, rows


def user(t, cmds, salt):
    from ais_benchmarks import distributions as d
    r = np.random.RandomState(salt)
    D = r.randint(1, 4)
    la, lb = r.randn(D), r.randn(D)
    ca, cb = np.diag(r.uniform(.3, 2., D)), np.diag(r.uniform(.3, 2., D))
    cut = -np.inf if salt % 3 == 0 else r.randn() * .5       # no density at all below it

    def logn(x, m, c):
        q = (x - m) ** 2 / np.diag(c)
        return np.where(x[:, 0] < cut, -np.inf, -.5 * (q.sum(axis=1) + np.log(np.diag(c)).sum() + D * np.log(2 * np.pi)))
    logs = {"a": lambda x: logn(x, la, ca), "b": lambda x: logn(x, lb, cb) + .4, "none": None}
    liks = {"a": lambda x: np.exp(logs["a"](x)), "b": lambda x: np.exp(logs["b"](x)), "none": None}

    class G(d.CDistribution):
        def condition(self, dist):
            raise NotImplementedError

        def marginal(self, dim):
            raise NotImplementedError
    t.cfg = {"la": nums(la), "lb": nums(lb), "ca": rows(ca), "cb": rows(cb), "cut": num(cut)}
    g = None
    for c in list(cmds) + [{"op": "Ask"}]:
        if c["op"] == "New":
            g = G({"type": "user", "family": "user", "dims": D, "likelihood_f": liks[c["lik"]], "loglikelihood_f": logs[c["log"]],
                   "support": np.array([np.full(D, -4.), np.full(D, 4.)])})
            t.add("New", lik=c["lik"], log=c["log"])
        elif c["op"] == "SetLik":
            g.set_likelihood_f(liks[c["lik"]])
            t.add("SetLik", lik=c["lik"])
        elif c["op"] == "SetLog":
            g.set_loglikelihood_f(logs[c["log"]])
            t.add("SetLog", log=c["log"])
        else:
            X = r.randn((1, 2, 5)[r.randint(3)], D) * 1.5
            if r.randint(3) == 0:                            # so far out that only the logarithm is left
                X[r.randint(len(X))] += 100 * np.sign(r.randn(D))
            out = []
            for f in (g.prob, g.log_prob):
                try:
                    out.append(nums(np.asarray(f(X.copy()), float).reshape(-1)))
                except Exception as ex:
                    if "function" not in str(ex):
                        raise
                    out.append(None)
            t.add("Ask", X=rows(X), P=out[0] or [], LP=out[1] or [], rP=out[0] is None, rLP=out[1] is None)


KERNELS = ["normal", "uniform", "triangular", "epanechnikov"]


def kde(t, name, salt):
    from ais_benchmarks import distributions as d
    r = np.random.RandomState(salt)
    D = r.randint(1, 4)
    f = getattr(d.CKernel, "kernel_" + name)
    k = r.randint(1, 8)
    C = r.randn(k, D)
    w = dist.new_weights(r, k)
    bw = r.uniform(.4, 5.)
    est = d.CKernelDensity({"samples": C.copy(), "weights": w.copy(), "kernel_f": f, "kernel_bw": np.array([bw]), "support": np.array([np.full(D, -4.), np.full(D, 4.)])})
    for step in range(3):
        X = np.concatenate([C[r.randint(k, size=2)] + r.uniform(-.9, .9, (2, D)) / bw, r.randn(3, D), C[:1]])
        t.add("Kde", kernel=name, bw=num(bw), C=rows(C), w=nums(w), X=rows(X), P=nums(est.prob(X.copy())), LP=nums(est.log_prob(X.copy())))
        if step == 0:          # more samples, fitted again
            C = np.concatenate([C, r.randn(2, D)])
            w = np.concatenate([np.where(np.isnan(w), .3, w), [.5, .25]])
            k = len(C)
            est.samples, est.weights = C.copy(), w.copy()
            est.fit()
        elif step == 1:
            bw = r.uniform(.4, 5.)
            est.kernel_bw = np.array([bw])
            est.fit()
    u = np.concatenate([r.uniform(-.99, .99, 6), r.uniform(1.05, 3., 2)])
    kern = d.CKernel(np.zeros(1), np.array([bw]), f)
    n, lim = 4000, 8. / bw
    step = 2 * lim / n
    G = kern(((np.arange(n) + .5) * step - lim).reshape(-1, 1))
    t.add("Kernel", kernel=name, u=nums(u), K=nums(f(u.copy())), Kneg=nums(f(-u)), G=nums(np.asarray(G).reshape(-1)), step=num(step))


def delta(t, salt):
    from ais_benchmarks import distributions as d
    r = np.random.RandomState(salt)
    D = r.randint(1, 4)
    loc = r.randn(D) * (1., 50.)[r.randint(2)]
    m = d.CMultivariateDelta({"center": loc.copy(), "support": np.array([loc - 1, loc + 1])})
    X = [loc.copy(), loc + 5., loc - 3.]
    for j in range(D):          # off in one coordinate only
        x = loc.copy()
        x[j] += (abs(x[j]) + 1) * (.01, -.2)[r.randint(2)]
        X.append(x)
    X = np.array(X)[r.permutation(len(X))]
    boxes = []
    for i in range(8):
        a, b = loc - r.uniform(.1, 3., D), loc + r.uniform(.1, 3., D)
        if i % 2:               # misses the location in one dimension
            j = r.randint(D)
            a[j], b[j] = (b[j], b[j] + 1) if r.rand() < .5 else (a[j] - 1, a[j])
        boxes.append({"a": nums(a), "b": nums(b), "v": num(np.asarray(m.integral(a, b), float).reshape(-1)[0])})
    n = (1, 4)[r.randint(2)]
    t.add("Delta", loc=nums(loc), X=rows(X), P=nums(m.prob(X.copy())), LP=nums(m.log_prob(X.copy())), boxes=boxes, n=n, D=rows(np.asarray(m.sample(n), float)))


def box(t, fam, salt):
    r = np.random.RandomState(salt)
    D = r.randint(1, 4)
    p = dist.new_par(fam, r, D)
    m = dist.build(p, D)
    loc, sd, _ = dist.anchors(p, D)
    for i in range(4):
        u = r.uniform(-2.5, 1.5, D)
        a, b = loc + sd * u, loc + sd * (u + r.uniform(.3, 3., D))
        if fam == "exp-unit":
            a = np.maximum(a, 0)
            b = np.maximum(b, a + .1)
        if p["fam"] == "uniform":
            t.add("Box", par=dist.enc(p), a=nums(a), b=nums(b), exact=True, v=num(float(np.asarray(m.integral(a, b)).reshape(-1)[0])))
        else:
            n = 20000
            top = float(np.prod(1 / p["mean"])) if p["fam"] == "exp" else float((2 * np.pi) ** (-D / 2) / np.sqrt(np.prod(np.diag(p["cov"]))))
            v = float(m.integral(a, b, n))
            t.add("Box", par=dist.enc(p), a=nums(a), b=nums(b), exact=False, v=num(v), n=n, bound=num(top * float(np.prod(b - a))))


def run(chk):
    behs = chk.behaviours("MC_Generic", "MC_GenericDeep" if chk.thorough else "MC_Generic")
    r = np.random.RandomState(chk.seed)
    s = lambda: int(r.randint(1 << 30))
    k = 12 if chk.thorough else 1
    jobs = [("user/%d" % i, user, (behs[r.randint(len(behs))], s())) for i in range(400 * k)]
    jobs += [("kde/%s/%d" % (n, i), kde, (n, s())) for n in KERNELS for i in range(25 * k)]
    jobs += [("delta/%d" % i, delta, (s(),)) for i in range(60 * k)]
    jobs += [("box/%s/%d" % (f, i), box, (f, s())) for f in ("diag", "exp-unit", "uniform-unit", "uniform", "uniform-scalar") for i in range(20 * k)]
    chk.notes["histories_enumerated"] = len(behs)
    chk.validate("TraceGeneric", chk.drive(jobs))
