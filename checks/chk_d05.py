"""D05: approximate-Bayesian posteriors and noisy-function models, all orders of conditioning and evaluation."""
import numpy as np
from core import num, nums, rows


class Tensor(np.ndarray):
    """What a generative function of a nuisance model returns: an array that can be detached."""
    def detach(self):
        return np.asarray(self)


def logged(dist, log):
    inner = dist.sample
    def sample(n=1):
        x = np.asarray(inner(n), float)
        log.extend(np.array(x).reshape(-1, dist.dims))
        return x
    dist.sample = sample
    return dist


def life(t, cmds, salt):
    from ais_benchmarks import distributions as d
    r = np.random.RandomState(salt)
    D = r.randint(1, 4)
    oD = r.randint(1, D + 1)
    fa, fw, fb, z, slack = r.uniform(-1, 1), r.uniform(.5, 3), r.uniform(-1, 2), (0., .4)[r.randint(2)], r.uniform(.1, 2.)
    ploc, pcov = r.randn(D), np.diag(r.uniform(.3, 2., D))
    nloc, ncov = r.randn(D) * .1, np.diag(r.uniform(.01, .5, D))
    noise, snoise, pri = [], [], []
    use = r.randint(3)
    f = lambda x, zz: fa * np.sin(fw * x) + fb * x + (0. if zz is None else zz)
    gen = d.GenericNoisyFunction({"noise_model": logged(d.CMultivariateNormal({"mean": nloc, "sigma": ncov}), noise), "function": f,
                                  "support": np.array([np.full(D, -5.), np.full(D, 5.)]), "dims": D})
    sen = d.GenericNoisyFunction({"noise_model": logged(d.CMultivariateNormal({"mean": nloc, "sigma": ncov}), snoise), "function": lambda x, zz: x,
                                  "support": np.array([np.full(D, -5.), np.full(D, 5.)]), "dims": D})
    if z:
        gen.set_params(z)
    ll = lambda o, y, s: -np.sum((np.asarray(o).reshape(1, -1) - y) ** 2, axis=1) / (2 * s)
    li = lambda o, y, s: np.exp(ll(o, y, s))
    prior = logged(d.CMultivariateNormal({"mean": ploc, "sigma": pcov}), pri)
    mk = lambda: d.ABCDistribution({"dims": D, "prior_d": prior, "sensor_d": sen, "gen_d": gen, "slack": slack,
                                    "support": np.array([np.full(D, -5.), np.full(D, 5.)]),
                                    "likelihood_f": None if use == 1 else li, "loglikelihood_f": None if use == 2 else ll})
    obj = {1: mk(), 2: mk()}
    t.cfg = {"fa": num(fa), "fw": num(fw), "fb": num(fb), "z": num(z), "slack": num(slack), "ploc": nums(ploc), "pcov": rows(pcov),
             "nloc": nums(nloc), "ncov": rows(ncov)}
    batch = lambda: ploc + r.randn((1, 2, 5)[r.randint(3)], D) * 1.5

    def take(log):
        out = [x.copy() for x in log]
        log.clear()
        return rows(np.array(out).reshape(-1, D)) if out else []
    conditioned = None
    for c in list(cmds) + [{"op": "LogProb", "o": 1}, {"op": "Prob", "o": 2}]:
        op, o = c["op"], c["o"]
        if op == "Cond":
            v = r.randn(oD)
            obj[o].condition(v.copy())
            t.add("Cond", o=o, v=nums(v))
        elif op in ("Prob", "LogProb"):
            X = batch()
            keep = X.copy()
            take(noise)
            try:
                V = (obj[o].prob if op == "Prob" else obj[o].log_prob)(X)
                raised, V = False, nums(np.asarray(V, float).reshape(-1))
                conditioned = keep
            except ValueError:
                raised, V = True, []
            t.add("Eval", o=o, form="log" if op == "LogProb" else "prob", X=rows(keep), X2=rows(X), V=V, noise=take(noise), raised=raised)
        elif op == "Gen":
            X = batch()
            take(noise)
            gen.condition(X.copy())
            conditioned = X
            Y = np.asarray(gen.sample(), float)
            t.add("Gen", X=rows(X), Y=rows(Y), noise=take(noise))
        elif op == "Score":
            Y = (conditioned if conditioned is not None else batch())
            if len(Y) == 1:
                Y = np.repeat(Y, 3, axis=0)
            Y = Y + r.randn(*Y.shape) * .5
            try:
                P, LP = gen.prob(Y), gen.log_prob(Y)
                t.add("Score", Y=rows(Y), P=nums(P), LP=nums(LP), raised=False)
            except ValueError:
                t.add("Score", Y=rows(Y), P=[], LP=[], raised=True)
        elif op == "Draw":
            for g in (noise, snoise, pri):
                take(g)
            n = (1, 2, 5)[r.randint(3)]
            Y = np.asarray(obj[o].sample(n), float)
            X = take(pri)
            conditioned = np.array([[float(v) for v in q] for q in X])
            t.add("Draw", o=o, n=n, X=X, Y=rows(Y), noise=take(noise), snoise=take(snoise))


def nuisance(t, cmds, salt):
    from ais_benchmarks import distributions as d
    r = np.random.RandomState(salt)
    D = r.randint(1, 4)
    nd, draws = d.CMultivariateNormal({"mean": np.zeros(2), "sigma": np.eye(2)}), []
    logged(nd, draws)
    saw = []

    def g(z, n):
        out = np.sum(n, axis=1).reshape(-1, 1) + np.repeat(np.asarray(z).sum(axis=1).reshape(-1, 1), len(n) // len(z), axis=0)
        saw.append((np.array(z), np.array(n), np.array(out)))
        return out.view(Tensor)
    m = d.GenericNuisanceGenModel({"gen_function": g, "params_mask": np.ones(D, bool), "noise_sigma": .1, "nuisance_dist": nd,
                                   "dims": D, "support": np.array([np.full(D, -5.), np.full(D, 5.)])})
    Z = None
    t.cfg = {"none": 0}
    for c in cmds:
        if c["op"] == "Cond":
            Z = r.randn((1, 2, 4)[r.randint(3)], D)
            m.condition(Z.copy())
        else:
            reps = (1, 1, 3)[r.randint(3)]
            draws.clear()
            saw.clear()
            try:
                Y = np.asarray(m.sample(reps), float)
            except ValueError:
                t.add("Nuis", refused=True, first=Z is None)
                continue
            t.add("Nuis", refused=False, first=Z is None, reps=reps, Z=rows(Z), N=rows(np.array(draws)), seen=rows(saw[0][0]), nseen=rows(saw[0][1]), made=rows(saw[0][2]), Y=rows(Y))


def run(chk):
    chk.mc("MC_Derived", "MC_DerivedDeep" if chk.thorough else "MC_Derived")
    behs = chk.behaviours("MC_Derived", "MC_DerivedCmdsDeep" if chk.thorough else "MC_DerivedCmds")
    r = np.random.RandomState(chk.seed)
    jobs = []
    for i in range(12000 if chk.thorough else 900):
        jobs.append(("abc/%d" % i, life, (behs[r.randint(len(behs))], int(r.randint(1 << 30)))))
    for i in range(500 if chk.thorough else 60):
        jobs.append(("nuisance/%d" % i, nuisance, (behs[r.randint(len(behs))], int(r.randint(1 << 30)))))
    chk.notes["histories_enumerated"] = len(behs)
    chk.validate("TraceDerived", chk.drive(jobs))
