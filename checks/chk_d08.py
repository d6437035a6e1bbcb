"""D08: the support a distribution states, through builds, edits of the parameters, moment changes and use."""
import numpy as np
import dist
from core import nums, rows

OWN = {"normal": (1, 2, 3), "exp": (1, 2, 3), "uniform": (1, 2, 3), "uniform-scalar": (1, 2, 3), "bd-uniform": (1,), "bd-exp": (1,), "maxwell": (1,), "laplace": (1,), "pareto": (1,), "banana": (2,)}


def sheet_of(fam, p):
    """The parameter dictionary a user would write."""
    if fam == "normal":
        return {"mean": p["loc"].copy(), "sigma": p["cov"].copy()}
    if fam == "exp":
        return {"mean": p["mean"].copy()}
    if fam in ("uniform", "uniform-scalar"):
        return {"center": p["c"].copy(), "radius": p["r"][:1].copy() if fam == "uniform-scalar" else p["r"].copy()}
    return {}


def cls(fam):
    from ais_benchmarks import distributions as d
    return {"normal": d.CMultivariateNormal, "exp": d.CMultivariateExponential, "uniform": d.CMultivariateUniform, "uniform-scalar": d.CMultivariateUniform, "bd-uniform": d.BenchDenUniform,
            "bd-exp": d.BenchDenExponential, "maxwell": d.BenchDenMaxwell, "laplace": d.BenchDenLaplace, "pareto": d.BenchDenSymmetricPareto, "banana": d.Banana2D}[fam]


def box_of(r, D):
    lo = r.uniform(-9, 3, D) * (1., 1e-3, 1e4)[r.randint(3)]
    hi = lo + r.uniform(.1, 5, D) * (1., 1e-2, 300.)[r.randint(3)]
    b = np.array([lo, hi])
    how = r.randint(4)
    if how == 0 and D == 1:
        return b, [float(lo[0]), float(hi[0])]
    if how == 1 and D == 1:
        return b, b.flatten()
    if how == 2:
        return b, b.tolist()
    return b, b.copy()


def life(t, fam, D, cmds, salt):
    r = np.random.RandomState(salt)
    free = cmds[0]["op"] == "Free" or fam not in ("normal", "exp")
    given, how = box_of(r, D)
    p = dist.new_par(fam, r, D)
    sheet = sheet_of(fam, p)
    if not free:
        sheet["support"] = how
    objs, par = {}, {}
    for c in cmds[1:]:
        o, op = c["o"], c["op"]
        if op == "Edit":
            p = dist.new_par(fam, r, D)         # the user writes other values into the same dictionary
            sheet.update(sheet_of(fam, p))
        elif op == "New":
            objs[o] = cls(fam)(sheet)
            par[o] = p
            t.add("New", o=o, par=dist.enc(p), given=[] if free else rows(given))
        elif o in objs and op == "Move" and fam in ("normal", "exp"):
            q = dist.new_par(fam, r, D)
            par[o] = q
            if fam == "normal":
                objs[o].set_moments(q["loc"].copy(), q["cov"].copy())
            else:
                objs[o].set_moments(q["mean"].copy())
            t.add("Move", o=o, par=dist.enc(q))
        elif o in objs and op == "Use":
            use(objs[o], r, D, dist.FAMS[fam][1])
        for q in objs:
            look(t, q, objs[q], D)


def use(d, r, D, draws):
    X = r.randn(4, D)
    d.prob(X), d.log_prob(X)
    if r.rand() < .5:
        s = d.support()
        if isinstance(s, np.ndarray):
            s[...] = 7     # the caller may do with the answer what it likes
    if r.rand() < .3:
        d.to_dict()
    if r.rand() < .3 and draws:
        d.sample(3)


def look(t, o, d, D):
    b, b2 = (np.asarray(d.support(), float).copy() for _ in range(2))
    rec = lambda a: rows(a) if a.ndim == 2 else [nums(a.reshape(-1))]
    t.add("Look", o=o, n=D, box=rec(b), box2=rec(b2))


def other(fam, r, D, sup):
    """Distributions whose support is always the one they are given."""
    from ais_benchmarks import distributions as d
    k, X = r.randint(1, 4), r.randn(5, D)
    w = r.uniform(.1, 1, 5)
    if fam == "mix":
        return d.CMixtureModel({"models": [dist.build(dist.new_par("normal-unit", r, D), D) for _ in range(k)], "weights": r.uniform(.1, 1, k), "dims": D, "support": sup})
    if fam == "gmm":
        return d.CGaussianMixtureModel({"means": r.randn(k, D), "sigmas": r.uniform(.1, 1, (k, D)), "weights": r.uniform(.1, 1, k), "support": sup})
    if fam == "delta":
        return d.CMultivariateDelta({"center": r.randn(D), "support": sup})
    if fam == "kde":
        return d.CKernelDensity({"samples": X, "weights": w / w.sum(), "kernel_f": d.CKernel.kernel_normal, "kernel_bw": np.array([1.3]), "support": sup})
    return d.CNearestNeighbor({"samples": X, "weights": w / w.sum(), "support": sup})


def carried(t, fam, D, salt):
    r = np.random.RandomState(salt)
    objs = {}
    for o in (1, 2):
        given, how = box_of(r, D)
        objs[o] = other(fam, r, D, how)
        t.add("New", o=o, par={"fam": "other"}, given=rows(given))
        look(t, o, objs[o], D)
        use(objs[o], r, D, fam != "kde")
        if fam == "mix":
            objs[o].set_weights(r.uniform(0, 1, len(objs[o].models)))
        for q in objs:
            look(t, q, objs[q], D)


def run(chk):
    chk.mc("MC_Support", "MC_SupportDeep" if chk.thorough else "MC_Support")
    behs = chk.behaviours("MC_SupportCmds", "MC_SupportCmdsDeep" if chk.thorough else "MC_SupportCmds")
    chk.notes["histories_enumerated"] = len(behs)
    r = np.random.RandomState(chk.seed)
    jobs, m = [], 12 if chk.thorough else 1
    for fam, dims in OWN.items():
        for i in range(m * (60 if fam in ("normal", "exp") else 18)):
            D = dims[i % len(dims)]
            jobs.append(("%s/%d/%d" % (fam, D, i), life, (fam, D, behs[r.randint(len(behs))], int(r.randint(1 << 30)))))
    for fam in ("mix", "gmm", "delta", "kde", "nearest"):
        for i in range(m * 12):
            jobs.append(("%s/%d/%d" % (fam, 1 + i % 3, i), carried, (fam, 1 + i % 3, int(r.randint(1 << 30)))))
    chk.validate("TraceSupport", chk.drive(jobs))
