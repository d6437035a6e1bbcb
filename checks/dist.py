"""Scenarios shared by D01-D04: lives of distribution objects."""
import numpy as np
from core import num, nums, rows


def spd(r, D, scale):
    A = r.randn(D, D)
    return (A @ A.T + .3 * np.eye(D)) * scale


def new_par(fam, r, D):
    """Parameters as python values: what the driver builds the object from."""
    size = (.05, 1., 30., 3e-5)[r.randint(4)]
    off = (0., 0., 40., -900.)[r.randint(4)] if size > 1e-3 else 0.
    if fam == "normal":
        return {"fam": fam, "loc": r.randn(D) * size + off, "cov": spd(r, D, size ** 2)}
    if fam == "diag":
        return {"fam": "normal", "loc": r.randn(D) * 2, "cov": np.diag(r.uniform(.05, 2., D))}
    if fam in ("uniform", "uniform-scalar"):
        rad = r.uniform(.2, 3., D) * size
        return {"fam": "uniform", "c": r.randn(D) * size + off, "r": np.full(D, rad[0]) if fam == "uniform-scalar" else rad, "scalar": fam == "uniform-scalar"}
    if fam == "exp":
        return {"fam": fam, "mean": r.uniform(.1, 4., D) * size}
    if fam == "bd-uniform":
        return {"fam": "uniform", "c": np.array([.5]), "r": np.array([.5])}
    if fam == "bd-exp":
        return {"fam": "exp", "mean": np.array([1.])}
    if fam in ("maxwell", "laplace", "pareto", "banana"):
        return {"fam": fam}
    if fam in ("mix", "gmm"):
        k = r.randint(1, 5)
        comps = []
        for i in range(k):
            c = new_par("diag" if fam == "gmm" else ("diag", "uniform-unit", "exp-unit", "normal-unit")[r.randint(4)], r, D)
            comps.append(c)
        bare = fam == "gmm" and r.rand() < .25       # built without weights: equal ones
        return {"fam": "mix", "comps": comps, "w": np.ones(k) if bare else new_weights(r, k), "gmm": fam == "gmm", "bare": bare}
    if fam == "uniform-unit":
        return {"fam": "uniform", "c": r.randn(D) * 2, "r": r.uniform(.2, 2., D), "scalar": False}
    if fam == "exp-unit":
        return {"fam": "exp", "mean": r.uniform(.2, 3., D)}
    if fam == "normal-unit":
        return {"fam": "normal", "loc": r.randn(D) * 2, "cov": spd(r, D, .5)}
    raise KeyError(fam)


def new_weights(r, k):
    w = r.uniform(.05, 1., k) * (1., 7., .01, 1e-14, 1e-200, 1e15)[r.randint(6)]
    mode = r.randint(6)
    for i in range(k):
        if mode == 1 and r.rand() < .5:
            w[i] = 0.
        if mode == 2 and r.rand() < .5:
            w[i] = (-1., np.nan, -.2, 0.)[r.randint(4)]
    if mode == 3:
        w = w / w.sum()
    if mode == 4 and r.rand() < .5:
        w[:] = (0., np.nan, -3.)[r.randint(3)]
    return w


def build(p, D):
    from ais_benchmarks import distributions as d
    f = p["fam"]
    if f == "normal":
        return d.CMultivariateNormal({"mean": p["loc"], "sigma": p["cov"]})
    if f == "uniform":
        if p.get("scalar") is None:
            return d.BenchDenUniform({})
        return d.CMultivariateUniform({"center": p["c"], "radius": p["r"][:1] if p["scalar"] else p["r"]})
    if f == "exp":
        return d.CMultivariateExponential({"mean": p["mean"]})
    if f == "mix":
        sup = np.array([np.full(D, -50.), np.full(D, 50.)])
        if p["gmm"]:
            par = {"means": np.array([c["loc"] for c in p["comps"]]), "sigmas": np.array([np.diag(c["cov"]) for c in p["comps"]]), "support": sup}
            return d.CGaussianMixtureModel(par if p["bare"] else dict(par, weights=p["w"].copy()))
        return d.CMixtureModel({"models": [build(c, D) for c in p["comps"]], "weights": p["w"].copy(), "dims": D, "support": sup})
    return {"maxwell": d.BenchDenMaxwell, "laplace": d.BenchDenLaplace, "pareto": d.BenchDenSymmetricPareto, "banana": d.Banana2D}[f]({})


def enc(p):
    f = p["fam"]
    if f == "normal":
        return {"fam": f, "loc": nums(p["loc"]), "cov": rows(p["cov"])}
    if f == "uniform":
        return {"fam": f, "c": nums(p["c"]), "r": nums(p["r"])}
    if f == "exp":
        return {"fam": f, "mean": nums(p["mean"])}
    if f == "mix":
        return {"fam": f, "comps": [enc(c) for c in p["comps"]], "w": nums(p["w"])}
    return {"fam": f}


def anchors(p, D):
    """A location, a spread and jump points of the density, to choose evaluation points from."""
    f = p["fam"]
    if f == "normal":
        return p["loc"], np.sqrt(np.diag(p["cov"])), []
    if f == "uniform":
        return p["c"], p["r"], [p["c"] - p["r"], p["c"] + p["r"]]
    if f == "exp":
        return p["mean"], p["mean"], [np.zeros(D)]
    if f == "banana":
        return np.array([0., 2.]), np.array([6., 3.]), []
    return np.full(D, .7), np.full(D, 2.), [np.zeros(D)] if f == "maxwell" else []


def points(p, r, D, n):
    out = []
    for _ in range(n):
        q = p["comps"][r.randint(len(p["comps"]))] if p["fam"] == "mix" else p
        loc, sd, jumps = anchors(q, D)
        z = r.rand()
        if z < .6:
            x = loc + sd * r.uniform(-1.2, 1.2, D)
        elif z < .8:
            x = loc + sd * r.uniform(-4, 4, D)
        elif z < .9:
            x = loc + sd * r.uniform(-25, 25, D)
        elif jumps:
            x = loc + sd * r.uniform(-.5, .5, D)
            d = r.randint(D)
            x[d] = jumps[r.randint(len(jumps))][d]
            if z < .96:         # close to the jump, on either side
                x[d] += sd[d] * 10 ** r.uniform(-6, -1) * (1, 1, -1)[r.randint(3)]
        else:
            x = out[-1].copy() if out else loc + 0.
        out.append(np.array(x, float))
    return np.array(out).reshape(n, D)


def layout(X, how):
    if how == 1:
        return np.asfortranarray(X)
    if how == 2:
        return X[::-1].copy()[::-1]
    if how == 3:
        big = np.zeros((len(X) * 2, X.shape[1]))
        big[::2] = X
        return big[::2]
    if how == 4:
        return np.round(X).astype(int)
    return X.copy()


def flat(v):
    return nums(np.asarray(v, float).reshape(-1))


def one(v):
    a = np.asarray(v, float).reshape(-1)
    return num(a[0]) if len(a) == 1 else "shape"


def life(t, fam, D, cmds, salt, drawn):
    r = np.random.RandomState(salt)
    p0 = new_par(fam, r, D)
    objs, par = {}, {}
    w_of = lambda o: nums(np.asarray(objs[o].weights, float)) if fam in ("mix", "gmm") else []
    for o in (1, 2):
        objs[o] = build(p0, D)
        par[o] = p0
        t.add("New", o=o, par=enc(p0), w=w_of(o))
    first = {}
    for c in list(cmds) + [{"op": "Again", "o": 1}, {"op": "Again", "o": 2}]:
        o, op = c["o"], c["op"]
        d, p = objs[o], par[o]
        if op in ("Eval", "Again"):
            if op == "Again" and o in first:
                X = first[o].copy()
            else:
                n = (1, 2, 5, 8)[r.randint(4)]
                X = layout(points(p, r, D, n), r.randint(5))
                first.setdefault(o, np.array(X))
            if r.rand() < .5 and X.dtype == float:      # a buffer that is evaluated, refilled and evaluated again
                keep, other = np.array(X), points(p, r, D, len(X))
                X[:] = other
                d.log_prob(X), d.prob(X)
                X[:] = keep
            keep = np.array(X)
            P, LP = d.prob(X), d.log_prob(X)
            after = np.array(X)
            P1, LP1 = [], []
            for i in range(len(keep)):
                P1.append(one(d.prob(keep[i:i + 1].copy())))
                LP1.append(one(d.log_prob(keep[i:i + 1].copy())))
            F = [[one(d.prob(keep[i].copy())), one(d.log_prob(keep[i].copy()))] for i in range(min(2, len(keep)))]
            t.add("Eval", o=o, X=rows(keep.astype(float)), X2=rows(after.astype(float)), P=flat(P), LP=flat(LP), shP=list(np.shape(P)), shLP=list(np.shape(LP)), P1=P1, LP1=LP1, F=F)
        elif op == "Move":
            if p["fam"] == "normal":
                q = new_par(fam, r, D)
                how = r.randint(4)          # everything, only the mean, only the scale, the scale by a hair
                if how == 1:
                    q["cov"] = p["cov"]
                if how >= 2:
                    q["loc"] = p["loc"]
                if how == 3:
                    q["cov"] = p["cov"] * (1 + 3e-6)
                d.set_moments(q["loc"].copy(), q["cov"].copy())
            elif p["fam"] == "exp" and fam == "exp":
                q = new_par(fam, r, D)
                d.set_moments(q["mean"].copy())
            elif p["fam"] == "mix":
                q = dict(p)
                mix = d.gmm if p["gmm"] else d
                i = r.randint(len(p["comps"]))
                ci = p["comps"][i]
                if r.rand() < .5 and ci["fam"] in ("normal", "exp"):
                    q["comps"] = list(p["comps"])
                    if ci["fam"] == "normal":
                        q["comps"][i] = nc = new_par("diag", r, D)
                        mix.models[i].set_moments(nc["loc"].copy(), nc["cov"].copy())
                    else:
                        q["comps"][i] = nc = new_par("exp-unit", r, D)
                        mix.models[i].set_moments(nc["mean"].copy())
                elif p["gmm"]:
                    continue
                else:
                    q["w"] = new_weights(r, len(p["w"]))
                    d.set_weights(q["w"].copy())
            else:
                continue
            par[o] = q
            first.pop(o, None)
            t.add("Move", o=o, par=enc(q), w=w_of(o))
        elif op == "Bad":
            bad = [np.ones((3, D + 1)), np.ones((2, 3, D)), np.ones(D + 1), np.ones((4, D + 2))]
            if D > 1:
                bad.append(np.ones((3, D - 1)))
            x = bad[r.randint(len(bad))]
            ok = True
            for f in (d.prob, d.log_prob):
                try:
                    f(x)
                    ok = False
                except Exception:
                    pass
            t.add("Bad", o=o, shape=list(x.shape), raised=ok)
        elif op == "Draw" and drawn:
            n = (1, 7, 300 if p["fam"] == "mix" else 3000)[min(2, r.randint(6))]
            X = d.sample(n)
            sh = list(np.shape(X))
            X = np.asarray(X, float).reshape(-1, D)
            cuts, corners = [], []
            comps = p["comps"] if p["fam"] == "mix" else [p]
            ref = np.array([anchors(q, D)[0] + anchors(q, D)[1] * r.uniform(-1., 1., D) for q in comps for _ in range(3)])
            if p["fam"] == "mix":       # between the components as well
                ref = np.concatenate([ref, (ref[:1] + ref) / 2])
            for x in ref:
                v = np.zeros(D)
                v[r.randint(D)] = 1.
                if all(q["fam"] == "normal" for q in comps):
                    v = r.randn(D)
                cuts.append({"v": nums(v), "t": num(float(v @ x)), "k": int(np.sum(X @ v < float(v @ x)))})
            if not any(q["fam"] == "normal" and np.count_nonzero(q["cov"] - np.diag(np.diag(q["cov"]))) for q in comps):
                for x in ref:
                    corners.append({"t": nums(x), "k": int(np.sum(np.all(X < x, axis=1)))})
            t.add("Draw", o=o, n=n, dims=D, sh=sh, rows=rows(X[:40]), cuts=cuts, corners=corners)


# family -> (dimensions, can be drawn)
FAMS = {"normal": ((1, 2, 3), True), "diag": ((1, 2, 3), True), "uniform": ((1, 2, 3), True), "uniform-scalar": ((1, 2, 3), True),
        "exp": ((1, 2, 3), True), "bd-uniform": ((1,), True), "bd-exp": ((1,), True), "maxwell": ((1,), False), "laplace": ((1,), False),
        "pareto": ((1,), False), "banana": ((2,), False), "mix": ((1, 2, 3), True), "gmm": ((1, 2), True)}


def run(chk, fams, ops):
    chk.mc("MC_Distribution", "MC_DistributionDeep" if chk.thorough else "MC_Distribution")
    behs = chk.behaviours("MC_DistCmds", "MC_DistCmdsDeep" if chk.thorough else "MC_DistCmds")
    behs = [b for b in behs if ops <= {c["op"] for c in b}]
    r = np.random.RandomState(chk.seed)
    jobs = []
    for fam in fams:
        dims, drawn = FAMS[fam]
        for i in range(2000 if chk.thorough else 90 if fam in ("mix", "gmm", "normal", "exp", "uniform") else 35):
            D = dims[i % len(dims)]
            jobs.append(("%s/%d/%d" % (fam, D, i), life, (fam, D, behs[r.randint(len(behs))], int(r.randint(1 << 30)), drawn)))
    chk.notes["histories_enumerated"] = len(behs)
    chk.validate("TraceDist", chk.drive(jobs), env={"PROP": chk.prop})
