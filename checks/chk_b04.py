"""B04: configuration files written here (and the shipped ones) loaded into benchmark objects."""
import os, shutil, tempfile
import numpy as np
import dist, drv
from core import num, nums, rows

OBJ = (1, 2)


def vec(r, D, a, b, nd):
    return [round(float(x), nd) for x in r.uniform(a, b, D)]


def box(r, D, nd):
    lo = vec(r, D, -6, 3, nd)
    return [lo, [round(x + y, nd) for x, y in zip(lo, vec(r, D, .5, 8, nd))]]


def target(r, i, nd, stated=False):
    """One well-formed target entry, as it goes into the file."""
    D = int(r.randint(1, 4))
    kinds = ["CMultivariateNormal", "CGaussianMixtureModel"] if stated else ["CMultivariateNormal", "CGaussianMixtureModel", "CMultivariateUniform", "CMultivariateExponential",
                                                                            "BenchDenUniform", "BenchDenExponential", "BenchDenMaxwell", "BenchDenLaplace", "BenchDenSymmetricPareto", "Banana2D"]
    ty = kinds[r.randint(len(kinds))]
    sup = stated or r.rand() < .6
    par = {}
    if ty == "CMultivariateNormal":
        par = {"mean": vec(r, D, -3, 3, nd), "sigma": dist.spd(r, D, .7).round(nd).tolist()}
        if sup:
            par["support"] = box(r, D, nd)
            if D == 1 and r.rand() < .5:
                par["support"] = [par["support"][0][0], par["support"][1][0]]
    elif ty == "CGaussianMixtureModel":
        k = int(r.randint(1, 5))
        par = {"means": [vec(r, D, -3, 3, nd) for _ in range(k)], "sigmas": [vec(r, D, .05, 2, nd) for _ in range(k)], "support": box(r, D, nd)}
        if r.rand() < .7:
            par["weights"] = vec(r, k, .05, 2, nd)
    elif ty == "CMultivariateUniform":
        par = {"center": vec(r, D, -3, 3, nd), "radius": vec(r, D, .2, 3, nd)}
    elif ty == "CMultivariateExponential":
        par = {"mean": vec(r, D, .2, 3, nd)}
        if sup:
            par["support"] = [[0.] * D, [round(9 * x, nd) for x in par["mean"]]]
    return {"name": "t%d_%d" % (i, r.randint(100)), "type": ty, "params": par, "batch_size": int(r.randint(1, 64)), "nsamples": int(r.randint(1, 3000)),
            "nsamples_eval": int(r.randint(1, 3000)), **({"tags": ["some", "tags"]} if r.rand() < .5 else {})}


def describe(y):
    """What a target entry of a file says, for the specification; and its parameters as python values."""
    ty, p = y["type"].split(".")[-1], y["params"]
    if ty == "CMultivariateNormal":
        par = {"fam": "normal", "loc": np.array(p["mean"], float), "cov": np.array(p["sigma"], float)}
        D = len(p["mean"])
    elif ty == "CGaussianMixtureModel":
        k, D = len(p["means"]), len(p["means"][0])
        par = {"fam": "mix", "gmm": True, "comps": [{"fam": "normal", "loc": np.array(m, float), "cov": np.diag(np.array(s, float))} for m, s in zip(p["means"], p["sigmas"])],
               "w": np.array(p.get("weights", [1.] * k), float)}
    elif ty == "CMultivariateUniform":
        par = {"fam": "uniform", "c": np.array(p["center"], float), "r": np.array(p["radius"], float)}
        D = len(p["center"])
    elif ty == "CMultivariateExponential":
        par, D = {"fam": "exp", "mean": np.array(p["mean"], float)}, len(p["mean"])
    elif ty == "BenchDenUniform":
        par, D = {"fam": "uniform", "c": np.array([.5]), "r": np.array([.5])}, 1
    elif ty == "BenchDenExponential":
        par, D = {"fam": "exp", "mean": np.array([1.])}, 1
    else:
        par = {"fam": {"BenchDenMaxwell": "maxwell", "BenchDenLaplace": "laplace", "BenchDenSymmetricPareto": "pareto", "Banana2D": "banana"}[ty]}
        D = 2 if ty == "Banana2D" else 1
    sup = rows(np.array(p["support"], float).reshape(2, D)) if "support" in p else []
    return {"name": y["name"], "type": ty, "par": dist.enc(par), "dims": D, "sup": sup, "batch": int(y["batch_size"]), "n": int(y["nsamples"]), "ne": int(y["nsamples_eval"])}, par


METHODS = {
    "CDeterministicMixtureAIS": lambda r: {"K": int(r.randint(2, 5)), "N": int(r.randint(2, 5)), "J": 500, "sigma": round(r.uniform(.05, .6), 3)},
    "CMixturePMC": lambda r: {"K": int(r.randint(8, 12)), "N": int(r.randint(2, 5)), "J": 500, "sigma": round(r.uniform(.05, .6), 3)},
    "CLayeredAIS": lambda r: {"K": int(r.randint(1, 4)), "N": int(r.randint(1, 4)), "J": 500, "L": int(r.randint(1, 4)), "sigma": round(r.uniform(.05, .6), 3), "mh_sigma": round(r.uniform(.05, .6), 3)},
    "CRejectionSampling": lambda r: {"scaling": int(r.randint(1, 4)), "kde_bw": .01, "n_samples_kde": 10,
                                     "proposal": "'CMultivariateUniform({\"center\": (self.space_max+self.space_min)/2, \"radius\":(self.space_max-self.space_min) / 2})'"},
    "CHiDaiseeSampling": lambda r: {"target_ess": round(r.uniform(.5, .95), 2), "n_min": int(r.randint(2, 6)), "tau": round(r.uniform(.01, .5), 2)},
    "CTreePyramidSampling": lambda r: {"method": "'simple'", "resampling": ("'leaf'", "'none'")[r.randint(2)], "kernel": ("'haar'", "'normal'")[r.randint(2)],
                                       "ess_target": round(r.uniform(.5, .95), 2), "n_min": int(r.randint(2, 6)), "parallel_samples": int(r.randint(1, 20))},
    "CMetropolisHastings": lambda r: {"n_burnin": int(r.randint(1, 5)), "n_steps": int(r.randint(1, 4)), "proposal_sigma": round(r.uniform(.1, .9), 2), "kde_bw": .02, "n_samples_kde": 10},
    "CMultiNestedSampling": lambda r: {"proposal": "'CMultivariateNormal({\"mean\": np.zeros(self.ndims), \"sigma\": np.diag(np.ones(self.ndims) * 0.5)})'", "N": int(r.randint(5, 9)),
                                       "converged_radius": .01, "kde_bw": .1, "n_samples_kde": 10, "inflate_factor": round(r.uniform(1., 1.5), 2)},
    "CNestedSampling": lambda r: {"proposal": "'CMultivariateNormal({\"mean\": np.zeros(self.ndims), \"sigma\": np.diag(np.ones(self.ndims) * 0.5)})'", "N": int(r.randint(5, 9)),
                                  "kde_bw": .1, "n_samples_kde": 10},
}


def method(r, i):
    ty = list(METHODS)[r.randint(len(METHODS))]
    return {"name": "m%d_%d" % (i, r.randint(100)), "type": ty, "debug": bool(r.randint(2)), "params": METHODS[ty](r)}


def broken_target(r, y):
    y = dict(y, params=dict(y["params"]))
    how = r.randint(4)
    req = {"CMultivariateNormal": ["mean", "sigma"], "CGaussianMixtureModel": ["means", "sigmas", "support"], "CMultivariateUniform": ["center", "radius"], "CMultivariateExponential": ["mean"]}
    if how == 0 and y["type"] in req:
        del y["params"][req[y["type"]][r.randint(len(req[y["type"]]))]]
    elif how == 1 and y["type"] == "CMultivariateNormal":
        D = len(y["params"]["mean"])
        y["params"]["sigma"] = [np.zeros((D, D)).tolist(), np.eye(D + 1).tolist(), (-np.eye(D)).tolist() if D % 2 else np.ones((D, D)).tolist()][r.randint(3)]
    elif how == 2:
        del y[("name", "type", "params", "batch_size", "nsamples", "nsamples_eval")[r.randint(6)]]
    else:
        y["type"] = ("CNoSuchDistribution", "CMultivariateNormall", "nothing.Banana2D")[r.randint(3)]
    return y


def broken_method(r, y):
    y = dict(y, params=dict(y["params"]))
    need = {"CDeterministicMixtureAIS": ["K", "N", "J", "sigma"], "CMixturePMC": ["K", "N", "J", "sigma"], "CLayeredAIS": ["K", "N", "L", "sigma"], "CRejectionSampling": ["scaling"],
            "CHiDaiseeSampling": ["target_ess", "n_min", "tau"], "CTreePyramidSampling": ["method", "n_min", "kernel"], "CMetropolisHastings": ["n_burnin", "n_steps"],
            "CMultiNestedSampling": ["N"], "CNestedSampling": ["N"]}[y["type"]]
    how = r.randint(3)
    if how == 0:
        del y["params"][need[r.randint(len(need))]]
    elif how == 1:
        del y[("name", "type", "params", "debug")[r.randint(4)]]
    else:
        y["type"] = ("CNoSuchMethod", "CMixturePMCC")[r.randint(2)]
    return y


def dump(path, key, entries, r):
    import yaml
    with open(path, "w") as f:
        yaml.safe_dump({key: entries}, f, default_flow_style=(None, False)[r.randint(2)], sort_keys=bool(r.randint(2)))


def held(b):
    T = [{"name": t.name, "cls": type(t).__name__, "dims": int(t.dims), "ndims": int(b.ndims[i]), "sup": rows(t.support()), "batch": int(b.batch_sizes[i]), "n": int(b.nsamples[i]),
          "ne": int(b.eval_sampl[i])} for i, t in enumerate(b.targets) if i < min(len(b.ndims), len(b.batch_sizes), len(b.nsamples), len(b.eval_sampl))]
    if not len(T) == len(b.ndims) == len(b.batch_sizes) == len(b.nsamples) == len(b.eval_sampl) == len(b.targets):
        T = [{"name": "uneven", "cls": "", "dims": 0, "ndims": 0, "sup": [], "batch": 0, "n": 0, "ne": 0}] * 9
    M = [{"name": m.name, "cls": type(m).__name__, "debug": bool(m.debug), "dims": int(m.ndims), "box": rows([m.space_min, m.space_max])} for m in b.methods]
    return {"targets": T, "methods": M, "config": {"metrics": list(b.metrics), "nreps": int(b.n_experiments), "rseed": int(b.rseed), "text": bool(b.debug_text), "show": bool(b.debug_plot),
                                                   "save": bool(b.debug_plot_save), "plots": bool(b.generate_plots), "dpi": int(b.plot_dpi)}}


def both(bs):
    return [held(bs[o]) for o in OBJ]


def deep_targets(b, pars, r):
    out = []
    for t, p in zip(b.targets, pars):
        X = dist.points(p, r, t.dims, 5)
        out.append({"X": rows(X), "P": nums(t.prob(X.copy())), "LP": nums(t.log_prob(X.copy()))})
    return out


def literal(v):
    return eval(v) if isinstance(v, str) else v


def deep_methods(b, entries, r):
    import ais_benchmarks.sampling_methods as sm
    out = []
    for m, y in zip(b.methods, entries):
        twin = getattr(sm, y["type"])({"space_min": m.space_min.copy(), "space_max": m.space_max.copy(), "dims": m.ndims, **{k: literal(v) for k, v in y["params"].items()}})
        g, kind, seed = {}, ("gauss", "bimodal")[r.randint(2)], int(r.randint(1 << 30))
        for a, x in (("", m), ("2", twin)):
            np.random.seed(seed)
            x.reset()
            S, W = x.importance_sample(drv.Target(kind, m.space_min, m.space_max, .1), 8, timeout=60)
            g["S" + a], g["W" + a] = rows(S), nums(W)
        out.append(g)
    return out


def load_targets(t, bs, o, path, ys, r):
    bs[o].load_benchmark(path)
    d = [describe(y) for y in ys]
    t.add("Targets", o=o, file=[x for x, _ in d], deep=deep_targets(bs[o], [p for _, p in d], r), held=both(bs))


def load_methods(t, bs, o, path, ys, i, r):
    b = bs[o]
    tg = b.targets[i]
    lo, hi = tg.support()
    b.load_methods(path, lo, hi, b.ndims[i])
    t.add("Methods", o=o, box=rows([lo, hi]), dims=int(b.ndims[i]), file=[{"name": y["name"], "type": y["type"], "debug": bool(y["debug"])} for y in ys], deep=deep_methods(b, ys, r), held=both(bs))


def load_config(t, bs, o, path, r):
    import yaml
    c = yaml.safe_load(open(path))
    np.random.seed(int(r.randint(1 << 30)))
    s = np.random.get_state()
    want = np.random.RandomState()
    want.set_state(s)
    if c["rseed"] >= 0:
        want = np.random.RandomState(c["rseed"])
    bs[o].load_config(path)
    t.add("Config", o=o, next=num(np.random.rand()), want=num(want.rand()), held=both(bs),
          file={"metrics": c["metrics"], "nreps": c["nreps"], "rseed": c["rseed"], "text": c["debug"]["text"], "show": c["debug"]["plot"]["show"], "save": c["debug"]["plot"]["save"],
                "plots": c["output"]["make_plots"], "dpi": c["output"]["plots_dpi"]})


def objects():
    from ais_benchmarks.benchmark.CBenchmark import CBenchmark
    return {o: CBenchmark() for o in OBJ}


def history(t, cmds, exact, salt):
    r = np.random.RandomState(salt)
    nd = 3 if exact else 12
    bs = objects()
    d = tempfile.mkdtemp(prefix="vbench")
    stated = {o: [] for o in OBJ}
    try:
        for n, c in enumerate(cmds):
            o, op, f = c["o"], c["op"], os.path.join(d, "f%d.yaml" % n)
            if op in ("Targets", "BadTargets"):
                k = int(r.randint(1, 4))
                at = r.randint(k)
                ys = [target(r, i, nd, exact and i == at) for i in range(k)]
                stated[o] = [at] if exact else list(range(k))
                if op == "BadTargets":
                    i = r.randint(k)
                    ys[i] = broken_target(r, ys[i])
                dump(f, "targets", ys, r)
                if op == "Targets":
                    load_targets(t, bs, o, f, ys, r)
                    continue
            elif op in ("Methods", "BadMethods"):
                k = int(r.randint(1, 4))
                ys = [method(r, i) for i in range(k)]
                i = stated[o][r.randint(len(stated[o]))]
                if op == "BadMethods":
                    j = r.randint(k)
                    ys[j] = broken_method(r, ys[j])
                dump(f, "methods", ys, r)
                if op == "Methods":
                    load_methods(t, bs, o, f, ys, i, r)
                    continue
            else:
                allm = ["KLD", "JSD", "MEM", "T", "EVMSE", "NESS"]
                import yaml
                with open(f, "w") as h:
                    yaml.safe_dump({"nreps": int(r.randint(1, 50)), "rseed": int(r.randint(-3, 20)), "metrics": [allm[i] for i in r.permutation(6)[:r.randint(0, 7)]],
                                    "debug": {"text": bool(r.randint(2)), "plot": {"show": bool(r.randint(2)), "save": bool(r.randint(2)), "path": "x/"}},
                                    "output": {"file": "x", "make_plots": bool(r.randint(2)), "plots_path": "y/", "plots_dpi": int(r.randint(50, 900))}}, h)
                load_config(t, bs, o, f, r)
                continue
            raised = False
            try:
                if op == "BadTargets":
                    bs[o].load_benchmark(f)
                else:
                    lo, hi = bs[o].targets[i].support()
                    bs[o].load_methods(f, lo, hi, bs[o].ndims[i])
            except Exception:
                raised = True
            t.add(op, o=o, raised=raised, held=both(bs))
    finally:
        shutil.rmtree(d)


def shipped(t, what, salt):
    import yaml
    import ais_benchmarks.benchmark as pkg
    r = np.random.RandomState(salt)
    bs = objects()
    f = lambda n: os.path.join(os.path.dirname(pkg.__file__), n)
    if what == "benchden":
        ys = yaml.safe_load(open(f("benchden/def_benchmark_benchden.yaml")))["targets"]
        try:
            bs[1].load_benchmark(f("benchden/def_benchmark_benchden.yaml"))
            names = [x.name for x in bs[1].targets]
        except Exception:
            names = ["refused"]
        t.add("Shipped", names=names, want=[y["name"] for y in ys])
        return
    ys = yaml.safe_load(open(f("def_benchmark.yaml")))["targets"]
    ms = yaml.safe_load(open(f("def_methods.yaml")))["methods"]
    load_config(t, bs, 1, f("def_config.yaml"), r)
    load_targets(t, bs, 1, f("def_benchmark.yaml"), ys, r)
    load_methods(t, bs, 1, f("def_methods.yaml"), ms, int(r.randint(len(ys))), r)


def written(t, raw, salt):
    """A mixture describes itself; the description is loaded again."""
    import yaml
    from ais_benchmarks.distributions import CGaussianMixtureModel
    r = np.random.RandomState(salt)
    bs = objects()
    d = tempfile.mkdtemp(prefix="vbench")
    try:
        ys, orig = [], []
        for i in range(r.randint(1, 4)):
            y = target(r, i, 12, True)
            while y["type"] != "CGaussianMixtureModel":
                y = target(r, i, 12, True)
            as_array = r.rand() < .5
            g = CGaussianMixtureModel({k: np.array(v) if as_array else v for k, v in y["params"].items()})
            z = g.to_dict(name=y["name"], batch_size=y["batch_size"], nsamples=y["nsamples"], nsamples_eval=y["nsamples_eval"])
            if not raw:
                z["type"] = z["type"].split(".")[-1]
            ys.append(z)
            orig.append(y)
        with open(os.path.join(d, "x.yaml"), "w") as h:
            yaml.safe_dump({"targets": ys}, h)
        if raw:
            try:
                bs[1].load_benchmark(os.path.join(d, "x.yaml"))
                names = [x.name for x in bs[1].targets]
            except ValueError:
                names = ["refused"]
            t.add("Shipped", names=names, want=[y["name"] for y in orig])
        else:
            load_targets(t, bs, 1, os.path.join(d, "x.yaml"), orig, r)
    finally:
        shutil.rmtree(d)


def run(chk):
    import ais_benchmarks.benchmark.CBenchmark        # loaded once, before the workers are forked
    behs = chk.behaviours("MC_Config", "MC_ConfigDeep" if chk.thorough else "MC_Config")
    good = [b for b in behs if {"Targets", "Methods"} <= {c["op"] for c in b}]
    chk.notes["histories_enumerated"] = len(behs)
    r = np.random.RandomState(chk.seed)
    s = lambda: int(r.randint(1 << 30))
    k = 12 if chk.thorough else 1
    jobs = [("any/%d" % i, history, (behs[r.randint(len(behs))], True, s())) for i in range(150 * k)]
    jobs += [("full/%d" % i, history, (good[r.randint(len(good))], True, s())) for i in range(250 * k)]
    jobs += [("precise/%d" % i, history, (good[r.randint(len(good))], False, s())) for i in range(60 * k)]
    jobs += [("shipped/%d" % i, shipped, ("default", s())) for i in range(4 * k)]
    jobs += [("shipped-benchden", shipped, ("benchden", s()))]
    jobs += [("described/%d" % i, written, (False, s())) for i in range(20 * k)]
    jobs += [("described-raw/%d" % i, written, (True, s())) for i in range(2)]
    chk.validate("TraceConfig", chk.drive(jobs))
