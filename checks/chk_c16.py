"""C16: the density a sampler reports, against the one its state defines, through lives with target changes."""
import numpy as np
import clock
import drv
from core import num, nums, rows

BASE = {"dm": "mix", "lais": "mix", "mpmc": "mix", "mh": "kde", "rej": "kde", "nested": "kde", "multi": "kde", "hid": "cells"}


def kind_of(method, par):
    if method == "tp":
        return "cells" if par["kernel"] == "haar" else "mix"
    return BASE[method]


def evaluate(m, q):
    out = []
    for f in (m.prob, m.log_prob):
        try:
            v = f(q)
            out.append(nums(np.asarray(v, float).reshape(-1)))
        except Exception as ex:
            out.append(["error " + type(ex).__name__])
    return out


def defining(m, method, par, kind, D):
    """The state that defines the density, as the specification wants it."""
    e = {"comps": [], "alpha": [], "cells": [], "raw": [], "blank": False}
    if method in ("dm", "lais", "mpmc"):
        cs = [(q.loc, q.scale) for q in m.proposals]
        al = m.wproposals if method == "mpmc" else np.full(len(cs), 1. / len(cs))
    elif method == "tp":
        w = np.array([float(np.asarray(n.weight).reshape(-1)[-1]) for n in m.T.leaves])
        e["blank"] = not np.any(w > 0)        # no cell has any mass: no density is defined
        if kind == "cells":
            e["cells"] = [{"lo": nums(np.asarray(n.center, float) - n.radius), "hi": nums(np.asarray(n.center, float) + n.radius)} for n in m.T.leaves]
            e["raw"] = nums(w)
            return e
        cs = [(n.center, np.diag(np.full(D, float(n.radius)))) for n in m.T.leaves]
        al = w / w.sum() if np.any(w > 0) else np.full(len(w), 1. / len(w))
    elif method == "hid":
        ns = [m.T.nodes[i] for i in m.T.leaves]
        e["cells"] = [{"lo": nums(np.asarray(n.center) - n.radius), "hi": nums(np.asarray(n.center) + n.radius)} for n in ns]
        e["raw"] = [num(np.mean(n.weights)) if len(n.weights) else "0" for n in ns]
        return e
    else:
        cs = [(q.loc, q.scale) for q in m.model.models]
        al = m.model.weights
    e["comps"] = [{"loc": nums(np.asarray(l, float).reshape(-1)), "cov": rows(np.asarray(c, float).reshape(D, D))} for l, c in cs]
    e["alpha"] = nums(np.asarray(al, float).reshape(-1))
    return e


def life(t, conf, sp, tk, shift, scale, cmds, factor, nkde, n0, hurry=False):
    method, par, flat, cin = drv.CONFIGS[conf]
    par = dict(par)
    lo, hi = drv.space(sp)
    D = len(lo)
    kind = kind_of(method, par)
    if kind == "kde":
        par["n_samples_kde"] = nkde
        par["kde_bw"] = bw = (.01, .003, .05)[nkde % 3] * float(np.mean(hi - lo) ** 2)
    fresh = lambda: drv.make(method, sp, dict(par))
    m = fresh()
    tg = clock.Slow(tk, lo, hi, shift, scale)
    other = clock.Slow("bimodal" if tk != "bimodal" else "gauss", lo, hi, -shift, 3.)
    t.cfg = {"kind": kind, "envelope": method == "rej", "nkde": nkde, "bw": num(bw) if kind == "kde" else "0"}
    r = np.random.RandomState(len(cmds) * 7 + n0)
    # irregular points: never on a cell boundary
    frac = [.2113, .5231, .8347, .0411, .9723, .3719]
    Q = np.array([lo + np.array([frac[(i + 2 * d) % 6] for d in range(D)]) * (hi - lo) for i in range(5)] + [hi + .2717 * (hi - lo)])
    held = 0
    slow = method in ("nested", "multi")
    mid = lo + np.array([.5123, .3711, .6317])[:D] * (hi - lo)

    def empty():
        state = np.random.get_state()
        np.random.seed(5)
        a = evaluate(m, Q)
        np.random.seed(5)
        b = evaluate(fresh(), Q)
        np.random.set_state(state)
        t.add("Empty", same=a == b)

    def state(S, grown, draws):
        P, LP = evaluate(m, Q)
        e = defining(m, method, par, kind, D)
        below, n = [], 0
        if draws and method != "mh":
            n = draws
            X = np.asarray(m.sample(n), float).reshape(-1, D)
            below = [int(np.sum(X[:, d] < mid[d])) for d in range(D)]
        t.add("State", Q=rows(Q), P=P, LP=LP, S=rows(S), grown=bool(grown), ndraw=n, below=below, mid=nums(mid), **e)

    if method in ("dm", "lais", "mpmc"):
        state(np.zeros((0, D)), False, 0)
    else:
        empty()
    use = tg
    for i, c in enumerate(cmds):
        if c["op"] == "Req":
            n = n0 + c["n"] * factor
            if slow:        # nested sampling contracts: late samples cost thousands of likelihood calls
                n = min(n, 34)
            if hurry and r.rand() < .6:      # the time of this request may run out
                clock.NOW[0] = 1000.
                try:
                    S, W = m.importance_sample(use, n, float(r.randint(1, 40)))
                finally:
                    clock.NOW[0] = None
                if len(S) == 0 and method not in ("dm", "lais", "mpmc"):
                    continue
            else:
                S, W = m.importance_sample(use, n, 20)
            S = np.asarray(S, float)
            state(S if kind == "kde" else np.zeros((0, D)), held and len(S) >= 2 * held, 250 if i == len(cmds) - 1 else 0)
            held = len(S)
            factor = factor * 2
        elif c["op"] == "Reset":
            m.reset()
            held = 0
            if method in ("dm", "lais", "mpmc"):
                state(np.zeros((0, D)), False, 0)
            else:
                empty()
            use = other if use is tg else tg
        elif held:
            if not slow:
                use = other if use is tg else tg
            state(np.asarray(m.samples, float) if kind == "kde" else np.zeros((0, D)), False, 0)


def run(chk):
    for k in ("cells", "mix", "kde"):
        chk.mc("MC_Density", ("MC_DensityDeep_" if chk.thorough else "MC_Density_") + k)
    behs = chk.behaviours("MC_Sampler", "MC_SamplerDeep" if chk.thorough else "MC_Sampler")
    behs = [b for b in behs if any(c["op"] == "Req" for c in b)]
    r = np.random.RandomState(chk.seed + 16)
    jobs = []
    for conf, (method, par, flat, cin) in drv.CONFIGS.items():
        for i in range(100 if chk.thorough else 9):
            b = behs[r.randint(len(behs))]
            sps = drv.CUBIC if method == "tp" else list(drv.SPACES)
            sp = sps[(i + r.randint(2)) % len(sps)]
            tk = ["gauss", "ramp", "flat", "bimodal", "ripple", "hole"][(i * 5 + i // 6) % 6]
            if tk == "hole" and method not in ("dm", "tp", "hid"):
                tk = "ripple"
            if method == "rej" and conf == "rej-a" and drv.DIMS[sp] > 2:
                sp = "off2"
            scale = (1., .2)[i % 2] if method == "rej" else (1., 7., .02)[(i // 2) % 3]
            jobs.append(("%s/%s/%s/%d" % (conf, sp, tk, i), life,
                         (conf, sp, tk, (0., .3, -.4)[i % 3], scale, b, (1, 4, 2)[i % 3], (40, 41, 30)[i % 3], (2, 1, 6)[i % 3], i % 3 == 1)))
    chk.validate("TraceDensity", chk.drive(jobs))
