"""C06 and C07: iterations of the population samplers, observed through the draws from their proposals."""
import contextlib
import numpy as np
import clock
import drv
from core import num, nums, rows


def comps(m):
    return [(id(q), np.array(q.loc, float).reshape(-1), np.array(q.scale, float)) for q in m.proposals]


def enc(cs):
    return [{"loc": nums(l), "cov": rows(c)} for _, l, c in cs]


def alpha(m, kind):
    return np.array(m.wproposals, float) if kind == "mpmc" else np.full(len(m.proposals), 1 / len(m.proposals))


def life(t, kind, par, sp, tk, shift, scale, cmds, factor, u, hurry=None):
    lo, hi = drv.space(sp)
    D = len(lo)
    tg = clock.Slow(tk, lo, hi, shift, scale)
    w2 = float(np.mean(hi - lo) ** 2)
    sigma = par.get("rel", .05) * w2
    par = {k: v for k, v in par.items() if k != "rel"}
    par["sigma"] = sigma
    N, K = par["N"], par["K"]
    haste = clock.Haste(hurry)
    with drv.Draws() as d:
        d.on = False
        m = drv.make(kind, sp, dict(par))
        d.snap = lambda: (comps(m), alpha(m, kind))
        t.cfg = dict(tg.cfg(), kind=kind, N=N, K=K, L=par.get("L", 0), sigma=num(sigma), u=num(u), dims=D)
        t.add("Born", comps=enc(comps(m)), alpha=nums(alpha(m, kind)))
        for c in cmds:
            if c["op"] == "Reset":
                m.reset()
                t.add("Born", comps=enc(comps(m)), alpha=nums(alpha(m, kind)))
            elif c["op"] == "Look":
                q = np.array([lo + f * (hi - lo) for f in (.11, .37, .64, .9)])
                p, lp = m.prob(q), m.log_prob(q)
                t.add("Dens", Q=rows(q), P=nums(p))
                t.add("Dens", Q=rows(q), P=nums(np.exp(lp)))
                m.get_NESS() if len(m.samples) else None
            else:
                d.log.clear()
                d.on = True
                with (drv.FixedUniform(u) if kind == "lais" else contextlib.nullcontext()):
                    S, W, _ = haste.request(m, tg, c["n"] * factor)
                d.on = False
                S, W = np.asarray(S, float), np.asarray(W, float)
                its, cur = [], None
                per = K if kind == "mpmc" else N * K
                for oid, x, (cs, al) in d.log:
                    ids = [i for i, _, _ in cs]
                    own = kind == "mpmc" or oid in ids
                    if own and (cur is None or len(cur["X"]) >= per):
                        cur = {"cs": cs, "al": al, "X": [], "drawn": [0] * len(cs), "deltas": []}
                        its.append(cur)
                    x = x.reshape(-1, D)
                    if own:
                        cur["X"].extend(x)
                        if kind != "mpmc":
                            cur["drawn"][ids.index(oid)] += len(x)
                    elif cur is not None:
                        cur["deltas"].extend(x)
                at = len(S) - sum(len(i["X"]) for i in its)
                for j, it in enumerate(its):
                    nxt = (its[j + 1]["cs"], its[j + 1]["al"]) if j + 1 < len(its) else (comps(m), alpha(m, kind))
                    n = len(it["X"])
                    t.add("Iter", comps=enc(it["cs"]), alpha=nums(it["al"]), X=rows(it["X"]), drawn=it["drawn"],
                          deltas=rows(it["deltas"]) if it["deltas"] else [], next=enc(nxt[0]), nextalpha=nums(nxt[1]),
                          W=nums(W[at:at + n]) if kind == "mpmc" and at >= 0 else [])
                    at += n
                t.add("Ans", S=drv.as_rows(S), W=drv.as_flat(W))


CONF = {
    "dm-a": ("dm", dict(K=2, N=3)), "dm-b": ("dm", dict(K=1, N=4, rel=.02)), "dm-c": ("dm", dict(K=4, N=1, rel=.2)),
    "dm-d": ("dm", dict(K=1, N=1)), "dm-hole": ("dm", dict(K=6, N=5, rel=.3)),
    "dm-box": ("dm", dict(K=6, N=5, rel=.3)), "dm-needle": ("dm", dict(K=2, N=4, rel=.1)),
    "dm-many": ("dm", dict(K=1, N=250, rel=.1)),
    "lais-a": ("lais", dict(K=2, N=3, L=1)), "lais-b": ("lais", dict(K=1, N=2, L=3, rel=.02)),
    "lais-c": ("lais", dict(K=3, N=1, L=2)), "lais-d": ("lais", dict(K=1, N=4, L=1)),
    "mpmc-a": ("mpmc", dict(K=8, N=3, rel=.1)), "mpmc-b": ("mpmc", dict(K=12, N=1, rel=.3)),
    "mpmc-c": ("mpmc", dict(K=10, N=5, rel=.06)), "mpmc-d": ("mpmc", dict(K=20, N=2, rel=.1)),
}


def run(chk, kinds):
    for k in kinds:
        chk.mc("MC_Population", "MC_Population_" + k)
    behs = chk.behaviours("MC_Sampler", "MC_SamplerDeep" if chk.thorough else "MC_Sampler")
    behs = [b for b in behs if sum(c["op"] == "Req" for c in b) >= 2]
    r = np.random.RandomState(chk.seed)
    jobs = []
    for conf, (kind, par) in CONF.items():
        if kind not in kinds:
            continue
        many = conf == "dm-many"
        for i in range((12 if chk.thorough else 3) if many else 150 if chk.thorough else 20):
            b = behs[r.randint(len(behs))]
            sp = list(drv.SPACES)[(i * 2 + r.randint(2)) % len(drv.SPACES)]
            tk = conf[3:] if conf in ("dm-hole", "dm-box", "dm-needle") else ["gauss", "ramp", "flat", "bimodal", "ripple", "peak"][(i * 5 + i // 6) % 6]
            shift, scale = (0.0, .3, -.4)[i % 3], (1.0, 7.0, .02, 1e18, 1e-20)[(i // 2) % 5]
            u = (.5, .93, .2, .75)[i % 4]
            f = 1 if kind == "mpmc" and i % 2 else (2 if i % 3 else 3)
            if many:
                b, f, sp = [{"op": "Req", "n": 1}, {"op": "Req", "n": 200}], 1, list(drv.SPACES)[i * 3 % 9]
                tk = ["gauss", "bimodal", "ramp"][i % 3]
            jobs.append(("%s/%s/%s/%g/%g/u%g#%d" % (conf, sp, tk, shift, scale, u, i), life,
                         (kind, par, sp, tk, shift, scale, b, f, u, int(r.randint(1, 1 << 30)) if i % 4 == 3 else None)))
    chk.validate("TracePopulation", chk.drive(jobs))
