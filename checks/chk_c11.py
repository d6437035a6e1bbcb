"""C11: the HiDaisee tree, observed after every request (most of them for a single further sample)."""
import numpy as np
import clock
import drv
from core import num, nums, rows


def path(T, n):
    """Mass of the child taken and of its sibling, at every node from the root down to leaf n."""
    out = []
    over = {id(c): p for p in T.nodes if p.left is not None for c in (p.left, p.right)}
    while id(n) in over:
        p = over[id(n)]
        out.append([num(n.q), num((p.right if n is p.left else p.left).q)])
        n = p
    return out


def dump(T):
    ls = [T.nodes[i] for i in T.leaves]
    D = T.dims
    def xs(n):
        return rows(np.asarray(n.samples, float).reshape(-1, D)) if n.samples is not None and len(n.samples) else []
    return {"leaves": [{"c": nums(n.center), "r": nums(n.radius), "xs": xs(n), "ws": nums(n.weights), "n": int(n.N), "q": num(n.q), "path": path(T, n)} for n in ls],
            "inner": [{"q": num(n.q), "ql": num(n.left.q), "qr": num(n.right.q)} for n in T.nodes if n.left is not None]}


def life(t, sp, par, tk, shift, scale, cmds, hurry=None):
    lo, hi = drv.space(sp)
    tg = clock.Slow(tk, lo, hi, shift, scale)
    with drv.Draws() as d:
        d.on = False
        m = drv.make("hid", sp, dict(par))
        t.cfg = dict(tg.cfg(), rootc=nums((lo + hi) / 2), rootr=nums((hi - lo) / 2), ess=num(par["target_ess"]), nmin=par["n_min"], tau=num(par["tau"]))
        drawn, held, haste = [], 0, clock.Haste(hurry)
        for c in cmds:
            if c == "reset":
                m.reset()
                drawn, held = [], 0
                t.add("Reset")
                continue
            want = max(held + 1 if c == 1 else c, 1)
            at = len(d.log)
            d.on = True
            S, W, _ = haste.request(m, tg, want)
            d.on = False
            new = [p for _, x, _ in d.log[at:] for p in np.atleast_2d(x)]
            drawn += new
            t.add("Tree", single=c == 1 and held > 0, new=rows(np.array(new).reshape(-1, len(lo))),
                  drawn=rows(np.array(drawn).reshape(-1, len(lo))), S=drv.as_rows(S), W=drv.as_flat(np.asarray(W, float).reshape(-1)), **dump(m.T))
            held = len(S)


def run(chk):
    for c in "ab":
        chk.mc("MC_HiDaisee", "MC_HiDaisee%s_%s" % ("Deep" if chk.thorough else "", c), timeout=800)
    r = np.random.RandomState(chk.seed)
    jobs = []
    for i in range(360 if chk.thorough else 60):
        par = dict(target_ess=(.9, .6, .97, .8, .99)[i % 5], n_min=(3, 2, 5, 1, 4, 8)[i % 6], tau=(.01, .5, 2.)[i % 3])
        sp = sorted(drv.SPACES)[(i + r.randint(9)) % 9]
        tk = ["gauss", "ramp", "bimodal", "ripple", "peak", "hole"][r.randint(6)]
        if tk == "hole" and i % 2:
            tk = "ripple"
        plan = [[5] + [1] * 35, [1] * 22 + [40] + [1] * 6, [1] * 12 + ["reset"] + [1] * 25, [17, 30, 30, 44, 1, 1, "reset", 12, 1, 1, 1]][i % 4]
        if tk == "hole":      # a leaf of zero density has no weights to speak of
            par["n_min"] = max(par["n_min"], 4)
        jobs.append(("hid/%d/%s/%s/%g-%d-%g" % (i, sp, tk, par["target_ess"], par["n_min"], par["tau"]), life,
                     (sp, par, tk, (0., .3, -.5)[i % 3], (1., 5., .03)[(i // 3) % 3], plan, i + 1 if i % 8 in (3, 5) else None)))
    chk.validate("TraceHid", chk.drive(jobs))
