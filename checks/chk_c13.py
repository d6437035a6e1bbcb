"""C13: rejection sampling with scripted and random proposals and acceptance uniforms."""
import numpy as np
import clock
import drv
from core import num, nums, rows

CURRENT = None       # the proposal the sampler under test gets (its parameter is an expression)


class Recorded:
    """A proposal distribution of the repository, recorded; its first draws may be prescribed."""
    def __init__(self, inner, script, seed):
        self.inner, self.script, self.i, self.j = inner, script, 0, 0
        self.r = np.random.RandomState(seed)
        self.xs, self.us = [], []

    def sample(self, n=1):
        out = np.array(self.inner.sample(n), float)
        for a in range(len(out)):
            if self.i < len(self.script):
                out[a] = self.script[self.i]["x"]
            self.i += 1
        self.xs.extend(out.copy())
        return out

    def prob(self, x):
        return self.inner.prob(x)

    def log_prob(self, x):
        return self.inner.log_prob(x)

    def u(self, n):
        out = []
        for _ in range(n):
            out.append(float(self.script[self.j]["u"]) if self.j < len(self.script) else self.r.rand())
            self.j += 1
        self.us.extend(out)
        return np.array(out)


def life(t, sp, kind, scaling, tk, shift, scale, script, cmds, seed, hurry):
    global CURRENT
    from ais_benchmarks.distributions import CMultivariateUniform, CMultivariateNormal
    lo, hi = drv.space(sp)
    D = len(lo)
    tg = clock.Slow(tk, lo, hi, shift, scale)
    mid, half = (lo + hi) / 2, (hi - lo) / 2
    cov = np.diag((half * .8) ** 2)
    q = CMultivariateUniform({"center": mid, "radius": half}) if kind == "uniform" else CMultivariateNormal({"mean": mid, "sigma": cov})
    P = Recorded(q, [{"x": mid + half * float(s["x"]), "u": s["u"]} for s in script], seed)
    CURRENT = P
    # envelope: the densest point of the scaled proposal has `scaling` times the target's top value
    top = np.max(tg.peek(lo + np.random.RandomState(1).rand(4000, D) * (hi - lo)))
    sc = float(scaling * top / np.max(q.prob(mid.reshape(1, -1))))
    t.cfg = dict(tg.cfg(), q=kind, qc=nums(mid), qr=nums(half), qcov=rows(cov), scaling=num(sc))
    with drv.FixedUniform(P.u):
        m = drv.make("rej", sp, dict(proposal="__import__('chk_c13').CURRENT", scaling=sc))
        have, haste = 0, clock.Haste(hurry)
        for c in cmds:
            if c["op"] == "Reset":
                m.reset()
                have = 0
                t.add("Reset")
            elif c["op"] == "Req":
                a, b = len(P.xs), len(P.us)
                tg.forget()
                S, W, cut = haste.request(m, tg, c["n"])
                have = len(S)
                t.add("Req", n=c["n"], cut=cut, S=drv.as_rows(S) if len(S) else [], W=drv.as_flat(W), xs=rows(np.array(P.xs[a:]).reshape(-1, D)),
                      us=[num(u) for u in P.us[b:]], pts=rows(tg.seen()))
            elif have:
                x = np.array([lo + f * (hi - lo) for f in (.07, .33, .5, .91)])
                t.add("Look", x=rows(x), p=nums(m.prob(x)))


def run(chk):
    scripts = chk.behaviours("MC_Rejection", "MC_RejectionDeep" if chk.thorough else "MC_Rejection")
    hist = [b for b in chk.behaviours("MC_Sampler") if any(c["op"] == "Req" for c in b)]
    r = np.random.RandomState(chk.seed)
    jobs = []
    for i in range(4000 if chk.thorough else 450):
        sp = sorted(drv.SPACES)[r.randint(9)]
        kind = ("uniform", "normal")[(i // 2) % 2]
        tk = ["ramp", "gauss", "bimodal", "ripple", "peak", "flat", "hole"][r.randint(7)]
        if tk == "peak" and drv.DIMS[sp] > 1:
            tk = "bimodal"
        scaling = (1.2, 3., .6, 6.)[(i // 3) % 4]
        script = scripts[r.randint(len(scripts))] if i % 3 else []
        b = [dict(c, n=c["n"] * (1, 1, 4)[i % 3]) if c["op"] == "Req" else c for c in hist[r.randint(len(hist))]]
        jobs.append(("rej/%d/%s/%s/%s/%g/%s" % (i, sp, tk, kind, scaling, "scripted" if script else "free"), life,
                     (sp, kind, scaling, tk, (0., .3, -.5)[i % 3], (1., 5., .03)[i % 3], script, b, i + chk.seed, i + 1 if i % 5 == 4 else None)))
    chk.notes["scripts_enumerated"] = len(scripts)
    tr = chk.drive(jobs)
    chk.notes['proposals'] = sum(len(e['xs']) for t in tr for e in t['ev'] if e['op'] == 'Req')
    chk.validate("TraceRej", tr)
