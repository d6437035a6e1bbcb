"""C12: Metropolis-Hastings chains with scripted and random proposals and acceptance uniforms."""
import numpy as np
import clock
import drv
from core import num, nums, rows


class Scripted:
    """A normal proposal whose draws and acceptance uniforms follow a script; afterwards they are random."""
    def __init__(self, mean, var, script, seed):
        from ais_benchmarks.distributions import CMultivariateNormal
        D = len(mean)
        self.d = CMultivariateNormal({"mean": np.array(mean, float), "sigma": np.eye(D) * var})
        self.loc = np.array(mean, float)
        self.mean, self.var, self.D = np.array(mean, float), var, D
        self.script, self.i, self.j = script, 0, 0
        self.r = np.random.RandomState(seed)
        self.log, self.us = [], []

    def sample(self, n=1):
        out = []
        for _ in range(n):
            if self.i < len(self.script):
                d = np.full(self.D, float(self.script[self.i]["d"]))
            else:
                d = self.mean + np.sqrt(self.var) * self.r.randn(self.D)
            self.i += 1
            out.append(d)
        out = np.array(out)
        self.log.append(out)
        return out

    def log_prob(self, x):
        return self.d.log_prob(x)

    def prob(self, x):
        return self.d.prob(x)

    def u(self, n):
        out = []
        for _ in range(n):
            out.append(float(self.script[self.j]["u"]) if self.j < len(self.script) else self.r.rand())
            self.j += 1
        self.us.extend(out)
        return np.array(out)

    def rewind(self):
        self.i = self.j = 0


def life(t, sp, par, prop, script, tk, shift, cmds, shorts, seed):
    lo, hi = drv.space(sp)
    D = len(lo)
    half = float(np.mean(hi - lo)) / 2
    tg = clock.Slow(tk, lo, hi, shift)
    mean = np.array(prop["mean"][:D]) * half
    var = prop["var"] * half ** 2
    sc = [{"d": float(s["d"]) * half, "u": s["u"]} for s in script]
    P = Scripted(mean, var, [], seed)        # the first draw is the starting point
    with drv.FixedUniform(P.u):
        p = dict(par)
        if prop["own"]:
            p["proposal_sigma"] = var
            with drv.Draws() as d:
                run_life(t, sp, p, tg, P, mean, var, cmds, d, sc, half, shorts)
        else:
            p["proposal_d"] = P
            run_life(t, sp, p, tg, P, mean, var, cmds, None, sc, half, shorts)


def run_life(t, sp, par, tg, P, mean, var, cmds, d, sc, half, shorts):
    lo, hi = drv.space(sp)
    D = len(lo)

    def mark():
        return (len(d.log) if d else len(P.log)), len(P.us)

    def since(m):
        ds = [x for _, x, _ in d.log[m[0]:]] if d else P.log[m[0]:]
        return {"ds": rows(np.concatenate([np.atleast_2d(x) for x in ds])) if ds else [],
                "us": [num(u) for u in P.us[m[1]:]], "cur": nums(np.asarray(s.current_sample).reshape(-1))}
    s = drv.make("mh", sp, dict(par))
    P.script = sc
    P.rewind()
    t.cfg = dict(tg.cfg(), pmean=nums(mean), pcov=rows(np.eye(D) * var), burn=par["n_burnin"], steps=par["n_steps"])
    t.add("Born", cur=nums(np.asarray(s.current_sample).reshape(-1)))
    seen, S = False, np.zeros((0, D))
    for c in cmds:
        if c["op"] == "Reset":
            P.script = []
            s.reset()
            P.script = sc
            P.rewind()
            seen, S = False, np.zeros((0, D))
            t.add("Born", cur=nums(np.asarray(s.current_sample).reshape(-1)))
        elif c["op"] == "Req":
            m = mark()
            S, W = s.importance_sample(tg, c["n"], 20)
            t.add("Req", n=c["n"], S=drv.as_rows(S), W=drv.as_flat(W), **since(m))
            seen = True
        elif c["op"] == "Look" and seen:
            m = mark()
            X = s.sample(c.get("n", 3))
            t.add("Draw", n=c.get("n", 3), got=drv.as_rows(X), **since(m))
    # requests whose time runs out, the last of them before the burn in of a new chain is over
    for budget, n in list(shorts) + [(None, 0)] + list(shorts[:1]):
        if budget is None:
            P.script = []
            s.reset()
            S = np.zeros((0, D))
            t.add("Born", cur=nums(np.asarray(s.current_sample).reshape(-1)))
        else:
            m = mark()
            clock.NOW[0], tg.cost = 1000., 1.
            S, W = s.importance_sample(tg, len(S) + n, budget)
            clock.NOW[0] = None
            t.add("Short", n=n, S=drv.as_rows(S) if len(S) else [], W=drv.as_flat(W) if len(S) else [], **since(m))


def run(chk):
    scripts = chk.behaviours("MC_MH", "MC_MHDeep" if chk.thorough else "MC_MH", timeout=800)
    hist = [b for b in chk.behaviours("MC_Sampler") if b[-1]["op"] == "Req" or len([c for c in b if c["op"] == "Req"]) > 1]
    r = np.random.RandomState(chk.seed)
    jobs = []
    for i in range(600 if not chk.thorough else 4000):
        own = i % 3 == 2
        par = dict(n_steps=(2, 1, 3, 4)[i % 4], n_burnin=(1, 0, 4, 2, 7)[i % 5])
        sps = [s for s in sorted(drv.SPACES) if drv.DIMS[s] == 1] if i % 2 else sorted(drv.SPACES)
        sp = sps[r.randint(len(sps))]
        prop = {"own": own, "mean": [0., 0., 0.] if own else [(.1, -.2, 0., .3)[(i // 4) % 4], .05, -.1],
                "var": (.25, .05, .6)[(i // 2) % 3]}
        tk = ["ramp", "gauss", "bimodal", "ripple", "peak", "flat", "hole"][r.randint(7)]
        jobs.append(("mh/%d/%s/%s/%s-%g/%d-%d" % (i, sp, tk, "own" if own else "%g" % prop["mean"][0], prop["var"], par["n_steps"], par["n_burnin"]),
                     life, (sp, par, prop, [] if own else scripts[r.randint(len(scripts))], tk, (0., .3, -.5)[i % 3],
                            hist[r.randint(len(hist))], [(float(r.randint(1, 60)), int(r.randint(1, 30))) for _ in range(2)], i + chk.seed)))
    chk.notes["scripts_enumerated"] = len(scripts)
    chk.validate("TraceMH", chk.drive(jobs))
