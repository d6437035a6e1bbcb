"""Scenarios shared by C01, C02, C03, C05: lives of samplers chosen by MC_Sampler, on many configurations."""
import numpy as np
import clock
import drv
from core import nums, rows, shape


def _finite(a):
    return a


class Life:
    def __init__(self, t, conf, sp, target, draws):
        method, par, flat, conf_in = drv.CONFIGS[conf]
        self.method, self.t, self.sp = method, t, sp
        self.lo, self.hi = drv.space(sp)
        self.D = len(self.lo)
        self.target = target
        self.draws = draws
        draws.on = False
        self.m = drv.make(method, sp, dict(par))
        self.flat = flat
        t.cfg = {"lo": nums(self.lo), "hi": nums(self.hi), "dims": self.D, "flat": flat,
                 "keepset": flat or method == "hid",
                 "own": method != "tp", "conf": conf, "method": method, "nprop": par.get("N", 1), "space": sp, "target": target.kind}
        self.base = 0
        self.note("New")

    def note(self, op, **kw):
        self.t.add(op, oev=self.target.count - self.base, odr=self.draws.n, **drv.counts(self.m), **kw)

    def req(self, n, target=None, budget=None):
        """A request; with a budget under a clock which only evaluations advance (one unit each)."""
        m, tg = self.m, target or self.target
        at = len(tg.points)
        self.draws.on = True
        clock.NOW[0] = None if budget is None else 1000.
        try:
            S, W = m.importance_sample(tg, n, 20 if budget is None else budget)
            over = budget is not None and clock.NOW[0] >= 1000. + budget
        finally:
            clock.NOW[0] = None
        self.draws.on = False
        pts = tg.points[at:]
        pts = np.concatenate(pts) if pts else np.zeros((0, self.D))
        self.note("Req", n=n, cut=bool(over), hit=bool(np.any(tg.peek(S) > 0)) if np.ndim(S) == 2 else True, shS=shape(S), shW=shape(W), S=drv.as_rows(S), W=drv.as_flat(W),
                  ownS=drv.as_rows(m.samples) if self.method != "tp" else [],
                  ownW=drv.as_flat(m.weights) if self.method != "tp" else [],
                  npts=len(pts), plo=nums(pts.min(0)) if len(pts) else [], phi=nums(pts.max(0)) if len(pts) else [])
        return S, W

    def look(self):
        m = self.m
        held = m.get_stats()["n_samples"]
        m.get_stats()
        if held > 2:
            m.get_acceptance_rate()
            m.get_NESS()
            if self.method != "tp":
                m.get_approx_NESS()
            q = np.array([self.lo + f * (self.hi - self.lo) for f in (.21, .52, .83)])
            m.prob(q)
            if self.method != "hid":
                m.log_prob(q)
        self.note("Look", **self.held())

    def held(self):
        m = self.m
        return dict(ownS=drv.as_rows(m.samples) if self.method != "tp" and len(m.samples) else [],
                    ownW=drv.as_flat(m.weights) if self.method != "tp" and len(m.samples) else [])

    def reset(self):
        self.m.reset()
        self.base = self.target.count
        self.draws.n = 0
        self.note("Reset")

    def draw(self, n):
        """Ask the sampler for plain samples of its own model."""
        if self.m.get_stats()["n_samples"] == 0 and self.method not in ("dm", "lais", "mpmc"):
            return                           # a request ran out of time before there was anything to model
        self.draws.on = True
        self.m.sample(n)
        self.draws.on = False
        self.note("Draw", n=n, **self.held())


def live(t, conf, sp, kind, shift, scale, cmds, factor, alternate=False, hurry=None):
    lo, hi = drv.space(sp)
    tg = clock.Slow(kind, lo, hi, shift, scale)
    r = np.random.RandomState(hurry or 0)
    with drv.Draws() as d:
        L = Life(t, conf, sp, tg, d)
        for c in cmds:
            if c["op"] == "Req":
                L.req(c["n"] * factor, tg.twin() if alternate else None,
                      float(r.randint(1, 60)) if hurry and r.rand() < .6 else None)
            elif c["op"] == "Reset":
                L.reset()
            elif c["op"] == "Look":
                L.look()
            elif c["op"] == "Draw":
                L.draw(c["n"])


KINDS = ["gauss", "ramp", "flat", "bimodal", "ripple", "peak"]


def jobs(chk, behaviours, confined=False):
    """Every configuration meets every behaviour kind in turn; spaces and targets rotate so that each combination is
    visited over the run (thorough) or a seed-dependent part of it (quick)."""
    out = []
    r = np.random.RandomState(chk.seed)
    # keep histories with at least one request, prefer those that end in one
    beh = [b for b in behaviours if any(c["op"] == "Req" for c in b)]
    per = 14 if chk.thorough is False else 90
    for conf, (method, par, flat, cin) in drv.CONFIGS.items():
        if confined and not cin:
            continue
        for i in range(per):
            b = beh[r.randint(len(beh))]
            haar_none_dm = method == "tp" and par.get("method") != "simple"
            sps = drv.CUBIC if method == "tp" else list(drv.SPACES)
            sp = sps[(i + r.randint(2)) % len(sps)]
            kind = KINDS[(i * 5 + i // 6) % len(KINDS)]
            shift = (0.0, .3, -.55)[i % 3]
            scale = (1.0, 1.0, .2)[(i // 2) % 3] if method == "rej" else (1.0, 7.0, .02)[(i // 2) % 3]
            if method in ("nested", "multi", "tp", "hid", "mh") and kind == "peak" and i % 2:
                kind = "gauss"
            factor = 1 if i % 3 else 3
            if len(drv.SPACES[sp][0]) == 3 and method in ("rej",):
                factor = 1
            out.append(("%s/%s/%s/%+.2f/%g/%d#%d" % (conf, sp, kind, shift, scale, factor, i), live,
                        (conf, sp, kind, shift, scale, b, factor, i % 4 >= 2)))
            if i % 3 == 2:                   # some of whose requests run out of time
                out.append(("%s/%s/%s/%+.2f/%g/hurry#%d" % (conf, sp, kind, shift, scale, i), live,
                            (conf, sp, kind, shift, scale, beh[r.randint(len(beh))], 3, i % 4 >= 2, int(r.randint(1, 1 << 30)))))
        # targets of extreme scale, and targets that are zero in part of the space
        for i in range(4 if chk.thorough is False else 12):
            b = beh[r.randint(len(beh))]
            sps = drv.CUBIC if method == "tp" else list(drv.SPACES)
            sp = sps[(i * 3 + r.randint(3)) % len(sps)]
            kind, scale = [("gauss", 1e17), ("hole", 1.), ("ripple", 1e-20), ("hole", 3.)][i % 4]
            if method == "rej":
                scale = min(scale, 1.)
            if method == "mpmc" and kind == "hole" or method == "rej" and scale < 1e-9:
                continue
            out.append(("%s/%s/%s/far/%g#%d" % (conf, sp, kind, scale, i), live, (conf, sp, kind, .3, scale, b, 2, i % 2 == 1)))
        # long lives: many times the samples of one iteration, requests that are no multiples of it
        for i in range(1 if chk.thorough is False else 4):
            if method in ("rej", "nested", "multi"):     # their cost per sample grows without bound
                continue
            sp = ["off1", "unit1", "sym2", "neg1"][(i + len(out)) % 4] if method == "tp" else ["off1", "rect2", "neg1"][(i + len(out)) % 3]
            big = (len(out) + i) % 3
            b = [[{"op": "Req", "n": 151 - 20 * big}, {"op": "Look"}, {"op": "Req", "n": 187 - 9 * big}, {"op": "Req", "n": 60}, {"op": "Req", "n": 189}]][0]
            out.append(("%s/%s/long#%d" % (conf, sp, i), live, (conf, sp, ["gauss", "bimodal", "ripple"][big], .3, 1., b, 1, i % 2 == 1)))
    if confined:      # tree pyramids on boxes that are no cubes
        for i, conf in enumerate(c for c in drv.CONFIGS if drv.CONFIGS[c][0] == "tp" and drv.CONFIGS[c][3]):
            for sp in ("rect2", "box3"):
                out.append(("%s/%s/noncubic/%d" % (conf, sp, i), live, (conf, sp, "gauss", 0., 1., beh[r.randint(len(beh))], 3)))
    return out


def run(chk, confined=False):
    behs = chk.behaviours("MC_Sampler", "MC_SamplerDeep" if chk.thorough else "MC_Sampler")
    tr = chk.drive(jobs(chk, behs, confined), limit=60)
    chk.notes["behaviours_enumerated"] = len(behs)
    chk.validate("TraceSampler", tr, env={"PROP": chk.prop})
