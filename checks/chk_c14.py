"""C14: nested and multi-nested sampling, observed through live points and evaluated points."""
import numpy as np
import clock
import drv
from core import num, nums, rows


def life(t, method, sp, par, tk, shift, scale, cmds):
    lo, hi = drv.space(sp)
    D = len(lo)
    tg = clock.Slow(tk, lo, hi, shift, scale)
    m = drv.make(method, sp, dict(par))
    N = par["N"]
    t.cfg = dict(tg.cfg(), N=N)
    t.add("Born", live=rows(m.live_points))
    have = 0
    for c in cmds:
        if c["op"] == "Reset":
            m.reset()
            have = 0
            t.add("Born", live=rows(m.live_points))
        elif c["op"] == "Req":
            want = have + 1 if c["n"] == "one" else c["n"]
            before = np.array(m.live_points, float)
            tg.forget()
            S, W, cut = clock.request(m, tg, want, c.get("timeout", 1600) + N + .5)
            pts = tg.seen()
            if len(pts) >= N and np.array_equal(pts[:N], before):
                pts = pts[N:]
            if method == "multi":
                groups = [{"idx": [int(i) + 1 for i in np.flatnonzero(e.indices)],
                           "converged": bool(not e.volume > par["converged_radius"] ** D)} for e in m.ellipsoids]
            else:
                groups = [{"idx": list(range(1, N + 1)), "converged": False}]
            have = len(S)
            t.add("Req", n=want, S=drv.as_rows(S), W=drv.as_flat(W), before=rows(before), after=rows(m.live_points),
                  evals=rows(pts), groups=groups, patient=not cut)


def run(chk):
    for c in "ab":
        chk.mc("MC_Nested", "MC_Nested%s_%s" % ("Deep" if chk.thorough else "", c))
    hist = [b for b in chk.behaviours("MC_Sampler") if any(c["op"] == "Req" for c in b)]
    r = np.random.RandomState(chk.seed)
    jobs = []
    one = {"op": "Req", "n": "one"}
    for i in range(1600 if chk.thorough else 260):
        method = ("nested", "multi")[i % 2]
        sp = sorted(drv.SPACES)[r.randint(9)]
        if method == "nested":
            par = dict(N=(4, 9, 1, 2, 15)[(i // 2) % 5])
            if i % 3 == 0:
                w2 = float(np.mean(drv.space(sp)[1] - drv.space(sp)[0]) ** 2)
                par["proposal"] = "CMultivariateNormal({'mean': np.zeros(self.ndims), 'sigma': np.diag(np.ones(self.ndims)*%r)})" % (.4 * w2)
        else:
            par = dict(N=(12, 20, 30, 9)[(i // 2) % 4], inflate_factor=(2., 1.2, 3.)[(i // 3) % 3], converged_radius=(1e-3, .3, 1e-3)[(i // 5) % 3])
        tk = ["gauss", "ramp", "bimodal", "ripple", "bimodal", "flat"][r.randint(6)]
        b = [[dict(c) for c in hist[r.randint(len(hist))]], [one] * 7, [{"op": "Req", "n": 6}, one, one, {"op": "Reset"}, one, one, one]][i % 3]
        if i % 3 == 0:
            b = [dict(c, n=2 * c["n"]) if c["op"] == "Req" else c for c in b]
        if i % 10 in (4, 9):
            b = [dict(one, timeout=0)] * 6 if i % 20 < 10 else [{"op": "Req", "n": 7, "timeout": 0}, dict(one, timeout=0), {"op": "Req", "n": 15, "timeout": 0}]
        elif i % 10 in (1, 6):
            b = [dict(c, timeout=int(r.randint(1, 50))) if c["op"] == "Req" and r.rand() < .5 else c for c in b]
        jobs.append(("%s/%d/%s/%s/%d" % (method, i, sp, tk, par["N"]), life,
                     (method, sp, par, tk, (0., .3, -.5)[i % 3], (1., 5., .03)[(i // 2) % 3], b)))
    chk.validate("TraceNested", chk.drive(jobs))
