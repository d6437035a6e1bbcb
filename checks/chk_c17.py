"""C17: requests with a time budget, under a clock which only the target's evaluations advance."""
import numpy as np
import clock
import drv
from core import num, nums, rows

FULL = {"N": 1, "K": 1, "L": 1, "n_burnin": 0, "n_steps": 1, "parallel": 1, "simple": False}


def params(method, par):
    p = {k: par.get(k, v) for k, v in FULL.items()}
    p["parallel"] = par.get("parallel_samples", 1)
    p["simple"] = par.get("method") == "simple"
    return p


def life(t, cf, sp, tk, shift, cmds, salt):
    r = np.random.RandomState(salt)
    me, par, flat, _ = drv.CONFIGS[cf]
    lo, hi = drv.space(sp)
    few = me in ("nested", "multi")
    clock.NOW[0] = float(1000 + r.randint(1000))
    try:
        np.random.seed(salt % 1000)
        m = drv.make(me, sp, dict(par))
        np.random.seed(salt % 1000)
        tw = drv.make(me, sp, dict(par))
        tg, tt = clock.Slow(tk, lo, hi, shift), clock.Slow(tk, lo, hi, shift)
        tg.cost = tt.cost = cost = (1., .25, 16.)[r.randint(3)]
        t.cfg = {"method": me, "p": params(me, par), "D": len(lo), "flat": flat}
        total, done, cut = 0, 0, False
        mark = tg.count
        for c in cmds:
            if c["op"] == "Reset":
                s = r.randint(1 << 30)
                for x in (m, tw):
                    np.random.seed(s)
                    x.reset()
                total, done, cut, mark = 0, 0, False, tg.count
                t.add("Reset")
                continue
            n = total + (min(c["n"], 9) if few else c["n"])
            budget = {"ample": 3000., "short": float(r.randint(2, 40)), "tiny": .5}[c["b"]] * cost
            s = r.randint(1 << 30)
            np.random.seed(s)
            tg.ev, t0 = [], clock.NOW[0]
            before = tg.count
            S, W = m.importance_sample(tg, n, budget)
            t1, ev = clock.NOW[0], tg.ev
            tg.ev = None
            st = m.get_stats()
            evals, counted = tg.count - mark, int(st["target_evals"])
            ok = int(st["n_samples"]) == len(S) and np.shape(S)[1:] == ((len(lo),) if len(S) else np.shape(S)[1:])
            if len(S) and me != "mh":
                P = np.asarray(m.prob(np.array([(lo + hi) / 2, lo + .3 * (hi - lo)])), float).reshape(-1)
                ok = ok and len(P) == 2 and np.all(np.isfinite(P)) and np.all(P >= 0)
            seen = set(x.tobytes() for p in tg.points for x in p)
            asked = sum(np.array(x, float).tobytes() in seen for x in S)
            cut = cut or t1 >= t0 + budget
            TS, TW = [], []
            if not cut:
                np.random.seed(s)
                TS, TW = tw.importance_sample(tt, n, budget * 1000)
            late = t0 + budget
            t.add("Req", n=n, S=drv.as_rows(S) if len(S) else [], W=drv.as_flat(W) if len(S) else nums(np.asarray(W).reshape(-1)), rows=len(S),
                  TS=drv.as_rows(TS) if len(TS) else [], TW=drv.as_flat(TW) if len(TS) else [], t0=num(t0), t1=num(t1), budget=num(budget),
                  ev=[{"t": num(w), "k": k} for w, k in ev if w >= late - 2 * cost], made=done + sum(k for w, k in ev if w < late), counted=counted, evals=evals, asked=asked,
                  answers=bool(ok))
            total, done = len(S), done + tg.count - before
    finally:
        clock.NOW[0] = None


def run(chk):
    chk.mc("MC_Budget", "MC_BudgetDeep" if chk.thorough else "MC_Budget")
    behs = chk.behaviours("MC_BudgetCmds", "MC_BudgetCmdsDeep" if chk.thorough else "MC_BudgetCmds")
    r = np.random.RandomState(chk.seed)
    cfs, sps = sorted(drv.CONFIGS), sorted(drv.SPACES)
    jobs = []
    for i in range(len(cfs) * 20 * (12 if chk.thorough else 1)):
        cf = cfs[i % len(cfs)]
        ok = drv.CUBIC if drv.CONFIGS[cf][0] in ("tp", "hid") else sps
        sp = ok[r.randint(len(ok))]
        tk = ["ramp", "gauss", "bimodal", "ripple", "peak", "flat"][r.randint(6)]
        if drv.CONFIGS[cf][0] == "mh" and i // len(cfs) % 2:
            tk = "spike"
        jobs.append(("%s/%s/%s/%d" % (cf, sp, tk, i), life, (cf, sp, tk, (0., .3, -.5)[r.randint(3)], behs[r.randint(len(behs))], int(r.randint(1 << 30)))))
    chk.notes["histories_enumerated"] = len(behs)
    chk.validate("TraceBudget", chk.drive(jobs))
