"""C04: every life after a reset against a fresh instance with the same seed and commands."""
import numpy as np
import drv, life
from core import nums, rows


def answer(t, who, i, m, method, target, c, lo, hi):
    S = W = None
    if c["op"] == "Req":
        S, W = m.importance_sample(target, c["n"], 20)
    st = m.get_stats()
    stats = [[k, nums([v])[0]] for k, v in sorted(st.items())]
    dens, draw = [], []
    if c["op"] == "Born":        # what the sampler reports before it was asked for anything
        q = np.array([lo + f * (hi - lo) for f in (.21, .52, .83)])
        for f in (m.prob, m.log_prob):
            try:
                dens += nums(f(q))
            except Exception as e:
                dens.append("no density")
        try:
            draw = rows(np.atleast_2d(m.sample(2)).reshape(-1, len(lo)))
        except Exception as e:
            draw = [["no draw"]]
    if st["n_samples"] > 2:
        q = np.array([lo + f * (hi - lo) for f in (.21, .52, .83)])
        stats += [["acc", nums([m.get_acceptance_rate()])[0]]]
        if c["op"] == "Look":
            dens = nums(m.prob(q))
            stats += [["ness", nums([m.get_NESS()])[0]]]
            draw = rows(np.atleast_2d(m.sample(2)).reshape(-1, len(lo)))
    t.add("Ans", who=who, i=i, S=rows(S) if S is not None else [], W=nums(W) if W is not None else [],
          stats=stats, dens=dens, draw=draw)


def twin(t, conf, sp, kinds, cmds, seed, factor):
    method, par, _, _ = drv.CONFIGS[conf]
    lo, hi = drv.space(sp)
    tg = {"a": drv.Target(kinds[0], lo, hi, .3), "b": drv.Target(kinds[1], lo, hi, -.4, 3.0)}
    t.cfg = {"conf": conf, "space": sp}
    # split the behaviour into lives; every life but the first starts with a reset
    lives, cur = [], []
    for c in cmds:
        if c["op"] == "Reset":
            lives.append(cur); cur = []
        else:
            cur.append(dict(c, n=c["n"] * factor) if "n" in c else c)
    lives.append(cur)
    m = drv.make(method, sp, dict(par))
    for j, cs in enumerate(lives):
        if j:
            t.add("Birth", who="fresh")
            np.random.seed(seed + j)
            f = drv.make(method, sp, dict(par))
            for i, c in enumerate([{"op": "Born"}] + cs):
                answer(t, "fresh", i + 1, f, method, tg.get(c.get("t")), c, lo, hi)
            t.add("Birth", who="used")
            np.random.seed(seed + j)
            m.reset()
            for i, c in enumerate([{"op": "Born"}] + cs):
                answer(t, "used", i + 1, m, method, tg.get(c.get("t")), c, lo, hi)
        else:
            class Sink:
                def add(self, *a, **k):
                    pass
            for i, c in enumerate(cs):
                answer(Sink(), "past", i + 1, m, method, tg.get(c.get("t")), c, lo, hi)


def run(chk):
    behs = chk.behaviours("MC_Rebirth", "MC_RebirthDeep" if chk.thorough else "MC_Rebirth")
    # a life after the reset that asks for something
    behs = [b for b in behs if any(c["op"] == "Req" for c in b[[i for i, c in enumerate(b) if c["op"] == "Reset"][-1]:])]
    behs = [b for b in behs if b[0]["op"] == "Req"]
    r = np.random.RandomState(chk.seed)
    jobs = []
    for conf, (method, par, flat, cin) in drv.CONFIGS.items():
        for i in range(60 if chk.thorough else 10):
            b = behs[r.randint(len(behs))]
            sps = drv.CUBIC if method == "tp" else list(drv.SPACES)
            sp = sps[i % len(sps)] if i >= 3 else ["unit1", "sym2", "off3"][i]
            kinds = [life.KINDS[(i + a) % 5] for a in (0, 2)]
            jobs.append(("%s/%s/%s#%d" % (conf, sp, "-".join(kinds), i), twin,
                         (conf, sp, kinds, b, int(r.randint(1 << 30)), 1 if i % 2 else 2)))
    chk.notes["behaviours_enumerated"] = len(behs)
    chk.validate("TraceRebirth", chk.drive(jobs, limit=60))
