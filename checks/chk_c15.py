"""C15: effective sample size and acceptance rate, of samplers after requests and of prescribed sets."""
import hashlib
import numpy as np
import clock
import drv
from core import num, nums, rows

KIND = {"dm": "weights", "lais": "weights", "mpmc": "weights", "hid": "weights", "tp": "weights",
        "nested": "entropy", "multi": "entropy", "mh": "chain", "rej": "chain"}


def held(m, method):
    if method == "tp":
        return m._get_samples()
    return m.samples, m.weights


def digest(m, method, q):
    S, W = held(m, method)
    h = hashlib.sha1()
    for a in (S, W):
        h.update(np.ascontiguousarray(np.array(a, float)).tobytes())
    s = m.get_stats()
    h.update(repr([(k, s[k]) for k in ("target_evals", "proposal_samples", "proposal_evals", "n_samples")]).encode())
    if q is not None:
        h.update(np.array(m.prob(q), float).tobytes())
    return h.hexdigest()


def ask(t, m, method, drawn, q, injected=False):
    d0 = digest(m, method, q)
    ness = num(m.get_NESS())
    rate = "none" if drawn is None else num(m.get_acceptance_rate())
    approx = "none" if method == "tp" else num(m.get_approx_NESS())
    ness2 = num(m.get_NESS())
    rate2 = "none" if drawn is None else num(m.get_acceptance_rate())
    d1 = digest(m, method, q)
    S, W = held(m, method)
    stat = m.get_stats().get("NESS") if method == "tp" else None
    t.add("Ask", S=rows(S), W=nums(W), drawn=drawn or 0, ness=ness, ness2=ness2, approx=approx, rate=rate, rate2=rate2,
          same=d0 == d1, stat="none" if stat is None else num(stat))


def life(t, conf, sp, tk, shift, scale, cmds, factor, hurry=None):
    method, par, flat, cin = drv.CONFIGS[conf]
    lo, hi = drv.space(sp)
    tg = clock.Slow(tk, lo, hi, shift, scale)
    t.cfg = {"kind": KIND[method]}
    haste = clock.Haste(hurry)
    q = np.array([lo + f * (hi - lo) for f in (.21, .52, .83)])
    with drv.Draws() as d:
        d.on = False
        m = drv.make(method, sp, dict(par))
        have = False
        for c in cmds:
            if c["op"] == "Reset":
                m.reset()
                d.n, have = 0, False
            elif c["op"] == "Req":
                d.on = True
                # nested sampling contracts: late samples cost any number of likelihood calls
                S, _, _ = haste.request(m, tg, c["n"] * (min(factor, 2) if method in ("nested", "multi") else factor), 3000. if method in ("nested", "multi") else 1e9)
                d.on = False
                have = len(S) > 0
                if have:
                    ask(t, m, method, d.n, q)


def prescribed(t, conf, sp, sets):
    """A sampler holding a set chosen here: scaled weights, single samples, equal weights, wild weights."""
    method, par, flat, cin = drv.CONFIGS[conf]
    t.cfg = {"kind": KIND[method]}
    m = drv.make(method, sp, dict(par))
    for S, W in sets:
        m.samples, m.weights = np.array(S, float), np.array(W, float)
        m._num_q_samples = len(W) + 3
        ask(t, m, method, len(W) + 3, None)


def run(chk):
    chk.mc("MC_Quality", "MC_QualityDeep" if chk.thorough else "MC_Quality", timeout=800)
    hist = [b for b in chk.behaviours("MC_Sampler") if any(c["op"] == "Req" for c in b)]
    r = np.random.RandomState(chk.seed)
    jobs = []
    for conf, (method, par, flat, cin) in drv.CONFIGS.items():
        for i in range(60 if chk.thorough else 9):
            sps = drv.CUBIC if method == "tp" else sorted(drv.SPACES)
            sp = sps[r.randint(len(sps))]
            tk = ["gauss", "ramp", "flat", "bimodal", "ripple", "gauss"][r.randint(6)]
            jobs.append(("%s/%s/%s/%d" % (conf, sp, tk, i), life, (conf, sp, tk, (0., .3, -.55)[i % 3], (1., .2)[i % 2] if method == "rej" else (1., 7., .02)[i % 3],
                         hist[r.randint(len(hist))], (1, 4, 9)[i % 3], int(r.randint(1, 1 << 30)) if i % 3 == 1 else None)))
        if method == "tp":
            continue
        for i in range(12 if chk.thorough else 4):
            D = drv.DIMS["off2" if i % 2 else "off1"]
            sets = []
            for n in (1, 2, 3, 5, 17, 40):
                S = np.cumsum(r.randn(n, D), axis=0) if i % 4 < 2 else r.randn(n, D) * 10 ** r.randint(-3, 3)
                W = r.rand(n) ** (1, 6)[i % 2] * 10.0 ** r.randint(-6, 6) if n != 5 else np.full(n, 3.7)
                if KIND[method] == "entropy":
                    W = W / W.sum()
                sets.append((S.tolist(), W.tolist()))
            jobs.append(("set/%s/%d" % (conf, i), prescribed, (conf, "off2" if i % 2 else "off1", sets)))
    chk.validate("TraceQuality", chk.drive(jobs))
