"""D07: nearest-neighbour models."""
import numpy as np
from core import num, nums, rows


def model(r):
    from ais_benchmarks import distributions as d
    D, n = r.randint(1, 5), int((1, 2, 7, 40)[r.randint(4)])
    scale = (1e-4, 1., 1., 50.)[r.randint(4)]
    C = r.randn(n, D) * scale + (0., 300.)[r.randint(2)] * scale
    w = r.uniform(.05, 1., n)
    if n > 2 and r.rand() < .5:              # samples which carry no weight
        w[r.permutation(n)[:n // 3 + 1]] = 0.
    if n > 2 and r.rand() < .3:              # one place twice
        C[1] = C[0]
    w = w / w.sum() * (1. if r.rand() < .7 else r.uniform(.2, 9.))
    m = d.CNearestNeighbor({"samples": C.copy(), "weights": w.copy(), "support": np.array([C.min(axis=0) - scale, C.max(axis=0) + scale])})
    return m, C, w, scale


def points(r, C, scale):
    n, D = C.shape
    out = []
    for _ in range(r.randint(1, 8)):
        mode, i, j = r.randint(5), r.randint(n), r.randint(n)
        if mode == 0:
            x = C[i].copy()
        elif mode == 1:                      # on either side of the border between two cells
            f = .5 + (1., -1.)[r.randint(2)] * (1e-3, .02, .2)[r.randint(3)]
            x = C[i] + f * (C[j] - C[i])
        elif mode == 2:
            x = C[i] + r.randn(D) * 100 * scale
        else:
            x = C[i] + r.randn(D) * scale
        out.append(x)
    return np.array(out)


def life(t, cmds, salt):
    r = np.random.RandomState(salt)
    ms = []
    for o in (1, 2):
        ms.append(model(r))
        t.add("New", o=o, C=rows(ms[-1][1]), w=nums(ms[-1][2]))
    for c in list(cmds) + [{"op": "Ask", "o": 1}, {"op": "Ask", "o": 2}]:
        m, C, w, scale = ms[c["o"] - 1]
        D = C.shape[1]
        if c["op"] == "Ask":
            X = points(r, C, scale)
            if r.rand() < .1:
                X = np.zeros((0, D))
            flat = len(X) == 1 and r.rand() < .5
            Y = X[0].copy() if flat else X.copy()
            LP = m.log_prob(Y)
            P = m.prob(Y)
            t.add("Ask", o=c["o"], X=rows(X), LP=nums(np.asarray(LP, float).reshape(-1)), P=nums(np.asarray(P, float).reshape(-1)),
                  kept=bool(np.array_equal(Y.reshape(X.shape), X) and np.shape(LP)[:1] == (len(X),) and np.shape(P)[:1] == (len(X),)))
            if r.rand() < .3:
                bad = np.zeros((3, D + 1)) if r.rand() < .5 else np.zeros(D + 1)
                try:
                    m.log_prob(bad)
                    t.add("Bad", refused=False)
                except Exception:
                    t.add("Bad", refused=True)
        else:
            n = int((1, 3, 60, 400)[r.randint(4)])
            t.add("Draw", o=c["o"], n=n, D=rows(np.asarray(m.sample(n), float).reshape(-1, D)))


def run(chk):
    chk.mc("MC_Nearest", "MC_NearestDeep" if chk.thorough else "MC_Nearest")
    behs = chk.behaviours("MC_NearestCmds", "MC_NearestCmdsDeep" if chk.thorough else "MC_NearestCmds")
    r = np.random.RandomState(chk.seed)
    jobs = [("life/%d" % i, life, (behs[r.randint(len(behs))], int(r.randint(1 << 30)))) for i in range(300 * (12 if chk.thorough else 1))]
    chk.notes["histories_enumerated"] = len(behs)
    chk.validate("TraceNearest", chk.drive(jobs))
