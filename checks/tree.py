"""C08, C09, C10: tree pyramids, bare and inside the sampler."""
import numpy as np
import drv
from core import num, nums, rows


def flat(x):
    return np.array(x, float).reshape(-1)


def leaf(n, D):
    xs = getattr(n, "coords_hist", None)
    ws = getattr(n, "weight_hist", None)
    return {"c": nums(n.center), "r": num(flat(n.radius)[0]), "level": int(n.level), "li": int(n.leaf_idx), "ni": int(n.node_idx),
            "leaf": bool(n.is_leaf()), "xs": rows(np.asarray(xs).reshape(-1, D)) if xs is not None else [],
            "ws": nums(ws) if ws is not None else []}


def dump(T, D):
    ns = list(T.nodes)
    return {"root": {"c": nums(T.root.center), "r": num(flat(T.root.radius)[0]), "level": int(T.root.level)},
            "leaves": [leaf(n, D) for n in T.leaves],
            "nodes": [{"c": nums(n.center), "r": num(flat(n.radius)[0]), "level": int(n.level), "ni": int(n.node_idx),
                       "leaf": bool(n.is_leaf()),
                       "kids": [int(c.node_idx) for c in n.children if c is not None]} for n in ns],
            "centers": rows(T.centers), "radii": nums(np.asarray(T.radii, float).reshape(len(T.radii), -1)[:, 0]),
            "flags": [bool(x) for x in T.leaves_idx]}


def cell(n):
    return {"c": nums(n.center), "r": num(flat(n.radius)[0]), "level": int(n.level)}


def finds(t, T, pts):
    for x in pts:
        n = T.find(np.array(x, float))
        t.add("Find", x=nums(x), cell=cell(n), isleaf=bool(n.is_leaf()))


def probes(T, lo, hi, r, n=6):
    """Random points, cell corners, centres and faces inside the root."""
    D = len(lo)
    out = [lo + r.rand(D) * (hi - lo) for _ in range(n)]
    ls = list(T.leaves)
    for i in range(n):
        q = ls[r.randint(len(ls))]
        c, rad = flat(q.center), flat(q.radius)[0]
        s = r.randint(-1, 2, size=D)
        out.append(c + s * rad)
    root_c, root_r = flat(T.root.center), flat(T.root.radius)[0]
    return [np.clip(x, root_c - root_r, root_c + root_r) for x in out]


def bare(t, sp, kernel, steps, seed):
    """A tree pyramid on its own, expanded in the order TLC chose (coordinates relative to a root of radius 8)."""
    from ais_benchmarks.sampling_methods.tree_pyramid import CTreePyramid
    lo, hi = drv.space(sp)
    D = len(lo)
    r = np.random.RandomState(seed)
    T = CTreePyramid(lo, hi, kernel)
    rc, rr = (lo + hi) / 2, float(np.max(hi - lo) / 2)
    t.cfg = {"rootc": nums(rc), "rootr": num(rr)}
    t.add("Tree", **dump(T, D))
    finds(t, T, probes(T, lo, hi, r, 2))
    inner = []
    for s in steps:
        want = rc + rr * np.array([float(x) for x in s["c"]]) / 8.0
        rad = rr * float(s["r"]) / 8.0
        q = [n for n in T.leaves if np.allclose(flat(n.center), want, atol=rr * 1e-9) and np.isclose(flat(n.radius)[0], rad)]
        if len(q) != 1:
            raise AssertionError("no leaf where the partition has one: %s" % (want,))
        w = cell(q[0])
        T.expand(q[0])
        inner.append(q[0])
        t.add("Expand", which=w, **dump(T, D))
        finds(t, T, probes(T, lo, hi, r, 3))
        p = inner[r.randint(len(inner))]
        try:
            T.expand(p)
            refused = False
        except Exception:
            refused = True
        t.add("Refuse", refused=refused, **dump(T, D))


def sampler(t, sp, par, tk, shift, scale, plan, seed, for_prop):
    lo, hi = drv.space(sp)
    D = len(lo)
    tg = drv.Target(tk, lo, hi, shift, scale)
    r = np.random.RandomState(seed)
    m = drv.make("tp", sp, dict(par))
    t.cfg = dict(tg.cfg(), rootc=nums((lo + hi) / 2), rootr=num(np.max(hi - lo) / 2), kernel=par["kernel"],
                 ess="none" if par["ess_target"] is None else num(par["ess_target"]), nmin=par["n_min"],
                 par=par["parallel_samples"], leafmode=par["resampling"] == "leaf")
    rounds = 0
    for c in plan:
        if c == "reset":
            m.reset()
            rounds = 0
            t.add("Reset")
            continue
        if c == "round":          # exactly one refinement round: the time budget is over after it
            held = 0 if rounds == 0 else m.get_stats()["n_samples"]
            if held == 0:
                S, W = m.importance_sample(tg, 1, 20)
            else:
                S, W = m.importance_sample(tg, held + 10 ** 6, 1e-9)
            single = held > 0
        else:
            before = m.num_target_evals
            S, W = m.importance_sample(tg, int(c), 20)
            single = False
            held = m.num_target_evals - before if rounds else m.num_target_evals - before - 1
        rounds += 1
        if for_prop == "C09":
            t.add("Tree", **dump(m.T, D))
            finds(t, m.T, probes(m.T, lo, hi, r, 4))
        else:
            resampled = par["resampling"] == "leaf" and m.num_proposal_samples > 1
            t.add("Round", single=single, rs=bool(resampled), leaves=[leaf(n, D) for n in m.T.leaves],
                  S=drv.as_rows(S), W=drv.as_flat(W))


def params(i, r):
    kernel = ("haar", "normal")[i % 2]
    ess, nmin = [(None, 5), (.9, 2), (.6, 3), (None, 1), (.97, 4), (.75, 2)][(i // 2) % 6]
    resampling = ("none", "leaf")[(i // 3) % 2]
    par = (4, 1, 7, 12, 2)[i % 5]
    if i % 11 == 10:
        ess, nmin, resampling, kernel = 1.1, 1, "leaf", "haar"
    return dict(method="simple", resampling=resampling, kernel=kernel, ess_target=ess, n_min=nmin, parallel_samples=par)


def run(chk):
    prop = chk.prop
    r = np.random.RandomState(chk.seed)
    jobs = []
    if prop == "C09":
        for d in (1, 2, 3):
            behs = chk.behaviours("Partition", "Partition%s_%d" % ("Deep" if chk.thorough else "", d))
            sps = [s for s in drv.SPACES if drv.DIMS[s] == d]
            for i, b in enumerate(behs):
                sp = sps[i % len(sps)]
                jobs.append(("bare/%s/%d" % (sp, i), bare, (sp, ("haar", "normal")[i % 2], b["steps"], i + chk.seed)))
    else:
        for c in "abc":
            chk.mc("MC_TreePyramid", "MC_TreePyramid%s_%s" % ("Deep" if chk.thorough else "", c), timeout=800)
    n = (30 if prop == "C09" else 77) * (6 if chk.thorough else 1)
    for i in range(n):
        par = params(i, r)
        sp = drv.CUBIC[i % len(drv.CUBIC)]
        if prop == "C09" and i % 4 == 3:
            par["method"] = ("dm", "mixture")[i % 8 == 7]
        tk = ["gauss", "ramp", "bimodal", "ripple", "peak", "flat"][r.randint(6 if par["ess_target"] is None else 5)]
        plan = [["round"] * 7, ["round", "round", 12, "round", "round"], ["round"] * 3 + ["reset"] + ["round"] * 4,
                [5, 15, 15, 22]][i % 4 if prop != "C10" else i % 3]
        if prop == "C10" or par["method"] == "simple":
            pass
        else:
            plan = [6, 14, "reset", 9, 18]
        jobs.append(("tp/%d/%s/%s/%s-%s-%s-%d-%d" % (i, sp, tk, par["resampling"], par["kernel"], par["ess_target"], par["n_min"],
                     par["parallel_samples"]), sampler,
                     (sp, par, tk, (0., .3, -.5)[i % 3], (1., 5., .03)[(i // 3) % 3], plan, i + chk.seed, prop)))
    if prop == "C10":          # long lives, in which leaves of several samples compete for the visits of a round
        for i in range(16 * (6 if chk.thorough else 1)):
            par = dict(method="simple", resampling=("none", "none", "leaf")[i % 3], kernel=("haar", "normal")[i // 2 % 2],
                       ess_target=(.5, .8, .7, .6)[i % 4], n_min=(3, 2, 4)[i // 4 % 3], parallel_samples=(4, 8, 3, 5, 12)[i % 5])
            sp = ("unit1", "sym2", "off1", "neg1", "off2")[i % 5]
            jobs.append(("tp/long/%d/%s/%s" % (i, sp, par["resampling"]), sampler,
                         (sp, par, ("bimodal", "ripple", "gauss", "ramp")[i % 4], (.3, -.5, 0.)[i % 3], (1., 5., .03)[i // 3 % 3],
                          ["round"] * (26 if drv.DIMS[sp] == 1 else 14), i + chk.seed, prop)))
    chk.validate("TraceTree", chk.drive(jobs), env={"PROP": prop})
