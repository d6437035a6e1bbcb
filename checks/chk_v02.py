"""V02: drawing samplers and distributions on matplotlib axes."""
import hashlib, warnings
import numpy as np
from core import num, nums, rows
import drv

MAXPTS = 12


def thin(n, r, most=MAXPTS):
    """Indices of a few positions out of n, both ends included."""
    if n <= most:
        return list(range(n))
    return sorted({0, n - 1} | set(int(i) for i in r.randint(1, n - 1, most - 2)))


def digest(parts):
    out = []
    for p in parts:
        if isinstance(p, dict):
            out.append(tuple(sorted((k, float(v)) for k, v in p.items())))
        else:
            out.append(np.asarray(p, float).tobytes())
    return out


def brief(d):
    return hashlib.sha1(repr(d).encode()).hexdigest()


class Scene:
    """Two axes of one figure; the second is the current one while the first is drawn on, and the other way round."""
    def __init__(self, D, r):
        import matplotlib
        matplotlib.use("Agg")
        import matplotlib.pyplot as plt
        self.plt, self.fig = plt, plt.figure()
        kw = {"projection": "3d"} if D == 3 else {}
        first, second = self.fig.add_subplot(121, **kw), self.fig.add_subplot(122)
        self.ax, self.other = first, second
        plt.sca(first if r.rand() < .5 else second)
        self.ids, self.keep, self.D = {}, [], D
        self.held = []

    def id(self, a):
        if id(a) not in self.ids:
            self.ids[id(a)] = len(self.ids) + 1
            self.keep.append(a)             # never reuse an address
        return self.ids[id(a)]

    def kids(self):
        a = self.ax
        return [x for x in list(a.lines) + list(a.collections) + list(a.patches) + list(a.texts) + list(a.images) + list(a.tables)]

    def elsewhere(self):
        o = self.other
        return (len(o.get_children()), o.get_xlim(), o.get_ylim(), o.get_title(), len(self.plt.get_fignums()), self.plt.gca() is self.ax)


def describe(e, sc, new, lo, hi, fs, fs2, r):
    """What the new elements show: curves, stems, contours, boxes, marks."""
    from matplotlib.lines import Line2D
    from matplotlib.collections import LineCollection, PathCollection, PatchCollection
    from matplotlib.contour import ContourSet
    D = sc.D
    groups, stems, contours, boxes, marks, labels = {}, [], [], [], [], []
    for a in new:
        lab = a.get_label()
        if lab and not str(lab).startswith("_"):
            labels.append(str(lab))
        if isinstance(a, ContourSet):
            pts, lv = [], []
            paths = a.get_paths()
            for L, p in zip(a.levels, paths):
                v = np.asarray(p.vertices, float)
                if len(v) == 0:
                    continue
                for i in thin(len(v), r, 6):
                    pts.append(v[i]); lv.append(L)
            pts = np.array(pts).reshape(-1, 2)
            contours.append({"lv": nums(lv), "dens": [nums(np.asarray(f(pts), float).reshape(-1)) for f in fs2] if len(pts) else [[] for _ in fs2]})
        elif isinstance(a, PatchCollection):
            for p in a.get_paths():
                v = np.asarray(p.vertices, float)
                boxes.append({"lo": nums(v.min(axis=0)), "hi": nums(v.max(axis=0))})
        elif isinstance(a, LineCollection):
            for s in a.get_segments():
                s = np.asarray(s, float)
                stems.append({"x": num(s[0][0]), "from": num(s[0][1]), "to": num(s[-1][1])})
        elif isinstance(a, PathCollection):
            for p in np.asarray(a.get_offsets(), float):
                marks.append({"pos": nums(p), "sym": "o"})
        elif isinstance(a, Line2D):
            xyz = [np.asarray(c, float).reshape(-1) for c in (a.get_data_3d() if D == 3 else a.get_data())]
            n = len(xyz[0])
            if n == 1:
                marks.append({"pos": nums([c[0] for c in xyz]), "sym": str(a.get_marker())})
            elif D == 3:
                boxes.append({"lo": nums([c.min() for c in xyz]), "hi": nums([c.max() for c in xyz])})
            elif D == 1 and n == 2 and xyz[0][0] == xyz[0][1]:
                stems.append({"x": num(xyz[0][0]), "from": num(xyz[1][0]), "to": num(xyz[1][1])})
            elif D == 1:
                key = (n, float(xyz[0][0]), float(xyz[0][-1]))
                if key not in groups:
                    idx = thin(n, r)
                    x = xyz[0][idx]
                    groups[key] = (idx, {"x": nums(x), "ys": [], "want": [nums(np.asarray(f(x.reshape(-1, 1)), float).reshape(-1)) for f in fs]})
                idx, g = groups[key]
                g["ys"].append(nums(xyz[1][idx]))
    hmax = max([abs(float(s["to"])) for s in stems], default=0.)
    e.update(groups=[g for _, g in groups.values()], stems=stems, hmax=num(hmax), contours=contours, boxes=boxes, marks=marks, labels=labels,
             lo=nums(lo), hi=nums(hi))


def cwant(fs2, lo, hi):
    """How high each density to be contoured rises; None where it is too flat to have contours."""
    g = np.array(np.meshgrid(np.linspace(lo[0], hi[0], 101), np.linspace(lo[1], hi[1], 101))).T.reshape(-1, 2)
    out = []
    for f in fs2:
        v = np.asarray(f(g), float).reshape(-1)
        out.append(float(v.max()) if v.max() - v.min() > 1e-3 * v.max() else None)
    return out


def normal(m, v, w):
    return {"kind": "normal", "mean": num(m), "var": num(v), "w": num(w)}


def expect_sampler(m, method, D, W):
    """What a drawing of this sampler has to show."""
    fs, fs2, comps, samples, cells, points = [], [], [], [], [], []
    if D == 1 and method != "hid":
        fs.append(m.prob)
    if D == 1:
        if method == "hid":
            fs.append(m.prob)
        if method in ("dm", "lais", "mpmc", "hid"):
            for q, w in zip(m.model.models, m.model.weights):
                if method == "hid":
                    s = np.asarray(q.support(), float).reshape(2)
                    comps.append({"kind": "uniform", "lo": num(s[0]), "hi": num(s[1]), "w": num(float(w))})
                else:
                    comps.append(normal(np.ravel(q.loc)[0], np.ravel(q.scale)[0], float(w)))
            samples = [{"x": num(np.ravel(s)[0]), "w": num(float(np.ravel(w)[0]))} for s, w in zip(m.samples, m.weights)]
        elif method == "rej":
            fs.append(super(type(m), m).prob)
        elif method == "tp" and m.kernel == "normal":
            for n in m.T.leaves:
                comps.append(normal(np.ravel(n.sampler.loc)[0], np.ravel(n.sampler.scale)[0], float(np.ravel(n.weight)[0])))
    if D == 2 and method not in ("tp", "hid"):
        if method != "rej":             # a constant within the space
            fs2.append(m.prob)
        if method in ("dm", "lais", "mpmc"):
            k = len(m.proposals)
            for q in m.proposals[:3]:
                fs2.append(lambda x, q=q: q.prob(x) / k)
            points += [{"pos": nums(np.ravel(q.loc)), "sym": "any"} for q in m.proposals]
    if method == "tp" and D > 1:
        cells = [(np.ravel(n.center) - np.ravel(n.radius), np.ravel(n.center) + np.ravel(n.radius)) for n in m.T.leaves]
    elif method == "hid" and D == 2:
        cells = [(m.T.nodes[i].center - m.T.nodes[i].radius, m.T.nodes[i].center + m.T.nodes[i].radius) for i in m.T.leaves]
    if method in ("nested", "multi") and D < 3:
        points += [{"pos": nums(list(np.ravel(p)) + ([.1] if D == 1 else [])), "sym": "o"} for p in m.live_points]
    if method == "mh":
        syms = {m.BURN_IN: (".", "o", "o"), m.REJECT: ("x", "x", None), m.DECORRELATION: (".", ".", "."), m.SAMPLE: ("X", None, None)}
        level = {m.BURN_IN: -.1, m.REJECT: -.15, m.DECORRELATION: -.2, m.SAMPLE: 0.}
        for s, t in zip(m.trajectory_samples, m.trajectory_types):
            if t in syms and syms[t][D - 1]:
                points.append({"pos": nums(list(np.ravel(s)) + ([level[t]] if D == 1 else [])), "sym": syms[t][D - 1]})
        last = np.ravel(m.trajectory_samples[-1]).astype(float).copy()
        q = m.proposal_d
        if D == 1:
            comps.append(normal(last[0], np.ravel(q.scale)[0], 1.))
        elif D == 2:
            fs2.append(lambda x: q.prob(np.asarray(x, float) - last))
    return fs, fs2, comps, samples, [{"lo": nums(np.ravel(a)), "hi": nums(np.ravel(b))} for a, b in cells], points


def draw(t, sc, obj, tracks, expect, lo, hi, state, r):
    before = [sc.id(a) for a in sc.kids()]
    fs, fs2, comps, samples, cells, points = expect()
    peaks = cwant(fs2, lo, hi) if fs2 else []
    fs2 = [f for f, p in zip(fs2, peaks) if p is not None]
    s0, g0, o0 = digest(state()), np.random.get_state(), sc.elsewhere()
    res = obj.draw(sc.ax)
    g1, o1 = np.random.get_state(), sc.elsewhere()
    changed = ["state"] if digest(state()) != s0 else []
    if not (g0[2:] == g1[2:] and np.array_equal(g0[1], g1[1])):
        changed.append("generator")
    ids = {sc.id(a): a for a in sc.kids()}
    new = [a for i, a in ids.items() if i not in before]
    ws = [float(s["w"]) for s in samples]
    e = dict(before=before, ids=[sc.id(a) for a in res] if tracks else [], tracks=tracks, after=list(ids), changed=changed, elsewhere=bool(o0 != o1),
             nwant=len(fs), comps=comps, samples=samples, wmax=num(max(ws) if ws else 0.), cells=cells, points=points,
             cwant=nums([p for p in peaks if p is not None]))
    describe(e, sc, new, lo, hi, fs, fs2, r)
    t.add("Draw", **e)
    sc.held.append(list(res) if tracks else new)


def clear(t, sc):
    for a in sc.held.pop(0):
        a.remove()
    t.add("Clear", after=[sc.id(a) for a in sc.kids()])


def own(t, sc, r):
    if sc.D == 3:
        a = sc.ax.text(0., 0., 0., "x")
    else:
        a = (lambda: sc.ax.plot([0., 1.], [0., 1.])[0], lambda: sc.ax.text(0., 0., "x"), lambda: sc.ax.axvline(.3))[r.randint(3)]()
    t.add("Own", id=sc.id(a))


def sampler(t, cfg, sp, tk, cmds, salt):
    warnings.simplefilter("ignore")
    r = np.random.RandomState(salt)
    method, par, _, _ = drv.CONFIGS[cfg]
    D = drv.DIMS[sp]
    lo, hi = drv.space(sp)
    sc = Scene(D, r)
    ms = []
    for _ in range(2):
        np.random.seed(salt)
        ms.append(drv.make(method, sp, dict(par)))
    ts = [drv.Target(tk, lo, hi, .15) for _ in range(2)]
    probe = lo + r.rand(5, D) * (hi - lo)
    t.add("New")
    got, had = 0, []
    for c in cmds:
        if c["op"] == "Req":
            got += int(r.randint(2, 5) if method in ("nested", "multi") else r.randint(3, 25))     # theirs get ever rarer
            seed, out = int(r.randint(1 << 30)), []
            for m, tg in zip(ms, ts):
                np.random.seed(seed)
                S, W = m.importance_sample(tg, got, 60)
                out.append(digest([S, W, drv.counts(m), m.prob(probe)]))
                if m is ms[0]:
                    had = [S, W]
            t.add("Req", mine=brief(out[0]), twin=brief(out[1]))
        elif c["op"] == "Draw":
            m = ms[0]
            draw(t, sc, m, True, lambda: expect_sampler(m, method, D, had[1]), lo, hi,
                 lambda: had + [m.samples, m.weights, probe, lo, hi, m.space_min, m.space_max, drv.counts(m), m.prob(probe)], r)
        elif c["op"] == "Clear":
            clear(t, sc)
        else:
            own(t, sc, r)
    sc.plt.close("all")


def make_dist(r, D):
    from ais_benchmarks import distributions as d
    lo = r.uniform(-5, 3, D)
    hi = lo + r.uniform(3, 7, D)
    sup = np.array([lo, hi])

    def norm():
        mean = lo + r.uniform(.3, .7, D) * (hi - lo)
        A = r.randn(D, D) * .5
        cov = A @ A.T + np.eye(D) * r.uniform(.3, 1.2)
        return d.CMultivariateNormal({"mean": mean, "sigma": cov, "support": sup.copy()})
    kind = r.randint(5 if D == 1 else 4)
    if kind == 0:
        return norm(), lo, hi
    if kind == 1:
        k = r.randint(1, 4)
        w = r.uniform(.1, 1., k)
        return d.CMixtureModel({"models": [norm() for _ in range(k)], "weights": w / w.sum(), "dims": D, "support": sup.copy()}), lo, hi
    if kind == 2:
        x = lo + r.uniform(.2, .8, (r.randint(2, 9), D)) * (hi - lo)
        w = r.uniform(.1, 1., len(x))
        return d.CKernelDensity({"samples": x, "weights": w / w.sum(), "kernel_f": d.CKernel.kernel_normal, "kernel_bw": np.array([r.uniform(.5, .9)]), "support": sup.copy()}), lo, hi
    if kind == 3:
        m = d.CMultivariateDelta({"center": lo + r.rand(D) * (hi - lo), "support": sup.copy()})
        return m, lo, hi
    return d.CMultivariateUniform({"center": (lo + hi) / 2, "radius": (hi - lo) / 2}), lo, hi


def dist(t, cmds, D, salt):
    warnings.simplefilter("ignore")
    r = np.random.RandomState(salt)
    sc = Scene(D, r)
    (m, lo, hi), (twin, _, _) = make_dist(np.random.RandomState(salt), D), make_dist(np.random.RandomState(salt), D)
    kde = hasattr(m, "kernel_f")                # these have no draws of their own
    a, b = lo - .1 * (hi - lo), hi + .1 * (hi - lo)
    probe = a + r.rand(6, D) * (b - a)

    def expect():
        if type(m).__name__ == "CMultivariateDelta":
            at = np.ravel(m.loc)
            return [], [], [], [{"x": num(at[0]), "w": "1"}] if D == 1 else [], [], [{"pos": nums(at), "sym": "any"}] if D == 2 else []
        return [m.prob] if D == 1 else [], [m.prob] if D == 2 else [], [], [], [], []
    t.add("New")
    for c in cmds:
        if c["op"] == "Req":
            seed, out = int(r.randint(1 << 30)), []
            for x in (m, twin):
                np.random.seed(seed)
                out.append(digest([x.prob(probe) if kde else x.sample(4), x.prob(probe), x.support()]))
            t.add("Req", mine=brief(out[0]), twin=brief(out[1]))
        elif c["op"] == "Draw":
            draw(t, sc, m, False, expect, a, b,
                 lambda: [probe, m.prob(probe), m.support()], r)
        elif c["op"] == "Clear":
            clear(t, sc)
        else:
            own(t, sc, r)
    sc.plt.close("all")


def noisy(t, cmds, salt):
    """Random functions are drawn as their mean and a band around it."""
    from ais_benchmarks import distributions as d
    warnings.simplefilter("ignore")
    r = np.random.RandomState(salt)
    sc = Scene(1, r)
    lo = np.array([r.uniform(-4, 0)])
    hi = lo + r.uniform(1, 5)
    fa, fw, fb, fz = r.uniform(-1, 1), r.uniform(.5, 3), r.uniform(-1, 2), (None, .4)[r.randint(2)]
    nm, nv, sm, sv = r.uniform(-.5, .5), r.uniform(1e-3, .3), r.uniform(-.5, .5), r.uniform(1e-3, .3)
    abc = r.rand() < .5
    f = lambda x, z: fa * np.sin(fw * x) + fb * x + (0. if z is None else z)
    sup = np.array([lo, hi])
    gen = d.GenericNoisyFunction({"noise_model": d.CMultivariateNormal({"mean": np.array([nm]), "sigma": np.array([[nv]])}), "function": f, "support": sup.copy(), "dims": 1})
    sen = d.GenericNoisyFunction({"noise_model": d.CMultivariateNormal({"mean": np.array([sm]), "sigma": np.array([[sv]])}), "function": lambda x, z: x, "support": sup.copy(), "dims": 1})
    if abc:
        m = d.ABCDistribution({"dims": 1, "prior_d": d.CMultivariateNormal({"mean": np.array([0.]), "sigma": np.array([[1.]])}), "sensor_d": sen, "gen_d": gen, "slack": .3,
                               "support": sup.copy(), "likelihood_f": None, "loglikelihood_f": lambda o, y, s: -np.sum((o - y) ** 2, axis=1) / (2 * s)})
    else:
        m = gen
    if fz is not None:
        gen.set_params(fz)
    off, var = nm + (sm if abc else 0.), nv + (sv if abc else 0.)
    probe = np.array([[.3], [1.2]])
    t.add("New")
    m.condition(np.array([.4]) if abc else np.array([[.4]]))
    for c in cmds:
        if c["op"] == "Req":
            v = r.uniform(-1, 2, (1,) if abc else (1, 1))
            m.condition(v.copy())
            t.add("Req", mine="", twin="")
        elif c["op"] == "Draw":
            before, o0 = [sc.id(a) for a in sc.kids()], sc.elsewhere()
            # an ABC distribution's own answers are random; what it is conditioned on is what counts
            ans = lambda: digest([m.o, np.array([0. if gen.z is None else gen.z])]) if abc else digest([m.prob(probe), m.log_prob(probe), m.sample().shape, np.array([0. if m.z is None else m.z])])
            st0 = ans()
            n = int(r.randint(20, 120))
            lab = (None, "curve")[r.randint(2)]
            m.draw(sc.ax, n_points=n, label=lab)
            changed = [] if ans() == st0 else ["state"]
            ids = {sc.id(a): a for a in sc.kids()}
            new = [a for i, a in ids.items() if i not in before]
            lines = [np.asarray(a.get_data(), float) for a in new if a in list(sc.ax.lines)]
            bands = [a.get_paths()[0].vertices for a in new if type(a).__name__ in ("FillBetweenPolyCollection", "PolyCollection")]
            e = dict(before=before, after=list(ids), changed=changed, elsewhere=bool(o0 != sc.elsewhere()), reps=n if abc else 201, n=n, sd=num(var ** .5),
                     lo=num(lo[0]), hi=num(hi[0]), lines=len(lines), bands=len(bands), rows=[], first="0", last="0", named=sorted(str(a.get_label()).split()[0] for a in new if not str(a.get_label()).startswith("_")), label=lab or "")
            if len(lines) == 1 and len(bands) == 1:
                x, y = lines[0]
                e.update(first=num(x[0]), last=num(x[-1]))
                for i in thin(len(x), r):
                    v = bands[0][np.abs(bands[0][:, 0] - x[i]) < 1e-9]
                    e["rows"].append({"x": num(x[i]), "f": num(float(f(x[i], fz)) + off), "mean": num(y[i]), "low": num(v[:, 1].min()), "high": num(v[:, 1].max())})
            t.add("Band", **e)
            sc.held.append(new)
        elif c["op"] == "Clear":
            clear(t, sc)
        else:
            own2 = sc.ax.plot([0., 1.], [0., 1.])[0]
            t.add("Own", id=sc.id(own2))
    sc.plt.close("all")


def run(chk):
    chk.mc("MC_Screen", "MC_ScreenDeep" if chk.thorough else "MC_Screen")
    behs = chk.behaviours("MC_Screen", "MC_ScreenCmdsDeep" if chk.thorough else "MC_ScreenCmds")
    r = np.random.RandomState(chk.seed)
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot, mpl_toolkits.mplot3d          # once, before the workers are forked
    jobs = []
    for cfg, (method, _, _, _) in drv.CONFIGS.items():
        for D in (1, 2, 3):
            if D == 3 and not (method in ("mh", "tp") or cfg in ("dm-a", "hid-a", "rej-a")):
                continue                                # nothing is drawn
            for i in range((2 if method in ("mh", "dm") else 1, 2, 1)[D - 1] * (8 if chk.thorough else 1)):
                sps = [s for s in drv.DIMS if drv.DIMS[s] == D and (method != "tp" or s in drv.CUBIC)]
                tk = ("gauss", "bimodal", "peak", "ripple")[r.randint(4) if method not in ("nested", "multi") else 0] if method not in ("tp", "hid") or i else "hole"
                jobs.append(("sampler/%s/%d/%d" % (cfg, D, i), sampler, (cfg, sps[r.randint(len(sps))], tk, behs[r.randint(len(behs))], int(r.randint(1 << 30)))))
    for i in range(40 * (8 if chk.thorough else 1)):
        jobs.append(("dist/%d" % i, dist, (behs[r.randint(len(behs))], 1 + i % 2, int(r.randint(1 << 30)))))
    chk.notes["histories_enumerated"] = len(behs)
    for i in range(24 * (8 if chk.thorough else 1)):
        jobs.append(("noisy/%d" % i, noisy, (behs[r.randint(len(behs))], int(r.randint(1 << 30)))))
    chk.validate("TraceScreen", chk.drive(jobs))
