"""V01: sequences of visual elements drawn by the matplotlib interface."""
import numpy as np
from core import num, nums, rows


def color(r):
    return np.round(r.rand(4), 3)


def element(r, vis, o, kind):
    """A visual element of the repository and what it says."""
    if kind == "function":
        lim = [float(r.uniform(-4, 0)), float(r.uniform(.5, 4))]
        n, poly = int(r.randint(2, 9)), r.randn(3)
        f = lambda x: poly[0] + poly[1] * x + poly[2] * x * x
        by = 1.
        c = r.randint(5)
        if c == 0:
            e = vis.CFunction(o, f, lim, n)
        elif c == 4:
            by = float(r.uniform(.1, 3))
            e = vis.CProposalDistComponent(o, f, by, lim, n)
        else:
            e = (vis.CProbabilityDensityFunction, vis.CTargetDist, vis.CProposalDist)[c - 1](o, f, lim, n)
        own = {0: ("-", (0, 0, 0, 1)), 1: ("-", (0, 0, 0, 1)), 2: ("-", (1, 0, 0, .7)), 3: ("-", (0, .7, 0, 1)), 4: ("--", (0, .7, 0, 1))}[c]
        d = {"lim": nums(lim), "n": n, "poly": nums(poly), "by": num(by), "style": own[0], "color": nums(own[1])}
        if r.rand() < .3:
            e.draw_style = ("-", "--", ":")[r.randint(3)]
            d["style"] = e.draw_style
    elif kind == "point":
        pos = r.uniform(-3, 3, 3)
        c = r.randint(5)
        pos = list(pos) if r.rand() < .3 else pos
        if c == 0:
            e = vis.CPoint(o, pos)
        elif c == 4:
            e = vis.CImportanceSample(o, pos, .3)
        else:
            e = (vis.CProposedSample, vis.CAcceptedSample, vis.CRejectedSample)[c - 1](o, pos)
        own = {0: (".", (0, 0, 0, 1)), 1: ("x", (0, 0, .7, 1)), 2: ("o", (0, .7, 0, 1)), 3: ("x", (1, 0, 0, .7)), 4: ("o", (0, .7, 0, 1))}[c]
        d = {"pos": nums(pos), "style": own[0], "color": nums(own[1])}
    else:
        a = r.uniform(-3, 3, 3) * np.array([1, 1, 0])
        b = a + (np.array([float(r.uniform(.5, 3)), 0, 0]), np.array([0, float(r.uniform(.5, 3)), 0]), r.uniform(.3, 2, 3) * np.array([1, 1, 0]))[r.randint(3)]
        e = vis.CAxis(o, start=a, end=b)
        L = float(np.linalg.norm(b - a))
        ticks = np.array([L * i / 9 for i in range(10)])
        d = {"pos": nums([0, 0, 0]), "start": nums(a), "end": nums(b), "ticks": nums(ticks), "sizes": nums([L * .01] * 10), "labels": ["%3.1f" % x for x in ticks], "color": nums((0, 0, 0, 1))}
        if r.rand() < .5:
            k = r.randint(0, 4)
            e.ticks, e.ticks_size, e.ticks_lbl = list(r.uniform(0, L, k)), list(r.uniform(.01, .3, k)), ["t%d" % i for i in range(k)]
            d.update(ticks=nums(e.ticks), sizes=nums(e.ticks_size), labels=list(e.ticks_lbl))
        if r.rand() < .3:
            e.pos = r.uniform(-2, 2, 3) * np.array([1, 1, 0])
            d["pos"] = nums(e.pos)
    if r.rand() < .4:
        e.outline_color = color(r)
        d["color"] = nums(e.outline_color)
    return e, {"id": o, "kind": kind, **d}


def look(ax):
    from matplotlib.colors import to_rgba
    from matplotlib.markers import MarkerStyle
    shapes = {}
    for m in ("x", "o", "."):
        s = MarkerStyle(m)
        shapes[m] = s.get_path().transformed(s.get_transform()).vertices
    pts, other = [], len(ax.patches) + len(ax.images) + len(ax.tables)
    for c in ax.collections:
        v = c.get_paths()[0].vertices
        name = [m for m, w in shapes.items() if w.shape == v.shape and np.allclose(w, v)]
        for xy in np.asarray(c.get_offsets()):
            col = c.get_edgecolor() if len(c.get_edgecolor()) else c.get_facecolor()
            pts.append({"pos": nums(xy), "color": nums(col[0]), "style": (name or ["?"])[0]})
    return {"lines": [{"x": nums(l.get_xdata()), "y": nums(l.get_ydata()), "color": nums(to_rgba(l.get_color())), "style": l.get_linestyle()} for l in ax.lines],
            "points": pts, "texts": [{"pos": nums(x.get_position()), "text": x.get_text(), "color": nums(to_rgba(x.get_color()))} for x in ax.texts], "other": other}


def draw(t, seq, salt):
    import matplotlib.pyplot as plt
    import ais_benchmarks.visualization.visuals as vis
    from ais_benchmarks.visualization.matplotlib import viz_interface as vi
    r = np.random.RandomState(salt)
    plt.close("all")
    fig = plt.figure()
    try:
        made = [element(r, vis, (c["id"], c["id"] * 1000 - 7, -c["id"])[salt % 3], c["kind"]) for c in seq]
        vi.draw_sequence([e for e, _ in made])
        t.add("Drawn", seq=[d for _, d in made], fixed=[], art=look(fig.gca()))
    finally:
        plt.close("all")


def movie(t, seqs, salt):
    """Frames drawn one after another over the same static elements."""
    import matplotlib.pyplot as plt
    import ais_benchmarks.visualization.visuals as vis
    from ais_benchmarks.visualization.matplotlib import viz_interface as vi
    r = np.random.RandomState(salt)
    plt.close("all")
    fig = plt.figure()
    static = [element(r, vis, 50 + i, ("axis", "axis", "function")[i]) for i in range(r.randint(0, 4))]
    frames = [[element(r, vis, c["id"], c["kind"]) for c in s] for s in seqs]
    shots, pause = [], plt.pause
    plt.pause = lambda *a: shots.append(look(plt.gca()))
    try:
        vi.draw_frames([[e for e, _ in f] for f in frames], [e for e, _ in static])
        shots.append(look(plt.gca()))
        which = list(range(len(frames))) if len(shots) == len(frames) + 1 else []
        for i, s in zip(which + [len(frames) - 1], shots[-len(which) - 1:]):
            t.add("Drawn", seq=[d for _, d in frames[i]], fixed=[d for _, d in static], art=s)
    finally:
        plt.pause = pause
        plt.close("all")


def run(chk):
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot, ais_benchmarks.visualization.visuals       # loaded once, before the workers are forked
    behs = chk.behaviours("MC_Viz", "MC_VizDeep" if chk.thorough else "MC_Viz")
    chk.notes["sequences_enumerated"] = len(behs)
    r = np.random.RandomState(chk.seed)
    s = lambda: int(r.randint(1 << 30))
    again = [b for b in behs if len({c["id"] for c in b}) < len(b)]
    short = [b for b in behs if len(b) <= 2]
    pool = behs if chk.thorough else short + [again[r.randint(len(again))] for _ in range(300)]
    jobs = [("seq/%d" % i, draw, (b, s())) for i, b in enumerate(pool)]
    jobs += [("frames/%d" % i, movie, ([behs[r.randint(len(behs))] for _ in range(r.randint(1, 4))], s())) for i in range(400 if chk.thorough else 40)]
    chk.validate("TraceViz", chk.drive(jobs))
