"""B03: evaluations repeated in different surroundings."""
import os, random, shutil, tempfile
import numpy as np
import bench, chk_m02, drv
from core import nums, rows


def outcome(t, rec, key, text, m):
    vals = [[e["who"], e["v"]] for e in rec.ev if e["op"] == "Read" and e["who"] not in ("T", "MEM")]
    t.add("Run", key=key, rows=text, S=rows(m.samples) if m is not None else [], W=nums(m.weights) if m is not None else [], vals=vals)


def repeat(t, confs, sp, cmds, salt):
    r = np.random.RandomState(salt)
    clock, heap = chk_m02.Clock(50., 0., 0.), chk_m02.Heap(10 ** 8)
    lo, hi = drv.space(sp)
    d = tempfile.mkdtemp(prefix="vbench")
    try:
        metrics = [m for m in bench.choice(r, 2) if m != "MEM"]
        keep = [i for i, m in enumerate(["dims", "output_samples"] + metrics) if m != "T"]
        used, exp = {}, {}
        for e in (1, 2):
            method, par, _, _ = drv.CONFIGS[confs[e - 1]]
            exp[e] = dict(method=method, par=par, kind=("gauss", "bimodal", "ripple", "peak")[r.randint(4)], batch=int(r.randint(4, 9)), total=int(r.randint(6, 14 if method in ("nested", "multi") else 70)), reps=int(r.randint(1, 3)))
        classes = {type(drv.make(x["method"], sp, dict(x["par"]))) for x in exp.values()}
        with bench.bench(clock, heap, classes) as (Bench, rec):
            for n, c in enumerate(cmds):
                if c["op"] == "Disturb":
                    np.random.rand(1 + r.randint(50))
                    random.random()
                    t.add("Disturb")
                    continue
                x = exp[c["e"]]
                np.random.seed(int(r.randint(1 << 30)))
                if c["fresh"] or c["e"] not in used:
                    used[c["e"]] = drv.make(x["method"], sp, dict(x["par"]))
                m = used[c["e"]]
                m.name = confs[c["e"] - 1]
                goal = drv.Target(x["kind"], lo, hi, .2)
                rec.ev, rec.truth, rec.method, rec.target = [], [], m, goal
                f = os.path.join(d, "r%d" % n)
                seed = c["seed"]
                if c["place"]:
                    np.random.seed(seed)
                Bench.evaluate_method(ndims=len(lo), target_dist=goal, sampling_method=m, max_samples=x["total"], sampling_eval_samples=50, metrics=list(metrics),
                                      rseed=-1 if c["place"] else seed, n_reps=x["reps"], batch_size=x["batch"], debug=False, filename=f, max_sampling_time=600)
                text = [x.split() for x in open(f).read().splitlines()]
                skip = metrics.index("T") + 2 if "T" in metrics else -1
                outcome(t, rec, "%d/%d" % (c["e"], seed), [[w for j, w in enumerate(l) if j != skip] for l in text], m)
    finally:
        shutil.rmtree(d)


def orders(t, salt):
    """Whole runs over the same files with methods and targets left out or reordered."""
    import ais_benchmarks.sampling_methods as sm
    r = np.random.RandomState(salt)
    clock, heap = chk_m02.Clock(50., 0., 0.), chk_m02.Heap(10 ** 8)
    metrics = ["KLD", "JSD", "EVMSE"][:r.randint(1, 4)]
    mk = [list(bench.METHODS)[i] for i in r.permutation(len(bench.METHODS))[:3]]
    tk = [list(bench.TARGETS)[i] for i in r.permutation(len(bench.TARGETS))[:2]]
    size = {k: (int(r.randint(4, 8)), int(r.randint(5, 14))) for k in tk}
    d = tempfile.mkdtemp(prefix="vbench")
    try:
        with bench.bench(clock, heap, []) as (Bench, rec):
            for n in range(3):
                ms = mk if n == 0 else [mk[i] for i in r.permutation(3)[:r.randint(1, 4)]]
                ts = tk if n == 0 else [tk[i] for i in r.permutation(2)[:r.randint(1, 3)]]
                np.random.seed(int(r.randint(1 << 30)))
                f = lambda x: os.path.join(d, x)
                open(f("b.yaml"), "w").write("targets:\n" + "".join("    - name: %s\n      type: %s\n      params: %s\n      batch_size: %d\n      nsamples: %d\n      nsamples_eval: 30\n" %
                                             ("t_" + k, *bench.TARGETS[k], *size[k]) for k in ts))
                open(f("m.yaml"), "w").write("methods:\n" + "".join("    - name: %s\n      type: %s\n      debug: false\n      params:\n        %s\n" % ("m_" + k, *bench.METHODS[k]) for k in ms))
                open(f("c.yaml"), "w").write("nreps: 2\nrseed: 7\nmetrics: [%s]\ndebug: {text: true, plot: {show: false, save: false, path: %s}}\noutput: {file: x, make_plots: false, plots_path: %s, plots_dpi: 100}\n" %
                                             (", ".join(metrics), f("dbg/"), f("plt/")))
                Bench().run(f("b.yaml"), f("m.yaml"), f("c.yaml"), f("out%d/res.txt" % n))
                body = [x.split() for x in open(f("out%d/res.txt" % n)).read().splitlines()[1:]]
                for a in ts:
                    for b in ms:
                        t.add("Run", key="%s/%s" % (a, b), rows=[x for x in body if "t_" + a in x and "m_" + b in x], S=[], W=[], vals=[])
    finally:
        shutil.rmtree(d)


def run(chk):
    import ais_benchmarks.benchmark.CBenchmark        # loaded once, before the workers are forked
    behs = chk.behaviours("MC_Repeat", "MC_RepeatDeep" if chk.thorough else "MC_Repeat")
    chk.notes["histories_enumerated"] = len(behs)
    r = np.random.RandomState(chk.seed)
    s = lambda: int(r.randint(1 << 30))
    jobs, names = [], list(drv.CONFIGS)
    sps = ["unit1", "sym2", "off2", "neg1", "sym3"]
    for a in names:
        for i in range(60 if chk.thorough else 6):
            b = names[r.randint(len(names))]
            jobs.append(("%s+%s/%d" % (a, b, i), repeat, ([a, b], sps[r.randint(len(sps))], behs[r.randint(len(behs))], s())))
    jobs += [("run/%d" % i, orders, (s(),)) for i in range(160 if chk.thorough else 24)]
    chk.validate("TraceRepeat", chk.drive(jobs))
