"""B01, B02: evaluations recorded call by call, under a controlled clock and heap."""
import contextlib, importlib, os, shutil, tempfile
import numpy as np
from core import num
import chk_m02
import drv

LABELS = {"CKLDivergence": "KLD", "CJSDivergence": "JSD", "CExpectedValueMSE": "EVMSE", "CElapsedTime": "T", "CMemoryUsage": "MEM"}


class Recorder:
    def __init__(self, clock):
        self.clock, self.ev, self.truth, self.making = clock, [], [], 0
        self.file, self.method, self.target, self.inside, self.evals = None, None, None, 0, 0

    def lines(self):
        if self.file is None or not os.path.exists(self.file):
            return 0
        with open(self.file) as f:
            return len(f.read().splitlines())

    def add(self, op, **kw):
        kw["op"] = op
        if op in ("Reset", "Start", "End") and self.file is not None:
            kw["lines"] = self.lines()
        self.ev.append(kw)

    # -- metrics
    def watch_metric(self, cls):
        me, label = self, LABELS[cls.__name__]
        saved = {n: getattr(cls, n) for n in ("__init__", "pre", "post", "compute", "reset")}

        def init(obj, *a, **kw):
            me.making += 1
            try:
                return saved["__init__"](obj, *a, **kw)
            finally:
                me.making -= 1

        def wrap(name, op):
            def f(obj, *a, **kw):
                on = me.making == 0 and me.inside == 0
                if on and op != "Read":
                    me.add(op, who=label, **({"left": 0} if op == "Reset" else {}))
                me.inside += 1
                try:
                    r = saved[name](obj, *a, **kw)
                finally:
                    me.inside -= 1
                if on and op == "Read":
                    me.add("Read", who=label, v=num(r), n=int(kw.get("nsamples", -1)), args=bool(kw.get("p") is me.target and kw.get("q") is me.method))
                    if me.truth:
                        me.truth[-1][label] = num(r)
                return r
            return f
        cls.__init__ = init
        for name, op in (("pre", "Start"), ("post", "Stop"), ("compute", "Read"), ("reset", "Reset")):
            setattr(cls, name, wrap(name, op))
        return lambda: [setattr(cls, n, f) for n, f in saved.items()]

    # -- samplers (class level, so that samplers built by the benchmark are watched too)
    def watch_sampler(self, cls):
        me = self
        ask, reset = cls.importance_sample, cls.reset
        own = "reset" in cls.__dict__, "importance_sample" in cls.__dict__

        def importance_sample(obj, *a, **kw):
            if me.inside:
                return ask(obj, *a, **kw)
            t0 = me.clock.now
            n0 = getattr(a[0] if a else kw.get("target_d"), "count", None)
            me.inside += 1
            try:
                S, W = ask(obj, *a, **kw)
            finally:
                me.inside -= 1
            tgt = kw.get("target_d", a[0] if a else None)
            if me.method is not obj:
                me.method, me.target = obj, tgt
            me.add("Request", n=int(kw["n_samples"]), given=num(kw["timeout"]), got=len(S), took=num(me.clock.now - t0), target=bool(tgt is me.target))
            if n0 is not None:
                me.evals += tgt.count - n0
            with me.quiet():
                st = obj.get_stats() if hasattr(obj, "get_stats") else {"proposal_samples": obj.num_proposal_samples, "proposal_evals": obj.num_proposal_evals,
                                                                        "target_evals": obj.num_target_evals}
                if n0 is not None:      # this target counts its evaluations itself
                    st["target_evals"] = me.evals
                me.truth.append({"dims": str(me.target.dims), "output_samples": str(len(S)), "NESS": num(obj.get_NESS()), "method": obj.name, "target_d": me.target.name,
                                 "accept_rate": num(obj.get_acceptance_rate()), "proposal_samples": num(st["proposal_samples"]),
                                 "proposal_evals": num(st["proposal_evals"]), "target_evals": num(st["target_evals"])})
            return S, W

        def do_reset(obj, *a, **kw):
            on = not me.inside and obj is me.method
            me.inside += 1
            try:
                return reset(obj, *a, **kw)
            finally:
                me.inside -= 1
                if on:
                    me.evals = 0
                    me.add("Reset", who="sampler", left=len(obj.samples))
        cls.importance_sample, cls.reset = importance_sample, do_reset

        def undo():
            for name, was, f in (("reset", own[0], reset), ("importance_sample", own[1], ask)):
                if was:
                    setattr(cls, name, f)
                else:
                    delattr(cls, name)
        return undo

    @contextlib.contextmanager
    def quiet(self):
        self.inside += 1
        try:
            yield
        finally:
            self.inside -= 1

    def table(self):
        with open(self.file) as f:
            return [x.split() for x in f.read().splitlines()]


@contextlib.contextmanager
def bench(clock, heap, samplers):
    """The benchmark module on a controlled clock, with metrics and samplers watched."""
    cb = importlib.import_module("ais_benchmarks.benchmark.CBenchmark")
    perf, undo = chk_m02.patched(clock, heap)
    old = (cb.CElapsedTime, cb.CMemoryUsage)
    cb.CElapsedTime, cb.CMemoryUsage = perf.CElapsedTime, perf.CMemoryUsage
    rec = Recorder(clock)
    back = [rec.watch_metric(getattr(cb, n)) for n in LABELS] + [rec.watch_sampler(c) for c in samplers]
    try:
        yield cb.CBenchmark, rec
    finally:
        for f in reversed(back):
            f()
        cb.CElapsedTime, cb.CMemoryUsage = old
        undo()


class Goal:
    """A target the evaluation sees."""
    def __init__(self, D, name, clock=None):
        self.dims, self.name, self.clock = D, name, clock
        self.lo, self.hi = np.full(D, -1.), np.full(D, 2.)

    def support(self):
        return np.array([self.lo, self.hi])

    def log_prob(self, x):
        if self.clock:
            self.clock.now += 5.      # evaluating figures takes time, which is nobody's sampling time
        return -np.sum((np.asarray(x) - .3) ** 2, axis=1)

    def prob(self, x):
        return np.exp(self.log_prob(x))


class Scripted:
    """A sampler which delivers and takes what the behaviour says, and whose figures are as wild as asked."""
    def __init__(self, clock, heap, plan, D, name, r, wild):
        self.clock, self.heap, self.plan, self.D, self.name, self.r, self.wild = clock, heap, plan, D, name, r, wild
        self.total = 0
        self.reset()

    def reset(self):
        self.samples = np.zeros((0, self.D))
        self.at = 0
        self.num_proposal_samples = self.num_proposal_evals = self.num_target_evals = 0

    def importance_sample(self, target_d, n_samples, timeout):
        step = self.plan[self.at] if self.at < len(self.plan) else {"new": n_samples - len(self.samples), "took": "0"}
        self.at += 1
        self.clock.now += float(step["took"])
        self.heap.size += int(self.r.randint(-1000, 10 ** 6))
        self.samples = np.concatenate([self.samples, self.r.randn(step["new"], self.D)])
        self.num_proposal_samples += step["new"] + int(self.r.randint(3))
        self.num_proposal_evals += int(self.r.randint(10 ** 6 if self.wild else 9))
        self.num_target_evals += int(self.r.randint(1, 10 ** 7 if self.wild else 9))
        return self.samples, np.ones(len(self.samples))

    def figure(self, salt):
        return np.random.RandomState((len(self.samples) * 31 + self.num_target_evals + salt) % (1 << 30)).rand()

    def get_NESS(self):
        v = self.figure(1)
        return v * (10 ** 6) if self.wild else v

    def get_acceptance_rate(self):
        return self.figure(2) * (50 if self.wild else 1)

    def get_viz_frames(self):
        return None

    twin, finds = None, ()      # the requests after which it has found the target exactly

    def log_prob(self, x):
        self.clock.now += 3.
        if self.at in self.finds:
            return self.twin.log_prob(x)
        v = -np.sum((np.asarray(x) + self.figure(3)) ** 2, axis=1)
        return np.maximum(v * 400, -700. + v) if self.wild else v

    def prob(self, x):
        return np.exp(self.log_prob(x))


def choice(r, least=0):
    names = ["KLD", "JSD", "EVMSE", "T", "MEM"]
    k = r.randint(least, 6)
    return [names[i] for i in r.permutation(5)[:k]]


def evaluate(t, Bench, rec, method, goal, cfg, batch, total, reps, limit, evaln, metrics, seed, d):
    rec.file = os.path.join(d, "result.txt")
    t.cfg = {"metrics": [m for m in metrics if m != "NESS"], "batch": batch, "total": total, "reps": reps, "limit": num(limit), "eval": evaln}
    rec.method, rec.target = method, goal
    Bench.evaluate_method(ndims=goal.dims, target_dist=goal, sampling_method=method, max_samples=total, sampling_eval_samples=evaln, metrics=metrics, rseed=seed,
                          n_reps=reps, batch_size=batch, debug=False, filename=rec.file, max_sampling_time=limit)
    rec.add("End")
    t.ev.extend(rec.ev)
    head = " ".join(["dims", "output_samples"] + t.cfg["metrics"] + ["NESS", "method", "target_d", "accept_rate", "proposal_samples", "proposal_evals", "target_evals"]).split()
    t.add("File", header=head, rows=rec.table(), truth=rec.truth)


def scripted(t, beh, wild, salt):
    r = np.random.RandomState(salt)
    clock, heap = chk_m02.Clock(r.uniform(10, 1000), 0., 0.), chk_m02.Heap(10 ** 8)
    D = r.randint(1, 4)
    c = beh["c"]
    d = tempfile.mkdtemp(prefix="vbench")
    try:
        with bench(clock, heap, [Scripted]) as (Bench, rec):
            m = Scripted(clock, heap, beh["plan"], D, "sampler%d" % r.randint(100), r, wild)
            goal = Goal(D, "goal", clock)
            if r.rand() < .4:
                m.twin, m.finds = goal, set(r.randint(1, 6, 3).tolist())
            evaluate(t, Bench, rec, m, goal, None, c["batch"], c["total"], int(r.randint(1, 4)), float(c["limit"]), int(r.randint(3, 40)),
                     choice(r, 1 if wild else 0), (-1, 3)[r.randint(2)], d)
    finally:
        shutil.rmtree(d)


def real(t, name, salt):
    r = np.random.RandomState(salt)
    clock, heap = chk_m02.Clock(50., 0., 0.), chk_m02.Heap(10 ** 8)
    method, par, _, _ = drv.CONFIGS[name]
    D = r.randint(1, 3)
    goal = drv.Target("gauss", *drv.space("unit1" if D == 1 else "sym2"), shift=.1)
    goal.name = "goal"
    d = tempfile.mkdtemp(prefix="vbench")
    try:
        m = drv.make(method, (goal.lo, goal.hi), dict(par))
        m.name = name
        with bench(clock, heap, [type(m)]) as (Bench, rec):
            evaluate(t, Bench, rec, m, goal, None, int(r.randint(4, 9)), int(r.randint(6, 14 if method in ("nested", "multi") else 24)), int(r.randint(1, 3)), 600., 60, choice(r, 1), (-1, 3)[r.randint(2)], d)
    finally:
        shutil.rmtree(d)


METHODS = {
    "dm": ("CDeterministicMixtureAIS", "K: 2\n        N: 3\n        J: 500\n        sigma: 0.1"),
    "pmc": ("CMixturePMC", "K: 6\n        N: 3\n        J: 500\n        sigma: 0.1"),
    "rej": ("CRejectionSampling", "scaling: 3\n        proposal: \"'CMultivariateUniform({\\\"center\\\": (self.space_max+self.space_min)/2, \\\"radius\\\":(self.space_max-self.space_min) / 2})'\"\n        kde_bw: 0.01\n        n_samples_kde: 10"),
    "hid": ("CHiDaiseeSampling", "target_ess: 0.9\n        n_min: 4\n        tau: .01"),
    "tp": ("CTreePyramidSampling", "method: \"'simple'\"\n        resampling: \"'leaf'\"\n        kernel: \"'haar'\"\n        ess_target: 0.90\n        n_min: 5\n        parallel_samples: 4"),
    "mh": ("CMetropolisHastings", "n_burnin: 3\n        n_steps: 2\n        proposal_sigma: 0.5\n        kde_bw: 0.02\n        n_samples_kde: 10"),
    "lais": ("CLayeredAIS", "K: 2\n        N: 2\n        J: 500\n        L: 2\n        sigma: 0.1\n        mh_sigma: 0.3"),
}
TARGETS = {
    "gmm": ("CGaussianMixtureModel", "{means: [[0.0, 0.0], [-0.3, 0.5]], sigmas: [[0.2, 0.1], [0.1, 0.3]], weights: [0.5, 0.5], support: [[-1, -1], [1, 1]]}"),
    "normal": ("CMultivariateNormal", "{mean: [0.0], sigma: [[0.2]], support: [-5, 5]}"),
    "banana": ("Banana2D", "{}"),
}


def whole(t, ness, salt):
    """CBenchmark.run on files written here."""
    import ais_benchmarks.sampling_methods as sm
    r = np.random.RandomState(salt)
    clock, heap = chk_m02.Clock(50., 0., 0.), chk_m02.Heap(10 ** 8)
    metrics = choice(r, 1)
    if ness:
        metrics.insert(r.randint(len(metrics) + 1), "NESS")
    d = tempfile.mkdtemp(prefix="vbench")
    try:
        tk = [list(TARGETS)[i] for i in r.permutation(len(TARGETS))[:r.randint(1, 4)]]
        mk = [list(METHODS)[i] for i in r.permutation(len(METHODS))[:r.randint(1, 4)]]
        size = {k: (int(r.randint(3, 7)), int(r.randint(4, 14))) for k in tk}
        f = lambda n: os.path.join(d, n)
        open(f("b.yaml"), "w").write("targets:\n" + "".join("    - name: %s\n      type: %s\n      params: %s\n      batch_size: %d\n      nsamples: %d\n      nsamples_eval: 30\n" %
                                     ("t_" + k, TARGETS[k][0], TARGETS[k][1], size[k][0], size[k][1]) for k in tk))
        open(f("m.yaml"), "w").write("methods:\n" + "".join("    - name: %s\n      type: %s\n      debug: false\n      params:\n        %s\n" % ("m_" + k, *METHODS[k]) for k in mk))
        open(f("c.yaml"), "w").write("nreps: %d\nrseed: %d\nmetrics: [%s]\ndebug: {text: true, plot: {show: false, save: false, path: %s}}\noutput: {file: x, make_plots: false, plots_path: %s, plots_dpi: 100}\n" %
                                     (r.randint(1, 3), (-1, 4)[r.randint(2)], ", ".join(metrics), f("dbg/"), f("plt/")))
        classes = {getattr(sm, METHODS[k][0]) for k in mk}
        with bench(clock, heap, classes) as (Bench, rec):
            rec.file = f("out/res.txt")
            t.cfg = {"metrics": [m for m in metrics if m != "NESS"]}
            Bench().run(f("b.yaml"), f("m.yaml"), f("c.yaml"), rec.file)
            rows = rec.table()
            order = [x["target_d"] + "/" + x["method"] for x in rec.truth]
            want = ["t_%s/m_%s" % (a, b) for a in tk for b in mk]
            seen = [x for i, x in enumerate(order) if i == 0 or order[i - 1] != x]
            t.add("File", header=rows[0], rows=rows[1:], truth=rec.truth)
            t.add("Order", seen=seen, want=want)
    finally:
        shutil.rmtree(d)


def plans(chk):
    chk.mc("MC_Bench", "MC_BenchDeep" if chk.thorough else "MC_Bench")
    behs = chk.behaviours("MC_Bench", "MC_BenchPlansDeep" if chk.thorough else "MC_BenchPlans")
    chk.notes["histories_enumerated"] = len(behs)
    return behs


def run(chk, groups):
    import ais_benchmarks.benchmark.CBenchmark        # loaded once, before the workers are forked
    behs = plans(chk)
    r = np.random.RandomState(chk.seed)
    s = lambda: int(r.randint(1 << 30))
    k = 10 if chk.thorough else 1
    fast = [b for b in behs if all(float(x["took"]) == 0 for x in b["plan"])]
    slow = [b for b in behs if any(float(x["took"]) > 0 for x in b["plan"])]
    jobs = []
    for i in range(150 * k):
        jobs.append(("fast/%d" % i, scripted, (fast[r.randint(len(fast))], False, s())))
    for i in range(150 * k):
        jobs.append(("slow/%d" % i, scripted, (slow[r.randint(len(slow))], False, s())))
    for i in range(40 * k):
        jobs.append(("wide/%d" % i, scripted, (fast[r.randint(len(fast))], True, s())))
    for n in drv.CONFIGS:
        for i in range(2 * k):
            jobs.append(("real/%s/%d" % (n, i), real, (n, s())))
    if "run" in groups:
        for i in range(25 * k):
            jobs.append(("run/%d" % i, whole, (False, s())))
        for i in range(10 * k):
            jobs.append(("run-ness/%d" % i, whole, (True, s())))
    chk.validate("TraceBench", chk.drive(jobs), env={"PROP": chk.prop})
