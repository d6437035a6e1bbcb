"""Machinery shared by all checks: TLC runs, trace validation, scenario workers, verdicts, evidence."""
import hashlib, json, multiprocessing as mp, os, re, shutil, signal, subprocess, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class MachineryError(Exception):
    """The check itself could not do its work (never a statement about the code under test)."""


def _java_classes():
    """Compile the TLC module override; kept in /verif/.build keyed by content, made again when absent."""
    src = os.path.join(VERIF, "java", "Reals.java")
    key = hashlib.sha1(open(src, "rb").read()).hexdigest()[:16]
    base = os.path.join(VERIF, ".build")
    dst = os.path.join(base, "java-" + key)
    if os.path.exists(os.path.join(dst, "Reals.class")):
        return dst
    try:
        os.makedirs(base, exist_ok=True)
        tmp = tempfile.mkdtemp(dir=base)
    except OSError:
        tmp = tempfile.mkdtemp()
        dst = None
    r = subprocess.run(["javac", "-nowarn", "-cp", JARS, "-d", tmp, src], capture_output=True, text=True)
    if r.returncode:
        raise MachineryError("javac: " + r.stderr)
    if dst is None:
        return tmp
    try:
        os.rename(tmp, dst)
    except OSError:
        if not os.path.exists(os.path.join(dst, "Reals.class")):
            return tmp
        shutil.rmtree(tmp, ignore_errors=True)
    return dst


class Tlc:
    """One finished TLC run."""
    def __init__(self, rc, out):
        self.rc, self.out = rc, out
        self.lines = [l[3:].split("\t") for l in out.splitlines() if l.startswith("@@\t")]
        m = re.findall(r"^(\d+) states generated, (\d+) distinct states found", out, re.M)
        self.transitions, self.states = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        if not m:
            m = re.findall(r"number of states generated: (\d+)", out)
            if m:
                self.transitions = self.states = int(m[-1])
        self.ok = rc == 0 and ("No error has been found" in out or "Finished in" in out) and "Error:" not in out


def tlc(module, cfg=None, env=None, workers=8, extra=(), timeout=600, heap="4g", partial=False):
    classes = _java_classes()
    meta = tempfile.mkdtemp(prefix="tlcmeta")
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp", classes + ":" + JARS, "-DTLA-Library=" + SPEC,
           "tlc2.TLC", "-noGenerateSpecTE", "-nowarning", "-metadir", meta, "-workers", str(workers)]
    cmd += list(extra)
    cmd += ["-config", os.path.join(SPEC, (cfg or module) + ".cfg"), os.path.join(SPEC, module + ".tla")]
    try:
        with open(os.path.join(meta, "out.txt"), "w+") as f:
            try:
                rc = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, env=e, timeout=timeout, cwd=meta).returncode
            except subprocess.TimeoutExpired:
                if not partial:
                    raise MachineryError("TLC timed out on %s (%ss)" % (module, timeout))
                rc = 124
            f.seek(0)
            return Tlc(rc, f.read())
    finally:
        shutil.rmtree(meta, ignore_errors=True)


# ---------------------------------------------------------------------------------------------------------------------
class ScenarioTimeout(BaseException):
    pass


def _alarm(signum, frame):
    raise ScenarioTimeout()


def _run_one(job):
    """Run one scenario in a worker.  A scenario is (key, callable, args); it returns a trace (list of events).
    An exception of the code under test ends the trace with a Raised event: the specification rejects it.
    Random searches have no upper bound on their cost, so a scenario without an answer gets two more, other seeds;
    code that never answers has no answer then either."""
    key, fn, args, limit, seed = job
    t0 = time.process_time()
    for i in range(3):
        r = _attempt(key, fn, args, limit if i == 0 else limit / 2, (seed + 7919 * i) % (2 ** 32 - 1))
        if r[0] == "machinery" or not (r[2]["ev"] and r[2]["ev"][-1]["op"] == "Raised" and r[2]["ev"][-1]["text"].startswith("no answer within")):
            break
    return r + (time.process_time() - t0,)


def _attempt(key, fn, args, limit, seed):
    """The limit is on processor time (a busy machine is no defect), with a wide one on elapsed time for code that waits."""
    import io, contextlib, warnings, random
    import numpy as np
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    np.random.seed(seed)
    random.seed(seed)
    t = Trace(key)
    for sig, which, secs in ((signal.SIGALRM, signal.ITIMER_REAL, limit * 3), (signal.SIGPROF, signal.ITIMER_PROF, limit)):
        signal.signal(sig, _alarm)
        signal.setitimer(which, secs)
    sink = io.StringIO()
    try:
        with contextlib.redirect_stdout(sink), contextlib.redirect_stderr(sink):
            fn(t, *args)
    except ScenarioTimeout:
        t.add("Raised", text="no answer within %gs" % limit)
    except MachineryError as ex:
        return ("machinery", key, str(ex) + traceback.format_exc())
    except Exception as ex:
        t.add("Raised", text="%s: %s @ %s" % (type(ex).__name__, str(ex)[:300], _where(ex)))
    except SystemExit as ex:
        t.add("Raised", text="SystemExit %s" % ex)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.setitimer(signal.ITIMER_PROF, 0)
    return ("trace", key, {"id": key, "cfg": t.cfg, "ev": t.ev})


def _where(ex):
    tb = traceback.extract_tb(ex.__traceback__)
    return " < ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in reversed(tb[-4:]))


class Trace:
    def __init__(self, key):
        self.key, self.cfg, self.ev = key, {"none": 0}, []

    def add(self, op, **kw):
        kw["op"] = op
        self.ev.append(kw)


# ---------------------------------------------------------------------------------------------------------------------
def evidence_dir():
    return os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence")


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self.states = self.transitions = self.validated = 0
        self.mc_runs, self.samples, self.assumptions, self.notes = [], [], [], {}
        self.bad = []            # (trace key, step, op, clause)
        self.clause_counts = {}
        self.traces = {}

    # -- exhaustive exploration of the specification itself ------------------------------------------------------------
    def mc(self, module, cfg=None, env=None, workers=8, extra=(), timeout=600):
        r = tlc(module, cfg, env, workers, extra, timeout)
        if not r.ok:
            raise MachineryError("model %s/%s does not check:\n%s" % (module, cfg, _tail(r.out)))
        self.states += r.states
        self.transitions += r.transitions
        self.mc_runs.append({"module": module, "cfg": cfg or module, "states": r.states, "generated": r.transitions})
        return r

    def behaviours(self, module, cfg=None, env=None, tag="BEH", extra=(), timeout=600, workers=8):
        """Run the model and collect the behaviours it prints (JSON after the tag)."""
        r = self.mc(module, cfg, env, workers, extra, timeout)
        b = sorted({l[1] for l in r.lines if l[0] == tag})
        if not b:
            raise MachineryError("%s printed no behaviour" % module)
        return [json.loads(x) for x in b]

    # -- driving the implementation ---------------------------------------------------------------------------------
    def drive(self, jobs, limit=60, procs=8):
        """jobs: list of (key, fn, args).  Returns the recorded traces in job order."""
        seeds = [int(hashlib.sha1(("%s/%s/%d" % (self.prop, j[0], self.seed)).encode()).hexdigest()[:8], 16) % (2 ** 32 - 1) for j in jobs]
        full = [(k, f, a, limit, s) for (k, f, a), s in zip(jobs, seeds)]
        keys = [j[0] for j in jobs]
        if len(set(keys)) != len(keys):
            raise MachineryError("scenario keys are not unique")
        ctx = mp.get_context("fork")
        out, silent = [], 0
        until = time.time() + (6000 if self.thorough else 420)
        with ctx.Pool(procs) as pool:
            it = pool.imap(_run_one, full, chunksize=1)
            for _ in full:
                try:
                    out.append(it.next(timeout=limit * 9 + 60))
                except mp.TimeoutError:
                    # the code under test ignores the alarm (blocked outside Python): report it as no answer
                    k = keys[len(out)]
                    out.append(("trace", k, {"id": k, "cfg": {"none": 0}, "ev": [{"op": "Raised", "text": "hung"}]}))
                    silent = 99
                last = out[-1]
                if last[0] == "trace" and any(e["op"] == "Raised" and "no answer" in e["text"] for e in last[2]["ev"]):
                    silent += 1
                if time.time() > until:      # a slow machine or slow code: judge what there is
                    self.notes["scenarios_not_reached"] = len(full) - len(out)
                    pool.terminate()
                    break
                if silent > 4:      # enough evidence; the remaining scenarios would only repeat it
                    pool.terminate()
                    break
        for o in out:
            if o[0] == "machinery":
                raise MachineryError("scenario %s: %s" % (o[1], o[2]))
        self.notes["slowest_scenario_cpu_s"] = round(max([o[3] for o in out if len(o) > 3] + [self.notes.get("slowest_scenario_cpu_s", 0)]), 1)
        return [o[2] for o in out]

    # -- conformance: recorded traces against the specification -------------------------------------------------------
    def validate(self, module, traces, cfg=None, timeout=800, env=None, workers=8, heap="8g"):
        if not traces:
            raise MachineryError("no trace to validate")
        d = tempfile.mkdtemp(prefix="vtrace")
        try:
            for t in traces:
                if not t["ev"]:
                    t["ev"] = [{"op": "Nothing"}]
            traces = [t for t in map(self._cut, traces) if t]
            p = os.path.join(d, "traces.ndjson")
            with open(p, "w") as f:
                for t in traces:
                    f.write(json.dumps(t, allow_nan=False) + "\n")
            e = {"TRACES": p}
            e.update(env or {})
            big = max(len(json.dumps(t)) for t in traces)
            self.notes["largest_trace_bytes"] = max(big, self.notes.get("largest_trace_bytes", 0))
            if not self.thorough:
                timeout = min(timeout, max(60, 850 - (time.time() - self.t0)))
            r = tlc(module, cfg, e, workers=workers, timeout=timeout, heap=heap, partial=True)
            early = [l for l in r.lines if l[0] == "BAD" and len(l) >= 5 and not self._known((l[1], 0, l[3], l[4]))]
            if not r.ok and early:        # the run did not get to its end, but what it rejected it did reject
                self.notes["validation_cut_short"] = r.rc
                self.bad += [(l[1], int(l[2]), l[3], l[4]) for l in early]
                self.traces.update({t["id"]: t for t in traces})
                return r
            if not r.ok:
                keep = os.path.join(evidence_dir(), "debug-%s.ndjson" % self.prop)
                shutil.copy(p, keep)
                raise MachineryError("trace validation %s failed to run (traces kept in %s):\n%s" % (module, keep, _tail(r.out)))
        finally:
            shutil.rmtree(d, ignore_errors=True)
        ids = {t["id"]: t for t in traces}
        done = {l[1] for l in r.lines if l[0] == "DONE"}
        missing = set(ids) - done
        if missing:
            raise MachineryError("traces not consumed to the end: %s\n%s" % (sorted(missing)[:5], _tail(r.out)))
        for l in r.lines:
            if l[0] == "BAD":
                self.bad.append((l[1], int(l[2]), l[3], l[4]))
        self.states += r.states
        self.transitions += r.transitions
        self.validated += len(traces)
        self.mc_runs.append({"module": module, "cfg": cfg or module, "states": r.states, "generated": r.transitions,
                             "traces": len(traces), "events": sum(len(t["ev"]) for t in traces)})
        self.traces.update(ids)
        if len(self.samples) < 6:
            for t in traces[:2] + traces[-1:]:
                s = json.dumps(t)
                self.samples.append(json.loads(s) if len(s) < 3000 else s[:1500] + " ...")
        return r

    def _cut(self, t, most=3000000):
        """A trace far longer than any of a healthy tree is judged up to its first events only."""
        n = 0
        for i, e in enumerate(t["ev"]):
            n += len(json.dumps(e))
            if n > most:
                self.notes["traces_cut"] = self.notes.get("traces_cut", 0) + 1
                return dict(t, ev=t["ev"][:i]) if i else None
        return t

    def _known(self, b):
        if not hasattr(self, "_findings"):
            kf = os.path.join(VERIF, "known_findings.json")
            self._findings = [k for k in json.load(open(kf))["findings"] if k["property"] == self.prop] if os.path.exists(kf) else []
        for k in self._findings:
            if re.fullmatch(k["trace"], b[0]) and b[3] in k["clauses"]:
                return k
        return None

    # -- verdict ------------------------------------------------------------------------------------------------------
    def finish(self):
        found, new = {}, []
        for b in sorted(set(self.bad)):
            k = self._known(b)
            if k:
                found.setdefault(k["id"], (k, []))[1].append(b)
            else:
                new.append(b)
        for fid in sorted(found):
            k, bs = found[fid]
            print("KNOWN-FINDING: property=%s %s (%d occurrences, e.g. %s step %d %s/%s)" %
                  (self.prop, k["what"], len(bs), bs[0][0], bs[0][1], bs[0][2], bs[0][3]))
        ev_dir = evidence_dir()
        os.makedirs(ev_dir, exist_ok=True)
        replay = None
        if new:
            replay = os.path.join(ev_dir, "replay-%s.json" % self.prop)
            first = new[0][0]
            json.dump({"property": self.prop, "seed": self.seed, "tier": self.tier,
                       "violations": [{"trace": b[0], "step": b[1], "event": b[2], "clause": b[3]} for b in new[:200]],
                       "trace": self.traces.get(first)}, open(replay, "w"), indent=1)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": {"states": self.states, "transitions": self.transitions,
                           "traces_validated_against_impl": self.validated, "samples": self.samples or [{}],
                           "tlc_runs": self.mc_runs, "events": sum(len(t["ev"]) for t in self.traces.values()),
                           **self.notes},
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(new)}
        json.dump(ev, open(os.path.join(ev_dir, self.prop + ".json"), "w"), indent=1)
        for b in new[:20]:
            txt = ""
            t = self.traces.get(b[0])
            if t and 0 < b[1] <= len(t["ev"]):
                txt = t["ev"][b[1] - 1].get("text", "")
            print("  trace %s step %d (%s): clause %s fails %s" % (b[0], b[1], b[2], b[3], txt))
        if new:
            print("VIOLATION property=%s replay=%s" % (self.prop, replay))
            return 1
        print("%s: held on %d traces, %d states, %.1fs" % (self.prop, self.validated, self.states, time.time() - self.t0))
        return 0


def _tail(s):
    lines = [l for l in s.splitlines() if not l.startswith(("@@", "Loading", "Parsing", "Semantic proc", "Linting"))]
    return "\n".join(lines)[-4000:]


# -- encoding of values -------------------------------------------------------------------------------------------------
def num(x):
    """A real for the specification: its exact decimal form as a string."""
    return repr(float(x))


def nums(v):
    import numpy as np
    return [repr(float(x)) for x in np.asarray(v, dtype=float).reshape(-1)]


def rows(m):
    import numpy as np
    m = np.asarray(m, dtype=float)
    return [[repr(float(x)) for x in r] for r in m]


def shape(a):
    import numpy as np
    try:
        return [int(x) for x in np.shape(a)]
    except Exception:
        return [-1]
