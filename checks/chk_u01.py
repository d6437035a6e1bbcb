"""U01: the stream reader under schedules chosen by the specification, on real threads.

Two threads run the reader's own code: the one it starts itself (fed by a stream written here) and one that calls it.
Each waits for its turn at every bytecode of the reader's module; a plan of the specification says whose turn it is and
whether it lasts to the end of the operation or only for some bytecodes.  A thread that does not move although it is its
turn (it waits for a lock the other one holds) loses the turn."""
import sys, threading, time
import numpy as np


class Turns:
    def __init__(self, path):
        self.cv = threading.Condition()
        self.turn, self.left, self.moves, self.over, self.path = None, None, 0, False, path
        self.ev = []

    def log(self, op, **kw):
        kw["op"] = op
        self.ev.append(kw)

    # -- called on the threads under control
    def tracer(self, who):
        def local(frame, event, arg):
            if event in ("opcode", "line"):
                self.point(who)
            return local

        def start(frame, event, arg):
            if frame.f_code.co_filename == self.path:
                frame.f_trace_opcodes = True
                return local
        return start

    def point(self, who):
        if self.over:
            return
        with self.cv:
            self.moves += 1
            if self.turn == who:
                if self.left is None:
                    return
                self.left -= 1
                if self.left >= 0:
                    return
                self.turn = None
                self.cv.notify_all()
            while self.turn != who and not self.over:
                self.cv.wait()

    def begin(self, who):
        with self.cv:
            while self.turn != who and not self.over:
                self.cv.wait()
            self.moves += 1

    def end(self, who):
        with self.cv:
            self.moves += 1
            if self.turn == who:
                self.turn = None
            self.cv.notify_all()

    # -- called by the one in control
    def give(self, who, points):
        with self.cv:
            self.turn, self.left = who, points
            self.cv.notify_all()
            while self.turn == who:
                seen = self.moves
                self.cv.wait(.02)
                if self.turn == who and self.moves == seen:
                    self.turn = None
                    return


class Stream:
    """What the reader reads from: lines and ends of stream, one at a time."""
    def __init__(self, turns, script):
        self.t, self.script, self.at, self.open, self.idle, self.leave = turns, script, 0, False, threading.Event(), threading.Event()

    def readline(self, *a):
        t = self.t
        if self.open:
            self.open = False
            t.log("Taken")
            t.end("P")
        if self.at >= len(self.script):
            self.idle.set()
            t.end("P")
            self.leave.wait()
            raise SystemExit()        # ends the thread without a word
        t.begin("P")
        if t.over:
            self.idle.set()
            self.leave.wait()
            raise SystemExit()        # ends the thread without a word
        line = self.script[self.at]
        self.at += 1
        if line:
            self.open = True
            t.log("Offer", line=text(line))
        return line


def text(v):
    if v is None:
        return ""
    return v.decode() if isinstance(v, bytes) else v if isinstance(v, str) else repr(v)


def ask(reader, op):
    if op == "Read":
        return reader.read()
    return reader.read_last_and_clear(True) if op == "Keep" else reader.read_last_and_clear(False) if op == "Drop" else reader.read_last_and_clear()


def scenario(t, plan, salt):
    import ais_benchmarks.utils.misc as misc
    r = np.random.RandomState(salt)
    turns = Turns(misc.__file__)
    binary = r.rand() < .3
    script = []
    fresh = True
    for s in plan:
        if s["who"] == "P":
            if fresh:
                n = len(script)
                line = ("line %d\n" % n, "%d" % n, "\n" if "\n" not in script and b"\n" not in script else "x%d\n" % n)[r.randint(3)]
                script.append(line.encode() if binary else line)
            fresh = s["whole"]
    script += [b"" if binary else ""] * r.randint(3)        # the end of the stream, seen once or twice
    stream = Stream(turns, script)
    ops, fresh = [], True
    for s in plan:
        if s["who"] == "C":
            if fresh:
                ops.append("Default" if s["op"] == "Keep" and r.rand() < .5 else s["op"])
            fresh = s["whole"]
    crash = []

    def consume():
        sys.settrace(turns.tracer("C"))
        try:
            for op in ops:
                turns.begin("C")
                if turns.over:
                    return
                turns.log("Call", c="Keep" if op == "Default" else op)
                v = ask(reader, op)
                turns.log("Return", v=text(v))
                turns.end("C")
        except Exception as ex:
            crash.append("%s: %s" % (type(ex).__name__, ex))
            turns.end("C")
        finally:
            sys.settrace(None)

    before = set(threading.enumerate())
    threading.settrace(turns.tracer("P"))
    reader = misc.CNonBlockingStreamReader(stream)
    threading.settrace(None)
    started = set(threading.enumerate()) - before
    c = threading.Thread(target=consume, daemon=True)
    c.start()
    most = {"P": 40, "C": 90}
    for s in plan:
        turns.give(s["who"], None if s["whole"] else int(r.randint(1, most[s["who"]])))
    with turns.cv:
        turns.over = True
        turns.cv.notify_all()
    c.join(15)
    until = time.time() + 15
    gone = lambda: stream.idle.is_set() or not any(x.is_alive() for x in started)
    while not gone() and time.time() < until:
        time.sleep(.001)
    if c.is_alive() or not gone():
        t.ev.extend(list(turns.ev))
        t.add("Raised", text="no answer: a thread never came back")
        stream.leave.set()
        return
    t.ev.extend(turns.ev)
    if crash:
        t.add("Raised", text=crash[0])
    else:
        for _ in range(len(script) + 2):        # whatever is left comes out, then nothing
            t.add("Call", c="Read")
            t.add("Return", v=text(reader.read()))
    stream.leave.set()


def run(chk):
    import ais_benchmarks.utils.misc                  # loaded once, before the workers are forked
    behs = chk.behaviours("MC_Stream", "MC_StreamDeep" if chk.thorough else "MC_Stream")
    chk.notes["plans_enumerated"] = len(behs)
    r = np.random.RandomState(chk.seed)
    cut = [b for b in behs if any(not s["whole"] for s in b[:-1])]
    skip = [b for b in cut if any(s["op"] in ("Keep", "Drop") and not s["whole"] for s in b[:-1])]
    pick = lambda pool, n: [pool[i] for i in r.permutation(len(pool))[:n]]
    k = 20 if chk.thorough else 1
    plans = pick(behs, 400 * k) + pick(cut, 1200 * k) + pick(skip, 1800 * k)
    jobs = [("plan/%d" % i, scenario, (p, int(r.randint(1 << 30)))) for i, p in enumerate(plans)]
    line = {"who": "P", "op": "Line", "whole": True}
    for i in range(24 * k):      # a burst nobody reads, before or in the middle of everything else
        p = list(behs[r.randint(len(behs))])
        whole = [j for j in range(len(p) + 1) if all(not (s["who"] == "P") or s["whole"] for s in p[:j][-1:])]
        j = whole[r.randint(len(whole))] if all(s["whole"] for s in p) else 0
        jobs.append(("burst/%d" % i, scenario, (p[:j] + [line] * (20, 40, 150, 500)[i % 4] + p[j:], int(r.randint(1 << 30)))))
    chk.validate("TraceStream", chk.drive(jobs, limit=90))
