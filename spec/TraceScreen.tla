---------------------------- MODULE TraceScreen -----------------------------
(* Conformance of recorded drawings of samplers and distributions (V02).    *)
(* st: the elements of others and of the drawings not yet taken away.       *)
EXTENDS Replay
VARIABLES k, l, st
SetOf(s) == {s[i] : i \in DOMAIN s}
Start == [foreign |-> {}, held |-> <<>>]
Screen(s) == s.foreign \cup UNION {s.held[i] : i \in DOMAIN s.held}
\* ---- one dimension: curves ----
Spans(g, lo, hi) == LET n == Len(g.x) IN n > 1 /\ RClose(g.x[1], lo, "1e-9", "1e-9") /\ RClose(g.x[n], hi, "1e-9", "1e-9")
SameCurve(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : RClose(a[i], b[i], "1e-9", "1e-280")
Normal1(x, c) == RDiv(RExp(RNeg(RDiv(RMul(RSub(x, c.mean), RSub(x, c.mean)), RMul("2", c.var)))), RSqrt(RMul("6.283185307179586", c.var)))
Close1(y, x, c) ==
  IF c.kind = "normal" THEN RClose(y, RMul(c.w, Normal1(x, c)), "1e-9", "1e-280")
  ELSE LET h == RDiv(c.w, RSub(c.hi, c.lo))
           edge == RClose(x, c.lo, "1e-9", "1e-9") \/ RClose(x, c.hi, "1e-9", "1e-9")
           in == RLt(c.lo, x) /\ RLt(x, c.hi)
       IN  ((in \/ edge) /\ RClose(y, h, "1e-9", "0")) \/ ((~in \/ edge) /\ RClose(y, "0", "0", "1e-300"))
\* ---- two dimensions: contours ----
Matches(s, d, peak) == Len(s.lv) > 0 /\ \A i \in DOMAIN s.lv : RLe(RAbs(RSub(d[i], s.lv[i])), RMul("0.1", peak))
\* ---- boxes of a tree ----
SameBox(a, b) == \A i \in DOMAIN a.lo : RClose(a.lo[i], b.lo[i], "1e-9", "1e-9") /\ RClose(a.hi[i], b.hi[i], "1e-9", "1e-9")
RECURSIVE Vol(_, _)
Vol(b, i) == IF i > Len(b.lo) THEN "1" ELSE RMul(RSub(b.hi[i], b.lo[i]), Vol(b, i + 1))
SamePlace(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : RClose(a[i], b[i], "1e-9", "1e-9")
Shown(e) ==
     Need("density-shown", \A j \in 1..e.nwant : \E g \in SetOf(e.groups) : Spans(g, e.lo[1], e.hi[1]) /\ \E c \in DOMAIN g.ys : SameCurve(g.ys[c], g.want[j]))
\cup Need("components-shown", \A c \in SetOf(e.comps) : \E g \in SetOf(e.groups) : Spans(g, e.lo[1], e.hi[1]) /\
                                  \E y \in DOMAIN g.ys : \A i \in DOMAIN g.x : Close1(g.ys[y][i], g.x[i], c))
\cup Need("stem-of-every-sample", \A i \in DOMAIN e.samples : \E s \in SetOf(e.stems) : RClose(s.x, e.samples[i].x, "1e-9", "1e-12")
              /\ REq(s.from, "0") /\ RClose(RMul(s.to, e.wmax), RMul(e.samples[i].w, e.hmax), "1e-9", "1e-300"))
\cup Need("no-other-stems", \A s \in SetOf(e.stems) : \E i \in DOMAIN e.samples : RClose(s.x, e.samples[i].x, "1e-9", "1e-12"))
\cup Need("contours-of-the-density", \A j \in DOMAIN e.cwant : \E c \in SetOf(e.contours) : Matches(c, c.dens[j], e.cwant[j]))
\cup Need("box-of-every-cell", \A c \in SetOf(e.cells) : Cardinality({i \in DOMAIN e.boxes : SameBox(e.boxes[i], c)}) = 1)
\cup Need("no-other-boxes", Len(e.boxes) = Len(e.cells))
\cup Need("boxes-fill-the-space", e.boxes # <<>> => RClose(RSum([i \in DOMAIN e.boxes |-> Vol(e.boxes[i], 1)]), Vol([lo |-> e.lo, hi |-> e.hi], 1), "1e-9", "0"))
\cup Need("mark-of-every-point", \A m \in SetOf(e.points) : \E n \in SetOf(e.marks) : SamePlace(m.pos, n.pos) /\ (m.sym = "any" \/ m.sym = n.sym))
\cup Need("legend-names-things-once", Cardinality(SetOf(e.labels)) = Len(e.labels))
DrawFails(s, e) ==
     Need("axes-as-before", SetOf(e.before) = Screen(s))
\cup Need("elements-of-others-stay", SetOf(e.before) \subseteq SetOf(e.after))
\cup Need("hands-out-what-it-adds", e.tracks => SetOf(e.ids) = SetOf(e.after) \ SetOf(e.before) /\ Cardinality(SetOf(e.ids)) = Len(e.ids))
\cup Need("nothing-changed", e.changed = <<>>)
\cup Need("other-axes-left-alone", ~e.elsewhere)
\cup Shown(e)
\* a random function: its mean and three standard deviations to either side, estimated from e.reps repetitions
BandFails(s, e) ==
  LET far == RMul("8", RDiv(e.sd, RSqrt(ToString(e.reps)))) IN
     Need("axes-as-before", SetOf(e.before) = Screen(s))
\cup Need("elements-of-others-stay", SetOf(e.before) \subseteq SetOf(e.after))
\cup Need("nothing-changed", e.changed = <<>>)
\cup Need("other-axes-left-alone", ~e.elsewhere)
\cup Need("one-mean-and-one-band", e.lines = 1 /\ e.bands = 1)
\cup Need("from-end-to-end-of-the-support", RClose(e.first, e.lo, "1e-9", "1e-9") /\ RClose(e.last, e.hi, "1e-9", "1e-9"))
\cup Need("mean-shown", \A q \in SetOf(e.rows) : RLe(RAbs(RSub(q.mean, q.f)), far))
\cup Need("band-around-the-mean", \A q \in SetOf(e.rows) : RClose(RSub(q.high, q.mean), RSub(q.mean, q.low), "1e-6", "1e-9"))
\cup Need("band-as-wide-as-the-noise", \A q \in SetOf(e.rows) : RLt(RMul("0.3", e.sd), RSub(q.high, q.mean)) /\ RLt(RSub(q.high, q.mean), RMul("9", e.sd)))
\cup Need("named-as-asked", e.label = "" => e.named = <<>>)
\cup Need("named-as-asked", e.label # "" => e.named # <<>> /\ SetOf(e.named) = {e.label})
Fails(s, e) ==
  CASE e.op = "Raised" -> {"no-error"}
    [] e.op = "New" -> {}
    [] e.op = "Req" -> Need("as-if-never-drawn", e.mine = e.twin)
    [] e.op = "Own" -> {}
    [] e.op = "Draw" -> DrawFails(s, e)
    [] e.op = "Band" -> BandFails(s, e)
    [] e.op = "Clear" -> Need("taken-away-without-residue", SetOf(e.after) = s.foreign \cup UNION {s.held[i] : i \in 2..Len(s.held)})
    [] OTHER -> {"unknown-event"}
After(s, e) ==
  CASE e.op = "Own" -> [s EXCEPT !.foreign = @ \cup {e.id}]
    [] e.op \in {"Draw", "Band"} -> [s EXCEPT !.held = Append(@, SetOf(e.after) \ SetOf(e.before))]
    [] e.op = "Clear" -> [foreign |-> SetOf(e.after) \ UNION {s.held[i] : i \in 2..Len(s.held)}, held |-> Tail(s.held)]
    [] OTHER -> s
TInit == k \in 1..Len(Traces) /\ l = 1 /\ st = Start
TNext == LET T == Traces[k] IN
         /\ l <= Len(T.ev)
         /\ Report(k, l, T.ev[l].op, Fails(st, T.ev[l]))
         /\ st' = After(st, T.ev[l])
         /\ l' = l + 1 /\ k' = k
         /\ l = Len(T.ev) => Done(k)
TSpec == TInit /\ [][TNext]_<<k, l, st>>
=============================================================================
