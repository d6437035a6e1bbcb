------------------------------ MODULE TraceDiv ------------------------------
(* Conformance of recorded lives of the divergence and statistics metrics   *)
(* (M01: KL and JSD figures; M03: expected-value error, evaluation points). *)
EXTENDS DivProps, Replay
VARIABLES k, l, st
Start == [m |-> "", X |-> <<>>, p |-> <<>>, q |-> <<>>, lp |-> <<>>, lq |-> <<>>, val |-> "0"]
Near(m, got, want, size) ==
  \/ got = want
  \/ m = "EVMSE" /\ RClose(got, want, "1e-6", RMul("1e-18", RMul(size, size)))
  \/ m # "EVMSE" /\ RClose(got, want, "1e-6", "1e-9")
Size(X) == LET s == {RAbs(X[i][d]) : i \in DOMAIN X, d \in DOMAIN X[1]} IN RAdd("1", CHOOSE x \in s : \A y \in s : RLe(y, x))
Judged(m) == IF Prop = "M01" THEN m # "EVMSE" ELSE m = "EVMSE"
Fig(s) == Figure(s.m, s.X, s.p, s.q, s.lp, s.lq)
Sound(m, v) == IF m = "EVMSE" THEN RLe("0", v)
               ELSE RLe("-1e-9", v) /\ (m = "JSD" => RLe(v, "1.000000001"))
Value(s, e, src) ==
  IF ~Judged(s.m) THEN {}
  ELSE LET w == TLCEval(Figure(s.m, src.X, src.p, src.q, src.lp, src.lq))
       IN  Need("figure", Near(s.m, e.v, w, Size(src.X)))
      \cup Need("value-is-what-was-returned", REq(e.value, e.v) \/ e.value = e.v)
      \cup Need("non-negative-and-bounded", Sound(s.m, e.v))
\* evaluation points: the requested number, inside the support, the same for both, spread evenly
Points(e) ==
  IF Prop # "M03" THEN {}
  ELSE Need("requested-number-of-points", e.np = e.n /\ e.nq = e.n)
  \cup Need("same-points-for-both", e.same)
  \cup Need("points-in-the-support", VLe(e.lo, e.min) /\ VLe(e.max, e.hi))
  \cup Need("points-spread-evenly", \A i \in DOMAIN e.cuts : Plausible(e.cuts[i].c, e.n, e.cuts[i].t))
Fails(s, e) ==
  CASE e.op = "Raised" -> {"no-error"}
    [] e.op \in {"New", "Pair"} -> {}
    [] e.op = "Eval" -> Value(s, e, s)
    [] e.op = "Fresh" -> Value(s, e, e) \cup Points(e)
    [] e.op = "Parts" -> IF Judged("KL") THEN Need("contributions-add-up", Near("KL", e.v, KLOf(s.lp, s.lq), "1")) ELSE {}
    [] e.op \in {"Bracket", "Look"} -> IF Judged(s.m) THEN Need("figure-kept", e.value = s.val \/ REq(e.value, s.val)) ELSE {}
    [] e.op = "Reset" -> IF Judged(s.m) THEN Need("reset-to-zero", REq(e.value, "0")) ELSE {}
    [] OTHER -> {"unknown-event"}
After(s, e) ==
  CASE e.op = "New" -> [s EXCEPT !.m = e.m, !.val = "0"]
    [] e.op = "Pair" -> [s EXCEPT !.X = e.X, !.p = e.p, !.q = e.q, !.lp = e.lp, !.lq = e.lq]
    [] e.op \in {"Eval", "Fresh"} -> [s EXCEPT !.val = e.v]
    [] e.op = "Reset" -> [s EXCEPT !.val = "0"]
    [] OTHER -> s
TInit == k \in 1..Len(Traces) /\ l = 1 /\ st = Start
TNext == LET T == Traces[k] IN
         /\ l <= Len(T.ev)
         /\ Report(k, l, T.ev[l].op, Fails(st, T.ev[l]))
         /\ st' = After(st, T.ev[l])
         /\ l' = l + 1 /\ k' = k
         /\ l = Len(T.ev) => Done(k)
TSpec == TInit /\ [][TNext]_<<k, l, st>>
=============================================================================
