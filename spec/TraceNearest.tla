---------------------------- MODULE TraceNearest ----------------------------
(* Conformance of recorded lives of two nearest-neighbour models (D07).     *)
EXTENDS NearestProps, Replay
VARIABLES k, l, st
Start == <<[C |-> <<>>, w |-> <<>>], [C |-> <<>>, w |-> <<>>]>>
Ask(m, e) ==
     Need("one-value-per-point", Len(e.LP) = Len(e.X) /\ Len(e.P) = Len(e.X))
\cup Need("value-of-the-nearest-sample", \A i \in DOMAIN e.LP : i \in DOMAIN e.X => Answer(m.C, m.w, e.X[i], e.LP[i]))
\cup Need("density-is-its-exponential", \A i \in DOMAIN e.P : i \in DOMAIN e.X => \E j \in Nearest(m.C, e.X[i]) : RClose(e.P[i], RExp(m.w[j]), "1e-12", "0"))
\cup Need("points-left-alone", e.kept)
Twins(m, i) == {j \in DOMAIN m.C : VEq(m.C[j], m.C[i])}
Draw(m, e) ==
  LET at == TLCEval([r \in DOMAIN e.D |-> {i \in DOMAIN m.C : VEq(m.C[i], e.D[r])}])
      hits(i, n) == Cardinality({r \in 1..n : i \in at[r]})
      share(i) == RSum([j \in DOMAIN m.w |-> IF j \in Twins(m, i) THEN Share(m.w, j) ELSE "0"])
  IN   Need("requested-number-of-draws", Len(e.D) = e.n)
  \cup Need("draws-are-stored-samples", \A r \in DOMAIN e.D : at[r] # {})
  \cup Need("weightless-samples-never-drawn", \A r \in DOMAIN e.D : at[r] # {} => \E i \in at[r] : RLt("0", m.w[i]))
  \cup Need("drawn-in-proportion", Len(e.D) = e.n => \A i \in DOMAIN m.C : Plausible(hits(i, e.n), e.n, share(i)))
  \cup Need("draws-in-no-order", Len(e.D) = e.n => \A i \in DOMAIN m.C : LET h == e.n \div 2 IN h = 0 \/ Plausible(hits(i, h), h, share(i)))
Fails(s, e) ==
  CASE e.op = "Raised" -> {"no-error"}
    [] e.op = "New" -> {}
    [] e.op = "Ask" -> Ask(s[e.o], e)
    [] e.op = "Draw" -> Draw(s[e.o], e)
    [] e.op = "Bad" -> Need("wrong-shape-refused", e.refused)
    [] OTHER -> {"unknown-event"}
After(s, e) == IF e.op = "New" THEN [s EXCEPT ![e.o] = [C |-> e.C, w |-> e.w]] ELSE s
TInit == k \in 1..Len(Traces) /\ l = 1 /\ st = Start
TNext == LET T == Traces[k] IN
         /\ l <= Len(T.ev)
         /\ Report(k, l, T.ev[l].op, Fails(st, T.ev[l]))
         /\ st' = After(st, T.ev[l])
         /\ l' = l + 1 /\ k' = k
         /\ l = Len(T.ev) => Done(k)
TSpec == TInit /\ [][TNext]_<<k, l, st>>
=============================================================================
