----------------------------- MODULE TraceDist ------------------------------
(* Conformance of recorded distribution objects (D01, D02, D03, D04).       *)
EXTENDS DistProps, Replay
VARIABLES k, l, st
\* per object: parameters in force, values seen since they last changed, last draw
Start == [par |-> [o \in {} |-> 0], seen |-> [o \in {} |-> {}], drawn |-> [o \in {} |-> <<>>]]
Put(f, o, v) == [q \in DOMAIN f \cup {o} |-> IF q = o THEN v ELSE f[q]]
SameVal(a, b) == RClose(a, b, "1e-11", "1e-300")
SameLog(a, b) == RClose(a, b, "1e-11", "1e-11")
D01(s, e) ==
  IF e.op = "Eval" THEN
       Need("one-value-per-point", Len(e.P) = Len(e.X) /\ Len(e.LP) = Len(e.X) /\ e.shP = <<Len(e.X)>> /\ e.shLP = <<Len(e.X)>>)
  \cup Need("pointwise", Len(e.P1) = Len(e.X) /\ Len(e.P) = Len(e.X) => \A i \in DOMAIN e.X : SameVal(e.P[i], e.P1[i]) /\ SameLog(e.LP[i], e.LP1[i]))
  \cup Need("flat-vector-is-one-point", \A i \in DOMAIN e.F : Len(e.F[i]) = 2 /\ SameVal(e.F[i][1], e.P1[i]) /\ SameLog(e.F[i][2], e.LP1[i]))
  \cup Need("input-untouched", e.X2 = e.X)
  \cup Need("same-later", \A i \in DOMAIN e.P1 : \A old \in s.seen[e.o] : old[1] = e.X[i] => SameVal(e.P1[i], old[2]) /\ SameLog(e.LP1[i], old[3]))
  ELSE IF e.op = "Bad" THEN Need("wrong-shape-refused", e.raised)
  ELSE IF e.op = "Draw" THEN Need("draw-shape", e.sh = <<e.n, e.dims>>)
  ELSE {}
D02(s, e) ==
  IF e.op # "Eval" THEN {}
  ELSE LET want == TLCEval([i \in DOMAIN e.X |-> LogD(s.par[e.o], e.X[i])])
           edge == {i \in DOMAIN e.X : OnEdge(s.par[e.o], e.X[i])}
       IN  Need("density", Len(e.P) = Len(e.X) /\ \A i \in DOMAIN e.X \ edge : ExpClose(e.P[i], want[i]))
      \cup Need("log-density", Len(e.LP) = Len(e.X) /\ \A i \in DOMAIN e.X \ edge : LogClose(e.LP[i], want[i]))
      \cup Need("log-is-the-logarithm", Len(e.LP) = Len(e.P) /\ \A i \in DOMAIN e.P : ExpClose(e.P[i], e.LP[i]))
D03(s, e) ==
  IF e.op = "Eval" THEN D02(s, e)
  ELSE IF e.op \in {"New", "Move"} THEN
       LET a == InForce(e.par.w)
       IN  Need("weights-in-force", Len(e.w) = Len(a) /\ \A i \in DOMAIN a : RClose(e.w[i], a[i], "1e-12", "0"))
  ELSE {}
D04(s, e) ==
  IF e.op # "Draw" THEN {}
  ELSE LET p == s.par[e.o]
       IN  Need("in-the-support", \A i \in DOMAIN e.rows : RLt("-inf", LogD(p, e.rows[i])))
      \cup Need("region-frequency", \A i \in DOMAIN e.cuts : Plausible(e.cuts[i].k, e.n, TLCEval(Below(p, e.cuts[i].v, e.cuts[i].t))))
      \cup Need("corner-frequency", \A i \in DOMAIN e.corners : Plausible(e.corners[i].k, e.n, TLCEval(Corner(p, e.corners[i].t))))
      \cup Need("new-draws-each-time", e.o \in DOMAIN s.drawn => s.drawn[e.o] # e.rows)
Fails(s, e) ==
  IF e.op = "Raised" THEN {"no-error"}
  ELSE IF e.op \notin {"New", "Move", "Eval", "Bad", "Draw"} THEN {"unknown-event"}
  ELSE CASE Prop = "D01" -> D01(s, e) [] Prop = "D02" -> D02(s, e) [] Prop = "D03" -> D03(s, e) [] Prop = "D04" -> D04(s, e)
After(s, e) ==
  CASE e.op \in {"New", "Move"} -> [s EXCEPT !.par = Put(s.par, e.o, e.par), !.seen = Put(s.seen, e.o, {})]
    [] e.op = "Eval" -> [s EXCEPT !.seen = Put(s.seen, e.o, s.seen[e.o] \cup {<<e.X[i], e.P1[i], e.LP1[i]>> : i \in DOMAIN e.P1})]
    [] e.op = "Draw" -> [s EXCEPT !.drawn = Put(s.drawn, e.o, e.rows)]
    [] OTHER -> s
TInit == k \in 1..Len(Traces) /\ l = 1 /\ st = Start
TNext == LET T == Traces[k] IN
         /\ l <= Len(T.ev)
         /\ Report(k, l, T.ev[l].op, Fails(st, T.ev[l]))
         /\ st' = After(st, T.ev[l])
         /\ l' = l + 1 /\ k' = k
         /\ l = Len(T.ev) => Done(k)
TSpec == TInit /\ [][TNext]_<<k, l, st>>
=============================================================================
