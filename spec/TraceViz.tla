------------------------------ MODULE TraceViz ------------------------------
(* Conformance of recorded drawings (V01).                                  *)
EXTENDS VizProps, Replay
VARIABLES k, l
On(seq) == LET s == Latest(seq) IN [i \in DOMAIN s |-> s[i].e]
Fails(e) ==
  CASE e.op = "Raised" -> {"no-error"}
    [] e.op = "Drawn" -> LET s == TLCEval(Shows(e.art, IF e.fixed = <<>> THEN On(e.seq) ELSE On(e.fixed) \o On(e.seq)))
                         IN Need("lines-of-the-latest", s.lines) \cup Need("points-of-the-latest", s.points) \cup Need("texts-of-the-latest", s.texts)
                       \cup Need("nothing-else", e.art.other = 0)
    [] OTHER -> {"unknown-event"}
TInit == k \in 1..Len(Traces) /\ l = 1
TNext == LET T == Traces[k] IN
         /\ l <= Len(T.ev)
         /\ Report(k, l, T.ev[l].op, Fails(T.ev[l]))
         /\ l' = l + 1 /\ k' = k
         /\ l = Len(T.ev) => Done(k)
TSpec == TInit /\ [][TNext]_<<k, l>>
=============================================================================
