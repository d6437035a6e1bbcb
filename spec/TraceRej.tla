------------------------------ MODULE TraceRej ------------------------------
(* Conformance of recorded rejection sampling (C13).                        *)
EXTENDS RejProps, Replay
VARIABLES k, l, st
Start == [S |-> <<>>]
Req(cfg, s, e) ==
  IF Len(e.xs) # Len(e.us) THEN {"one-uniform-per-proposal"}
  ELSE IF \E i \in DOMAIN e.xs : Near(cfg, e.xs[i], e.us[i]) THEN {}
  ELSE Need("keeps-exactly-the-accepted", e.S = s.S \o Kept(cfg, e.xs, e.us))
  \cup Need("total-reached", e.cut \/ Len(e.S) >= e.n)
  \cup Need("equal-weights-summing-to-one", Len(e.W) = Len(e.S) /\ (e.S # <<>> => EqualToOne(e.W)))
  \cup Need("evaluates-the-proposals", {e.pts[i] : i \in DOMAIN e.pts} = {e.xs[i] : i \in DOMAIN e.xs})
Fails(cfg, s, e) ==
  CASE e.op = "Raised" -> {"no-error"}
    [] e.op = "Reset" -> {}
    [] e.op = "Req" -> Req(cfg, s, e)
    [] e.op = "Look" -> Need("density-is-the-envelope", Len(e.p) = Len(e.x) /\ \A i \in DOMAIN e.x : RClose(e.p[i], Envelope(cfg, e.x[i]), "1e-9", "0"))
    [] OTHER -> {"unknown-event"}
After(cfg, s, e) == CASE e.op = "Reset" -> Start [] e.op = "Req" -> [S |-> e.S] [] OTHER -> s
TInit == k \in 1..Len(Traces) /\ l = 1 /\ st = Start
TNext == LET T == Traces[k] IN
         /\ l <= Len(T.ev)
         /\ Report(k, l, T.ev[l].op, Fails(T.cfg, st, T.ev[l]))
         /\ st' = After(T.cfg, st, T.ev[l])
         /\ l' = l + 1 /\ k' = k
         /\ l = Len(T.ev) => Done(k)
TSpec == TInit /\ [][TNext]_<<k, l, st>>
=============================================================================
