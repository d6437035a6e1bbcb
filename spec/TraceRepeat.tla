----------------------------- MODULE TraceRepeat ----------------------------
(* Conformance of recorded evaluations (B03): st maps each experiment and   *)
(* seed to the outcome first seen; every later outcome must be the same.    *)
EXTENDS Replay
VARIABLES k, l, st
\* st: a set of records [key, rows, S, W]
Old(s, e) == CHOOSE o \in s : o.key = e.key
Known(s, e) == \E o \in s : o.key = e.key
Fails(s, e) ==
  CASE e.op = "Raised" -> {"no-error"}
    [] e.op = "Disturb" -> {}
    [] e.op = "Run" -> IF Known(s, e)
         THEN LET o == Old(s, e) IN Need("same-rows", o.rows = e.rows) \cup Need("same-samples", o.S = e.S) \cup Need("same-weights", o.W = e.W)
                                \cup Need("same-figures", o.vals = e.vals)
         ELSE {}
    [] OTHER -> {"unknown-event"}
After(s, e) == IF e.op = "Run" /\ ~Known(s, e) THEN s \cup {[key |-> e.key, rows |-> e.rows, S |-> e.S, W |-> e.W, vals |-> e.vals]} ELSE s
TInit == k \in 1..Len(Traces) /\ l = 1 /\ st = {}
TNext == LET T == Traces[k] IN
         /\ l <= Len(T.ev)
         /\ Report(k, l, T.ev[l].op, Fails(st, T.ev[l]))
         /\ st' = After(st, T.ev[l])
         /\ l' = l + 1 /\ k' = k
         /\ l = Len(T.ev) => Done(k)
TSpec == TInit /\ [][TNext]_<<k, l, st>>
=============================================================================
