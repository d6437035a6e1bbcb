---------------------------- MODULE TraceSupport -----------------------------
(* Conformance of the supports real distributions state (D08).              *)
EXTENDS SupportProps, Replay
VARIABLES k, l, st
Start == [o \in {} |-> 0]
Put(f, o, v) == [q \in DOMAIN f \cup {o} |-> IF q = o THEN v ELSE f[q]]
Fails(s, e) ==
  CASE e.op = "Raised" -> {"no-error"}
    [] e.op \in {"New", "Move"} -> {}
    [] e.op = "Look" -> Stated(s[e.o].par, s[e.o].given, e.n, e.box)
                   \cup Need("looking-changes-nothing", e.box2 = e.box)
    [] OTHER -> {"unknown-event"}
After(s, e) ==
  CASE e.op = "New" -> Put(s, e.o, [par |-> e.par, given |-> e.given])
    [] e.op = "Move" -> Put(s, e.o, [par |-> e.par, given |-> s[e.o].given])
    [] OTHER -> s
TInit == k \in 1..Len(Traces) /\ l = 1 /\ st = Start
TNext == LET T == Traces[k] IN
         /\ l <= Len(T.ev)
         /\ Report(k, l, T.ev[l].op, Fails(st, T.ev[l]))
         /\ st' = After(st, T.ev[l])
         /\ l' = l + 1 /\ k' = k
         /\ l = Len(T.ev) => Done(k)
TSpec == TInit /\ [][TNext]_<<k, l, st>>
=============================================================================
