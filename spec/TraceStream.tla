---------------------------- MODULE TraceStream -----------------------------
(* Conformance of recorded reader runs (U01).  st: every state the reader   *)
(* may be in after the events so far, given that an operation takes effect  *)
(* at some moment between its beginning and its end; empty once no order of *)
(* effects explains what was seen.                                          *)
EXTENDS StreamProps, Replay
VARIABLES k, l, st
\* [q, off: <<>> or <<line, in effect>>, call: <<>> or <<op, in effect, answer>>]
Start == {[q |-> <<>>, off |-> <<>>, call |-> <<>>]}
Effect(c) == (IF c.off # <<>> /\ ~c.off[2] THEN {[c EXCEPT !.q = Append(c.q, c.off[1]), !.off = <<c.off[1], TRUE>>]} ELSE {})
        \cup (IF c.call # <<>> /\ ~c.call[2] THEN {[c EXCEPT !.q = Left(c.q, c.call[1]), !.call = <<c.call[1], TRUE, Answer(c.q, c.call[1])>>]} ELSE {})
More(S) == S \cup UNION {Effect(c) : c \in S}
After(S, e) ==
  CASE e.op = "Offer" -> {[c EXCEPT !.off = <<e.line, FALSE>>] : c \in S}
    [] e.op = "Taken" -> {[c EXCEPT !.off = <<>>] : c \in {x \in More(More(S)) : x.off # <<>> /\ x.off[2]}}
    [] e.op = "Call" -> {[c EXCEPT !.call = <<e.c, FALSE, "">>] : c \in S}
    [] e.op = "Return" -> {[c EXCEPT !.call = <<>>] : c \in {x \in More(More(S)) : x.call # <<>> /\ x.call[2] /\ x.call[3] = e.v}}
    [] OTHER -> S
Fails(S, e) ==
  CASE e.op = "Raised" -> {"no-error"}
    [] e.op \in {"Offer", "Taken", "Call", "Quiet"} -> {}
    [] e.op = "Return" -> Need("explained-by-some-order", S # {} => After(S, e) # {})
    [] OTHER -> {"unknown-event"}
TInit == k \in 1..Len(Traces) /\ l = 1 /\ st = Start
TNext == LET T == Traces[k] IN
         /\ l <= Len(T.ev)
         /\ Report(k, l, T.ev[l].op, Fails(st, T.ev[l]))
         /\ st' = After(st, T.ev[l])
         /\ l' = l + 1 /\ k' = k
         /\ l = Len(T.ev) => Done(k)
TSpec == TInit /\ [][TNext]_<<k, l, st>>
=============================================================================
