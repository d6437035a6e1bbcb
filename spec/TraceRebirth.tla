---------------------------- MODULE TraceRebirth ----------------------------
(* Conformance of recorded lives with Rebirth: after each Reset (used       *)
(* instance, seeded) the answers are those recorded from a new instance     *)
(* built with the same seed and given the same commands.                    *)
EXTENDS RebirthProps, Replay
VARIABLES k, l, st
\* Ans events: who ("fresh" | "used"), i (index in life), S, W, stats, dens, draw
Fails(cfg, s, e) ==
  CASE e.op = "Raised" -> {"no-error"}
    [] e.op = "Birth" -> {}
    [] e.op = "Ans" /\ e.who = "fresh" -> {}
    [] e.op = "Ans" /\ e.who = "used" ->
         IF e.i > Len(s) THEN {"longer-life"}
         ELSE LET f == s[e.i] IN
                   Need("same-samples", SameLife(e.S, f.S))
              \cup Need("same-weights", SameLife(e.W, f.W))
              \cup Need("same-statistics", SameLife(e.stats, f.stats))
              \cup Need("same-density", SameLife(e.dens, f.dens))
              \cup Need("same-draws", SameLife(e.draw, f.draw))
    [] OTHER -> {"unknown-event"}
After(cfg, s, e) ==
  CASE e.op = "Birth" /\ e.who = "fresh" -> <<>>
    [] e.op = "Ans" /\ e.who = "fresh" -> Append(s, e)
    [] OTHER -> s
TInit == k \in 1..Len(Traces) /\ l = 1 /\ st = <<>>
TNext == LET T == Traces[k] IN
         /\ l <= Len(T.ev)
         /\ Report(k, l, T.ev[l].op, Fails(T.cfg, st, T.ev[l]))
         /\ st' = After(T.cfg, st, T.ev[l])
         /\ l' = l + 1 /\ k' = k
         /\ l = Len(T.ev) => Done(k)
TSpec == TInit /\ [][TNext]_<<k, l, st>>
=============================================================================
