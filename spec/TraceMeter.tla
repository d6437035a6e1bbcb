----------------------------- MODULE TraceMeter -----------------------------
(* Conformance of recorded lives of the time and memory metrics (M02).      *)
(* cfg.cost: what the controlled clock charges for measuring one interval;  *)
(* cfg.unit: what one unit of the figure is worth in readings.              *)
EXTENDS MeterProps, Replay
VARIABLES k, l, st
Want(cfg, s) == RDiv(s.sum, cfg.unit)
Reads(cfg, s, e) == LET w == Want(cfg, s) IN
      Need("sum-of-completed-intervals", RClose(e.v, w, "1e-9", "1e-7"))
 \cup Need("value-agrees", RClose(e.value, w, "1e-9", "1e-7"))
Next1(cfg, s, e) ==
  CASE e.op = "New" -> Idle(e.at)
    [] e.op = "Start" -> Started(MoveTo(s, e.at))
    [] e.op = "Stop" -> Stopped(MoveTo(s, e.at), cfg.cost)
    [] e.op = "Reset" -> Cleared(s)
    [] OTHER -> s
Fails(cfg, s, e) ==
  CASE e.op = "Raised" -> {"no-error"}
    [] e.op \in {"New", "Start", "Stop", "Reset", "Read"} -> Reads(cfg, Next1(cfg, s, e), e)
    [] OTHER -> {"unknown-event"}
TInit == k \in 1..Len(Traces) /\ l = 1 /\ st = Idle("0")
TNext == LET T == Traces[k] IN
         /\ l <= Len(T.ev)
         /\ Report(k, l, T.ev[l].op, Fails(T.cfg, st, T.ev[l]))
         /\ st' = Next1(T.cfg, st, T.ev[l])
         /\ l' = l + 1 /\ k' = k
         /\ l = Len(T.ev) => Done(k)
TSpec == TInit /\ [][TNext]_<<k, l, st>>
=============================================================================
