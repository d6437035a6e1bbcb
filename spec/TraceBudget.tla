---------------------------- MODULE TraceBudget -----------------------------
(* Conformance of requests under a controlled clock (C17).                  *)
(* st: samples and weights returned so far, whether any request was cut     *)
EXTENDS BudgetProps, Replay
VARIABLES k, l, st
Start == [S |-> <<>>, cut |-> FALSE]
Finite2(M) == \A i \in DOMAIN M : \A j \in DOMAIN M[i] : RFinite(M[i][j])
Req(cfg, s, e) ==
  LET old == Len(s.S)
      deadline == RAdd(e.t0, e.budget)
      spent == ~RLt(e.t1, deadline)
      most == OneIteration(cfg.method, cfg.p, cfg.D, e.n, old, e.made)
      late == {i \in DOMAIN e.ev : ~RLt(e.ev[i].t, deadline)}
      points == RSum([i \in DOMAIN e.ev |-> IF i \in late THEN ToString(e.ev[i].k) ELSE "0"])
  IN   Need("paired", Len(e.W) = Len(e.S) /\ e.rows = Len(e.S))
  \cup Need("finite", Finite2(e.S) /\ \A i \in DOMAIN e.W : RFinite(e.W[i]) /\ ~RLt(e.W[i], "0"))
  \cup Need("earlier-samples-kept", cfg.flat => old <= Len(e.S) /\ SubSeq(e.S, 1, old) = s.S)
  \cup Need("never-less-than-before", cfg.method # "tp" => Len(e.S) >= old)
  \cup Need("reached-or-spent", Len(e.S) >= e.n \/ spent)
  \cup Need("no-iteration-begun-late", RLe(points, ToString(most)))
  \cup Need("samples-were-evaluated", cfg.method # "mh" => e.asked = Len(e.S))
  \cup Need("evaluations-counted", e.counted = e.evals)
  \cup Need("budget-to-spare-is-no-matter", ~s.cut /\ ~spent => e.S = e.TS /\ e.W = e.TW)
  \cup Need("answers-about-itself", e.answers)
Fails(cfg, s, e) ==
  CASE e.op = "Raised" -> {"no-error"}
    [] e.op = "Reset" -> {}
    [] e.op = "Req" -> Req(cfg, s, e)
    [] OTHER -> {"unknown-event"}
After(s, e) ==
  CASE e.op = "Reset" -> Start
    [] e.op = "Req" -> [S |-> e.S, cut |-> s.cut \/ ~RLt(e.t1, RAdd(e.t0, e.budget))]
    [] OTHER -> s
TInit == k \in 1..Len(Traces) /\ l = 1 /\ st = Start
TNext == LET T == Traces[k] IN
         /\ l <= Len(T.ev)
         /\ Report(k, l, T.ev[l].op, Fails(T.cfg, st, T.ev[l]))
         /\ st' = After(st, T.ev[l])
         /\ l' = l + 1 /\ k' = k
         /\ l = Len(T.ev) => Done(k)
TSpec == TInit /\ [][TNext]_<<k, l, st>>
=============================================================================
