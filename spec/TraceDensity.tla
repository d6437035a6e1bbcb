---------------------------- MODULE TraceDensity ----------------------------
(* Conformance of the densities recorded from real samplers (C16).          *)
(* Every State event carries the state that defines the density (proposals  *)
(* and weights, cells and raw masses, or kernels and held samples), query   *)
(* points and the reported density and log-density, and plain draws.        *)
EXTENDS DensityProps, Replay
VARIABLES k, l, st
Start == [held |-> {}]
Density(cfg, e) ==
  IF cfg.kind = "cells"
  THEN LET m == TLCEval(Masses(e.raw)) IN [i \in DOMAIN e.Q |-> CellDensity(e.cells, m, e.Q[i])]
  ELSE [i \in DOMAIN e.Q |-> MixDensity(e.comps, e.alpha, e.Q[i])]
Below(cfg, e, d) ==
  IF cfg.kind = "cells"
  THEN LET m == TLCEval(Masses(e.raw)) IN Weighted([i \in DOMAIN e.cells |-> CellBelow(e.cells[i], d, e.mid[d])], m)
  ELSE Weighted([i \in DOMAIN e.comps |-> NormBelow(e.comps[i], d, e.mid[d])], e.alpha)
Held(e) == {e.S[i] : i \in DOMAIN e.S}
Fit(P, want) == Len(P) = Len(want) /\ \A i \in DOMAIN P : RClose(P[i], want[i], "1e-7", "1e-300")
Prob(want) == [i \in DOMAIN want |-> RLn(want[i])]
FitLog(LP, want) == Len(LP) = Len(want) /\ \A i \in DOMAIN LP :
                    RClose(LP[i], RLn(want[i]), "1e-7", "1e-7") \/ (RLt(want[i], "1e-300") /\ RLt(LP[i], "-650"))
\* prob and log_prob against each other, without reference to the model
Agree(P, LP) == Len(P) = Len(LP) /\ \A i \in DOMAIN P : RClose(P[i], RExp(LP[i]), "1e-7", "1e-300")
State(cfg, s, e) ==
  LET held == TLCEval(Held(e))
      want == TLCEval(Density(cfg, e))
  IN  Need("density-defined-by-state", cfg.envelope \/ e.blank \/ Fit(e.P, want))
 \cup Need("log-density-defined-by-state", e.blank \/ FitLog(e.LP, want))
 \cup Need("log-agrees", Agree(e.P, e.LP))
 \cup Need("weights-are-a-probability", cfg.kind = "cells" \/ (RClose(RSum(e.alpha), "1", "1e-9", "0") /\ \A i \in DOMAIN e.alpha : RLe("0", e.alpha[i])))
 \cup (IF cfg.kind # "kde" THEN {} ELSE
          Need("kernels-on-own-samples", OnHeld(e.comps, held))
     \cup Need("kernel-count", Len(e.comps) = cfg.nkde)
     \cup Need("kernel-bandwidth", SameBandwidth(e.comps, cfg.bw))
     \cup Need("equal-kernel-weights", EqualMass(e.alpha))
     \cup Need("refreshed-by-the-request", ~e.grown \/ SomeNew(e.comps, s.held)))
 \cup Need("draws-follow-the-density", e.ndraw = 0 \/ \A d \in DOMAIN e.mid : Plausible(e.below[d], e.ndraw, TLCEval(Below(cfg, e, d))))
Fails(cfg, s, e) ==
  CASE e.op = "Raised" -> {"no-error"}
    [] e.op = "Empty" -> Need("forgotten-by-reset", e.same)
    [] e.op = "State" -> State(cfg, s, e)
    [] OTHER -> {"unknown-event"}
After(cfg, s, e) == CASE e.op = "State" -> [held |-> TLCEval(Held(e))] [] e.op = "Empty" -> Start [] OTHER -> s
TInit == k \in 1..Len(Traces) /\ l = 1 /\ st = Start
TNext == LET T == Traces[k] IN
         /\ l <= Len(T.ev)
         /\ Report(k, l, T.ev[l].op, Fails(T.cfg, st, T.ev[l]))
         /\ st' = After(T.cfg, st, T.ev[l])
         /\ l' = l + 1 /\ k' = k
         /\ l = Len(T.ev) => Done(k)
TSpec == TInit /\ [][TNext]_<<k, l, st>>
=============================================================================
