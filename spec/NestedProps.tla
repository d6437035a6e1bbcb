----------------------------- MODULE NestedProps ----------------------------
(* C14: nested sampling.  live is the sequence of live points with their    *)
(* log densities [x, v]; a group is a set of indices of live.               *)
EXTENDS Reals, Sequences, Naturals, FiniteSets, TLC
IsWorst(live, group, i) == \A j \in group : RLe(live[i].v, live[j].v)
NoWorse(p, q) == RLe(q.v, p.v)
\* relative weight (log) of the k-th sample (from 1) of log density v with n live points
Shrink(k, n) == IF k = 1 THEN "0"
                ELSE RLn(RSub(RExp(RDiv(RSub(2, k), n)), RExp(RDiv(RSub(1, k), n))))
WeightsOf(vs, n) ==
  LET l == TLCEval([k \in DOMAIN vs |-> RAdd(vs[k], Shrink(k, n))])
      z == RLogSumExp(l)
  IN  TLCEval([k \in DOMAIN vs |-> RExp(RSub(l[k], z))])
=============================================================================
