---------------------------- MODULE NearestProps ----------------------------
(* D07: a model that gives every point the value of its nearest sample.     *)
EXTENDS Chance, Sequences, Naturals, FiniteSets, TLC
Gap(a, b) == LET d == VSub(a, b) IN RDot(d, d)
\* the samples nearest to x, up to rounding: several when equally near
Nearest(C, x) ==
  LET g == TLCEval([i \in DOMAIN C |-> Gap(C[i], x)])
      m == RMinSeq(g)
  IN  {i \in DOMAIN C : RClose(g[i], m, "1e-9", "1e-300")}
Answer(C, w, x, v) == \E i \in Nearest(C, x) : REq(v, w[i])
\* draws: sample i with probability w[i] / sum w
Share(w, i) == RDiv(w[i], RSum(w))
=============================================================================
