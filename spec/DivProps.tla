------------------------------ MODULE DivProps ------------------------------
(* M01, M03: figures comparing two densities on a common set of points.     *)
EXTENDS Chance, Sequences, Naturals, FiniteSets, TLC
\* the points where both are positive, in order (log densities for KL, densities for JS)
Common(a, b, zero) == SelectSeq([i \in 1..Len(a) |-> i], LAMBDA i : RLt(zero, a[i]) /\ RLt(zero, b[i]))
At(v, idx) == [k \in 1..Len(idx) |-> v[idx[k]]]
Norm(v) == VScale(RDiv("1", RSum(v)), v)
\* Kullback-Leibler from log densities: sum p ln(p/q), p and q normalised over the common points
KLOf(lp, lq) ==
  LET idx == Common(lp, lq, "-inf") IN
  IF idx = <<>> THEN "inf"
  ELSE LET a == TLCEval(At(lp, idx))  b == TLCEval(At(lq, idx))
           za == RLogSumExp(a)  zb == RLogSumExp(b)
       IN  RSum([k \in 1..Len(idx) |-> RMul(RExp(RSub(a[k], za)), RSub(RSub(a[k], za), RSub(b[k], zb)))])
\* p ln(p/m) in bits; a density that vanishes contributes nothing
Bits(p, m) == IF RLe(p, "0") THEN "0" ELSE RMul("0.5", RDiv(RMul(p, RLn(RDiv(p, m))), RLn("2")))
JSOf(p, q) ==
  LET idx == Common(p, q, "0") IN
  IF idx = <<>> THEN "1"
  ELSE LET a == TLCEval(Norm(At(p, idx)))  b == TLCEval(Norm(At(q, idx)))
       IN  RSum([k \in 1..Len(idx) |-> LET m == RMul("0.5", RAdd(a[k], b[k])) IN RAdd(Bits(a[k], m), Bits(b[k], m))])
Mean(X, p) == LET w == TLCEval(Norm(p)) IN [d \in DOMAIN X[1] |-> RSum([i \in DOMAIN X |-> RMul(w[i], X[i][d])])]
EVOf(X, p, q) == LET v == VSub(Mean(X, p), Mean(X, q)) IN RDot(v, v)
\* the figure of metric m on points X with densities p, q (and their logarithms)
Figure(m, X, p, q, lp, lq) ==
  CASE m = "KL" -> KLOf(lp, lq)
    [] m = "JSD" -> JSOf(p, q)
    [] m = "EVMSE" -> EVOf(X, p, q)
\* a common factor between the two on the common points
SameShape(p, q) ==
  LET idx == Common(p, q, "0") IN
  idx # <<>> /\ VClose(Norm(At(p, idx)), Norm(At(q, idx)), "1e-12", "0")
=============================================================================
