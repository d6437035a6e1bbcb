------------------------------- MODULE Reals -------------------------------
(* IEEE-754 double arithmetic for specifications.  A real is a string such  *)
(* as "0.25", "1e-300", "inf", "-inf" or "nan" (or a TLC integer).  The     *)
(* operators below are given their meaning by java/Reals.java, a TLC module *)
(* override of a few lines each; the bodies here only make the module parse.*)
EXTENDS Naturals, Sequences
LOCAL Undef == CHOOSE x : x \notin {}
RAdd(a, b) == Undef      RSub(a, b) == Undef      RMul(a, b) == Undef
RDiv(a, b) == Undef      RNeg(a) == Undef         RAbs(a) == Undef
RExp(a) == Undef         RLn(a) == Undef          RSqrt(a) == Undef
RPow(a, b) == Undef      RMax(a, b) == Undef      RMin(a, b) == Undef
RFloor(a) == Undef       RCeil(a) == Undef        RTrunc(a) == Undef
RInt(a) == Undef         RPhi(a) == Undef
RLt(a, b) == Undef       RLe(a, b) == Undef       REq(a, b) == Undef
RFinite(a) == Undef      RIsNaN(a) == Undef       RIsInt(a) == Undef
RClose(a, b, rtol, atol) == Undef
RSum(s) == Undef         RProd(s) == Undef        RDot(s, t) == Undef
RMaxSeq(s) == Undef      RMinSeq(s) == Undef      RLogSumExp(s) == Undef
RSin(a) == Undef         RCos(a) == Undef
VDown(s) == Undef                   \* the indices of s in decreasing order of value, ties in index order
VMin(s, t) == Undef      VMax(s, t) == Undef
VAdd(s, t) == Undef      VSub(s, t) == Undef      VMul(s, t) == Undef
VDiv(s, t) == Undef      VScale(k, s) == Undef    VExp(s) == Undef
VLn(s) == Undef          VLe(s, t) == Undef       VEq(s, t) == Undef
VFinite(s) == Undef      VAllGe(s, k) == Undef
VClose(s, t, rtol, atol) == Undef
VProp(s, t, rtol) == Undef          \* s and t agree up to one positive factor
RNormLog(x, mean, cov) == Undef     \* log density of a multivariate normal
Say(tuple) == Undef                 \* TRUE; prints one line  @@<TAB>...  (verdicts)
=============================================================================
