----------------------------- MODULE SupportProps ----------------------------
(* D08: the box a distribution states as its support.  A parameter record   *)
(* is that of DistProps; a box is <<lower limits, upper limits>>.            *)
EXTENDS DistProps
Six(p, s) == [d \in DOMAIN p.loc |-> RAdd(p.loc[d], RMul(s, RSqrt(p.cov[d][d])))]
\* what the family states when the user gives none (the closed families have a fixed box)
Default(p) ==
  CASE p.fam = "normal" -> <<Six(p, "-6"), Six(p, "6")>>
    [] p.fam = "uniform" -> <<VSub(p.c, p.r), VAdd(p.c, p.r)>>
    [] p.fam = "exp" -> <<[d \in DOMAIN p.mean |-> "0"], VScale("4", p.mean)>>
    [] p.fam = "maxwell" -> <<<<"0">>, <<"4">>>>
    [] p.fam = "laplace" -> <<<<"-6">>, <<"6">>>>
    [] p.fam = "pareto" -> <<<<"-20">>, <<"20">>>>
    [] p.fam = "banana" -> <<<<"-10", "-10">>, <<"10", "10">>>>
\* distribution function of one coordinate, also for the families that cannot be drawn
FarTail(t) == RDiv("0.5", RSqrt(RAdd("1", RAbs(t))))
Cdf(p, d, t) ==
  CASE p.fam \in {"normal", "uniform", "exp"} -> Below(p, Unit(Len(IF p.fam = "normal" THEN p.loc ELSE IF p.fam = "exp" THEN p.mean ELSE p.c), d), t)
    [] p.fam = "maxwell" -> IF RLt("0", t) THEN RSub("1", RExp(RMul("-0.5", RMul(t, t)))) ELSE "0"
    [] p.fam = "laplace" -> IF RLt(t, "0") THEN RMul("0.5", RExp(t)) ELSE RSub("1", RMul("0.5", RExp(RNeg(t))))
    [] p.fam = "pareto" -> IF RLt(t, "0") THEN FarTail(t) ELSE RSub("1", FarTail(t))
\* at most this much of the mass lies outside the box
Outside(p, b) ==
  IF p.fam = "banana"       \* x1 normal with variance 1/0.03; x2 normal around 3 - 0.03 x1^2
  THEN LET s == RSqrt("0.03")
           most == RMax(RAbs(b[1][1]), RAbs(b[2][1]))
       IN  RSum(<<RPhi(RMul(s, b[1][1])), RSub("1", RPhi(RMul(s, b[2][1]))),
                  RSub("1", RPhi(RSub(b[2][2], "3"))),
                  RPhi(RSub(b[1][2], RSub("3", RMul("0.03", RMul(most, most)))))>>)
  ELSE RSum([d \in DOMAIN b[1] |-> RAdd(Cdf(p, d, b[1][d]), RSub("1", Cdf(p, d, b[2][d])))])
\* the mass a stated support may leave out
Slack(p, n) == CASE p.fam = "uniform" -> "1e-12" [] p.fam = "normal" -> RMul("3e-9", n) [] p.fam = "exp" -> RMul("0.02", n) [] OTHER -> "0.25"
Proper(b, n) == /\ Len(b) = 2 /\ Len(b[1]) = n /\ Len(b[2]) = n
                /\ \A d \in 1..n : RFinite(b[1][d]) /\ RFinite(b[2][d]) /\ RLt(b[1][d], b[2][d])
SameBox(a, b) == Len(a) = 2 /\ Len(b) = 2 /\ \A i \in {1, 2} : Len(a[i]) = Len(b[i]) /\
                 \A d \in DOMAIN a[i] : RClose(a[i][d], b[i][d], "1e-12", RMul("1e-12", RAdd(RAbs(b[1][d]), RAbs(b[2][d]))))
\* stated box b, parameters p in force (fam "other": no parameters to compare with), g the box given by the user (or <<>>)
Stated(p, g, n, b) ==
  IF ~Proper(b, n) THEN {"a-proper-box"}
  ELSE IF g # <<>> THEN (IF SameBox(b, g) THEN {} ELSE {"the-box-that-was-given"})
  ELSE (IF RLe(Outside(p, b), Slack(p, n)) THEN {} ELSE {"holds-the-mass"})
  \cup (IF p.fam \in {"normal", "uniform"} /\ ~SameBox(b, Default(p)) THEN {"limits-of-the-parameters"} ELSE {})
=============================================================================
