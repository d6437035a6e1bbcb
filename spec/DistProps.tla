------------------------------ MODULE DistProps -----------------------------
(* D01-D04: the target distributions.  A parameter record names its family: *)
(*  normal loc cov | uniform c r | exp mean | maxwell | laplace | pareto    *)
(*  banana | mix comps w (comps: parameter records, w: weights as given)    *)
EXTENDS Chance, Sequences, Naturals, FiniteSets, TLC
\* weights in force: a probability vector; invalid entries count as zero, equal weights when nothing is left
InForce(w) ==
  LET v == TLCEval([i \in DOMAIN w |-> IF RIsNaN(w[i]) \/ RLt(w[i], "0") THEN "0" ELSE w[i]])
      z == RSum(v)
  IN  TLCEval([i \in DOMAIN w |-> IF RLt("0", z) THEN RDiv(v[i], z) ELSE RDiv("1", Len(w))])
AllPositive(x) == \A i \in DOMAIN x : RLt("0", x[i])
RECURSIVE LogD(_, _)
LogD(p, x) ==
  CASE p.fam = "normal" -> RNormLog(x, p.loc, p.cov)
    [] p.fam = "uniform" -> IF VLe(VSub(p.c, p.r), x) /\ VLe(x, VAdd(p.c, p.r))
                            THEN RNeg(RSum([i \in DOMAIN x |-> RLn(RMul("2", p.r[i]))])) ELSE "-inf"
    [] p.fam = "exp" -> IF AllPositive(x) THEN RSum([i \in DOMAIN x |-> RSub(RNeg(RDiv(x[i], p.mean[i])), RLn(p.mean[i]))]) ELSE "-inf"
    [] p.fam = "maxwell" -> IF AllPositive(x) THEN RSub(RLn(x[1]), RMul("0.5", RMul(x[1], x[1]))) ELSE "-inf"
    [] p.fam = "laplace" -> RSub(RLn("0.5"), RAbs(x[1]))
    [] p.fam = "pareto" -> RNeg(RAdd(RLn("4"), RMul("1.5", RLn(RAdd("1", RAbs(x[1]))))))
    [] p.fam = "banana" -> LET b == RAdd(x[2], RMul("0.03", RSub(RMul(x[1], x[1]), "100")))
                           IN  RMul("-0.5", RAdd(RMul("0.03", RMul(x[1], x[1])), RMul(b, b)))
    [] p.fam = "mix" -> LET a == InForce(p.w)
                        IN  RLogSumExp([i \in DOMAIN p.comps |-> IF RLt("0", a[i]) THEN RAdd(RLn(a[i]), LogD(p.comps[i], x)) ELSE "-inf"])
\* points where the density jumps: the value there is a convention
RECURSIVE OnEdge(_, _)
OnEdge(p, x) ==
  CASE p.fam = "uniform" -> \E i \in DOMAIN x : RClose(x[i], RSub(p.c[i], p.r[i]), "1e-12", "1e-12") \/ RClose(x[i], RAdd(p.c[i], p.r[i]), "1e-12", "1e-12")
    [] p.fam = "exp" -> \E i \in DOMAIN x : REq(x[i], "0")
    [] p.fam = "mix" -> \E i \in DOMAIN p.comps : OnEdge(p.comps[i], x)
    [] OTHER -> FALSE
Clamp(a) == RMin("1", RMax("0", a))
ExpBelow(m, t) == IF RLt("0", t) THEN RSub("1", RExp(RNeg(RDiv(t, m)))) ELSE "0"
UniBelow(c, r, t) == Clamp(RDiv(RSub(t, RSub(c, r)), RMul("2", r)))
QuadForm(v, cov) == RSum([i \in DOMAIN v |-> RMul(v[i], RDot(v, cov[i]))])
Axis(v) == CHOOSE d \in DOMAIN v : ~REq(v[d], "0")
\* probability that a draw x has v.x < t (v a coordinate axis unless the family is normal)
RECURSIVE Below(_, _, _)
Below(p, v, t) ==
  CASE p.fam = "normal" -> RPhi(RDiv(RSub(t, RDot(v, p.loc)), RSqrt(QuadForm(v, p.cov))))
    [] p.fam = "uniform" -> UniBelow(p.c[Axis(v)], p.r[Axis(v)], t)
    [] p.fam = "exp" -> ExpBelow(p.mean[Axis(v)], t)
    [] p.fam = "mix" -> RDot(InForce(p.w), [i \in DOMAIN p.comps |-> Below(p.comps[i], v, t)])
Unit(n, d) == [i \in 1..n |-> IF i = d THEN "1" ELSE "0"]
\* probability that every coordinate is below its threshold, for independent coordinates
RECURSIVE Corner(_, _)
Corner(p, t) ==
  IF p.fam = "mix" THEN RDot(InForce(p.w), [i \in DOMAIN p.comps |-> Corner(p.comps[i], t)])
  ELSE RProd([d \in DOMAIN t |-> Below(p, Unit(Len(t), d), t[d])])
LogClose(a, b) == RClose(a, b, "1e-9", "1e-9")
ExpClose(p, l) == RClose(p, RExp(l), "1e-8", "1e-300")
=============================================================================
