---------------------------- MODULE ConfigProps -----------------------------
(* B04: what a loaded configuration has to look like.  A target entry of a  *)
(* file is [name, par, sup, batch, n, ne] with sup the support it states    *)
(* (<<>> when it states none); a loaded target is what the object answers.  *)
EXTENDS DistProps
Const(v, D) == [d \in 1..D |-> v]
\* the support of a target that states none is its type's own
OwnSupport(p, type, D) ==
  CASE type = "CMultivariateNormal" -> LET s == [d \in 1..D |-> RMul("6", RSqrt(p.cov[d][d]))] IN <<VSub(p.loc, s), VAdd(p.loc, s)>>
    [] type = "CMultivariateUniform" -> <<VSub(p.c, p.r), VAdd(p.c, p.r)>>
    [] type = "CMultivariateExponential" -> <<Const("0", D), VScale("4", p.mean)>>
    [] type = "BenchDenUniform" -> <<<<"0">>, <<"1">>>>
    [] type \in {"BenchDenExponential", "BenchDenMaxwell"} -> <<<<"0">>, <<"4">>>>
    [] type = "BenchDenLaplace" -> <<<<"-6">>, <<"6">>>>
    [] type = "BenchDenSymmetricPareto" -> <<<<"-20">>, <<"20">>>>
    [] type = "Banana2D" -> <<<<"-10", "-10">>, <<"10", "10">>>>
Support(e) == IF e.sup = <<>> THEN OwnSupport(e.par, e.type, e.dims) ELSE e.sup
SameBox(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Len(a[i]) = Len(b[i]) /\ \A d \in DOMAIN a[i] : RClose(a[i][d], b[i][d], "1e-13", "0")
ExactBox(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Len(a[i]) = Len(b[i]) /\ \A d \in DOMAIN a[i] : REq(a[i][d], b[i][d])
\* g: what was read back from the loaded target
Named(e, g) == g.name = e.name /\ g.cls = e.type
Counts(e, g) == g.batch = e.batch /\ g.n = e.n /\ g.ne = e.ne
Placed(e, g) == g.dims = e.dims /\ g.ndims = e.dims /\ SameBox(g.sup, Support(e))
DensityOk(e, g) == Len(g.P) = Len(g.X) /\ \A i \in DOMAIN g.X : IF OnEdge(e.par, g.X[i]) THEN TRUE
                                                             ELSE LET w == LogD(e.par, g.X[i]) IN ExpClose(g.P[i], w) /\ LogClose(g.LP[i], w)
=============================================================================
