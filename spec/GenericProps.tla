---------------------------- MODULE GenericProps ----------------------------
(* D06: user-defined densities, kernels and kernel estimates, point masses, *)
(* and integrals over boxes.                                                *)
EXTENDS DistProps
\* --- kernels: name, scaled distance
Kern(name, u) ==
  LET a == RAbs(u) IN
  CASE name = "normal" -> RMul("0.3989422804014327", RExp(RMul("-0.5", RMul(u, u))))
    [] name = "uniform" -> IF RLe(a, "1") THEN "0.5" ELSE "0"
    [] name = "triangular" -> IF RLe(a, "1") THEN RSub("1", a) ELSE "0"
    [] name = "epanechnikov" -> IF RLe(a, "1") THEN RMul("0.75", RSub("1", RMul(u, u))) ELSE "0"
\* bw multiplies distances: the kernel is scaled to width 1/bw
Scaled(name, bw, c, x) == RProd([d \in DOMAIN x |-> RMul(bw, Kern(name, RMul(bw, RSub(x[d], c[d]))))])
Estimate(name, bw, centres, w, x) ==
  LET a == InForce(w) IN RSum([i \in DOMAIN centres |-> RMul(a[i], Scaled(name, bw, centres[i], x))])
KernEdge(name, bw, centres, x) ==
  name = "uniform" /\ \E i \in DOMAIN centres, d \in DOMAIN x : RClose(RAbs(RMul(bw, RSub(x[d], centres[i][d]))), "1", "1e-9", "1e-9")
\* --- user-defined density: which functions are set decides which form is derived
\* slots: lik, log in {"none", "a", "b"}; V(name, x) the log value of a user function
ProbOf(s, l) == IF s.lik # "none" THEN l[s.lik] ELSE IF s.log # "none" THEN l[s.log] ELSE "refuse"
LogOf(s, l) == IF s.log # "none" THEN l[s.log] ELSE IF s.lik # "none" THEN l[s.lik] ELSE "refuse"
\* --- point mass
AtPoint(loc, x) == \A d \in DOMAIN x : RClose(x[d], loc[d], "1e-12", "1e-12")
Contains(a, b, loc) == \A d \in DOMAIN loc : RLt(a[d], loc[d]) /\ RLt(loc[d], b[d])
\* --- mass of a box
BoxMass(p, a, b) ==
  IF p.fam = "uniform"
  THEN RProd([d \in DOMAIN a |-> RDiv(RMax("0", RSub(RMin(b[d], RAdd(p.c[d], p.r[d])), RMax(a[d], RSub(p.c[d], p.r[d])))), RMul("2", p.r[d]))])
  ELSE RProd([d \in DOMAIN a |-> RSub(Below(p, Unit(Len(a), d), b[d]), Below(p, Unit(Len(a), d), a[d]))])
\* a hit-or-miss estimate with n points under a bound of volume v
HitOrMiss(est, n, v, mass) ==
  IF RLt(mass, RMul(v, "1e-12")) THEN RLe(RAbs(est), RMul(v, "1e-9")) ELSE Plausible(RDiv(RMul(est, n), v), n, RDiv(mass, v))
=============================================================================
