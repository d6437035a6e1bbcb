---------------------------- MODULE DensityProps ----------------------------
(* C16: the density a sampler reports, as a function of its current state.  *)
(*   mix    sum of weight * normal(loc, cov)            (proposals, kernels) *)
(*   cells  mass / volume inside each cell, 0 outside   (region splitting)   *)
EXTENDS Chance, Sequences, Naturals, FiniteSets, TLC
Good(w) == ~RIsNaN(w) /\ RLt("0", w) /\ RFinite(w)
\* raw masses as a probability vector; equal masses when none is valid
Masses(raw) ==
  LET v == TLCEval([i \in DOMAIN raw |-> IF Good(raw[i]) THEN raw[i] ELSE "0"])
      z == RSum(v)
  IN  [i \in DOMAIN raw |-> IF RLt("0", z) THEN RDiv(v[i], z) ELSE RDiv("1", Len(raw))]
MixDensity(comps, alpha, x) ==
  RExp(RLogSumExp([i \in DOMAIN comps |-> RAdd(RLn(alpha[i]), RNormLog(x, comps[i].loc, comps[i].cov))]))
InCell(c, x) == VLe(c.lo, x) /\ VLe(x, c.hi)
Volume(c) == RProd(VSub(c.hi, c.lo))
CellDensity(cells, mass, x) ==
  RSum([i \in DOMAIN cells |-> IF InCell(cells[i], x) THEN RDiv(mass[i], Volume(cells[i])) ELSE "0"])
\* probability that a draw has coordinate d below t
CellBelow(c, d, t) == RMin("1", RMax("0", RDiv(RSub(t, c.lo[d]), RSub(c.hi[d], c.lo[d]))))
NormBelow(c, d, t) == RPhi(RDiv(RSub(t, c.loc[d]), RSqrt(c.cov[d][d])))
Weighted(p, alpha) == RDot(p, alpha)
\* a kernel estimate: each kernel sits on one of the held samples, all alike
OnHeld(comps, held) == \A i \in DOMAIN comps : comps[i].loc \in held
SomeNew(comps, before) == \E i \in DOMAIN comps : comps[i].loc \notin before
SameBandwidth(comps, bw) == \A i \in DOMAIN comps : \A r, c \in DOMAIN comps[i].cov :
                            RClose(comps[i].cov[r][c], IF r = c THEN bw ELSE "0", "1e-12", "0")
EqualMass(alpha) == \A i \in DOMAIN alpha : RClose(alpha[i], RDiv("1", Len(alpha)), "1e-12", "0")
=============================================================================
