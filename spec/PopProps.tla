------------------------------ MODULE PopProps ------------------------------
(* C06 and C07: what an iteration of a population importance sampler does.  *)
(* comps   sequence of [loc, cov] - the proposals in force                  *)
(* X       the points drawn in the iteration                                *)
EXTENDS Targets, Chance, Sequences, Naturals, FiniteSets
LOCAL Tol == "1e-8"
Equal(n) == [i \in 1..n |-> RDiv("1", n)]
\* log density of the mixture alpha of the proposals
MixLog(alpha, comps, x) ==
  RLogSumExp([i \in DOMAIN comps |-> RAdd(RLn(alpha[i]), RNormLog(x, comps[i].loc, comps[i].cov))])
\* log importance weight: target over mixture in force
LogWeight(cfg, alpha, comps, x) == RSub(LogTarget(cfg, x), MixLog(alpha, comps, x))
Normalised(lw) == LET z == RLogSumExp(lw) IN [i \in DOMAIN lw |-> RExp(RSub(lw[i], z))]
SumsToOne(W) == RClose(RSum(W), "1", Tol, "0")
EachDraws(drawn, n, k) == Len(drawn) = n /\ \A i \in DOMAIN drawn : drawn[i] = k
SameBag(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a :
                 Cardinality({j \in DOMAIN a : VEq(a[j], a[i])}) = Cardinality({j \in DOMAIN b : VEq(b[j], a[i])})
SameComps(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a :
                   /\ VClose(a[i].loc, b[i].loc, "1e-12", "0")
                   /\ \A r \in DOMAIN a[i].cov : VClose(a[i].cov[r], b[i].cov[r], "1e-12", "0")
ScaleKept(comps, sigma) == \A i \in DOMAIN comps : \A r, c \in DOMAIN comps[i].cov :
                           RClose(comps[i].cov[r][c], IF r = c THEN sigma ELSE "0", "1e-12", "0")
\* DM: every proposal recentres on a sample of this iteration whose weight makes that at all possible (a sample that
\* holds less than exp(-30) of the weight is never drawn in the life of a user)
OnSamples(next, X, lw) ==
  LET z == RSub(RLogSumExp(lw), "30") IN
  \A i \in DOMAIN next : \E j \in DOMAIN X : VEq(next[i].loc, X[j]) /\ RLt(z, lw[j])
\* ... in proportion to the weights: the samples on either side of the middle of the space, and the heavier half, are
\* chosen as often as their weight says; the log weights chosen add up to what they should, which a tempered choice would
\* shift (exponential tilting by t: either bound is passed by chance with odds of exp(-20))
Tilts == {"-3", "-1", "-0.4", "-0.1", "0.1", "0.4", "1", "3"}
TemperOk(next, X, lw) ==
  LET W == Normalised(lw)
      P == {j \in DOMAIN X : RLt("-inf", lw[j])}
      top == RMaxSeq(lw)
      v == TLCEval([j \in DOMAIN X |-> IF j \in P THEN RSub(lw[j], top) ELSE "0"])
      pick(i) == CHOOSE j \in DOMAIN X : VEq(next[i].loc, X[j])
      s == TLCEval(RSum([i \in DOMAIN next |-> v[pick(i)]]))
      logmean(t) == RLn(RSum([j \in DOMAIN X |-> IF j \in P THEN RMul(W[j], RExp(RMul(t, v[j]))) ELSE "0"]))
  IN  \A t \in Tilts : RLe(RSub(RMul(t, s), RMul(Len(next), logmean(t))), "22")
InProportion(next, X, lw, A) ==
  LET W == Normalised(lw)
      p == RSum([j \in DOMAIN X |-> IF j \in A THEN W[j] ELSE "0"])
      hits == Cardinality({i \in DOMAIN next : \E j \in A : VEq(next[i].loc, X[j])})
  IN  Plausible(hits, Len(next), p)
\* LAIS: a Metropolis step from x with move d and acceptance uniform u
Clip(cfg, x) == VMin(VMax(x, cfg.lo), cfg.hi)
Step(cfg, x, d, u) == LET y == Clip(cfg, VAdd(x, d))
                      IN  IF RLt(u, RExp(RSub(LogTarget(cfg, y), LogTarget(cfg, x)))) THEN y ELSE x
RECURSIVE Walk(_, _, _, _)
Walk(cfg, x, ds, u) == IF ds = <<>> THEN x ELSE Walk(cfg, Step(cfg, x, Head(ds), u), Tail(ds), u)
Moved(cfg, comps, next, deltas, L, u) ==
  LET n == Len(comps)
      major == [i \in 1..n |-> Walk(cfg, comps[i].loc, [s \in 1..L |-> deltas[(i - 1) * L + s]], u)]
      minor == [i \in 1..n |-> Walk(cfg, comps[i].loc, [s \in 1..L |-> deltas[(s - 1) * n + i]], u)]
  IN  Len(deltas) = n * L /\
      \/ \A i \in 1..n : VClose(next[i].loc, major[i], "1e-9", "1e-12")
      \/ \A i \in 1..n : VClose(next[i].loc, minor[i], "1e-9", "1e-12")
Inside(cfg, comps) == \A i \in DOMAIN comps : VLe(cfg.lo, comps[i].loc) /\ VLe(comps[i].loc, cfg.hi)
\* M-PMC: posterior responsibilities and their averages
Resp(alpha, comps, X) ==
  [d \in DOMAIN comps |-> [i \in DOMAIN X |->
     RExp(RSub(RAdd(RLn(alpha[d]), RNormLog(X[i], comps[d].loc, comps[d].cov)), MixLog(alpha, comps, X[i])))]]
Mass(W, rho) == [d \in DOMAIN rho |-> RDot(W, rho[d])]
Column(X, c) == [i \in DOMAIN X |-> X[i][c]]
MeanOf(W, rho, mass, X) == [c \in DOMAIN X[1] |-> RDiv(RDot(VMul(W, rho), Column(X, c)), mass)]
CovOf(W, rho, mass, X, m) ==
  [a \in DOMAIN m |-> [b \in DOMAIN m |->
     RDiv(RSum([i \in DOMAIN X |-> RMul(RMul(W[i], rho[i]), RMul(RSub(X[i][a], m[a]), RSub(X[i][b], m[b])))]), mass)]]
\* the unweighted total scatter of the iteration's samples about the new mean (known finding of C07), and the fallback
ScatterOf(X, m) ==
  [a \in DOMAIN m |-> [b \in DOMAIN m |-> RSum([i \in DOMAIN X |-> RMul(RSub(X[i][a], m[a]), RSub(X[i][b], m[b]))])]]
Capped(S) == IF \E a \in DOMAIN S, b \in DOMAIN S : RLt("10", S[a][b]) \/ RIsNaN(S[a][b])
             THEN [a \in DOMAIN S |-> [b \in DOMAIN S |-> IF a = b THEN "10" ELSE "0"]] ELSE S
MatClose(A, B, rt, at) == \A r \in DOMAIN A : VClose(A[r], B[r], rt, at)
=============================================================================
