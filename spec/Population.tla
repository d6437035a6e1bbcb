----------------------------- MODULE Population -----------------------------
(* Population importance samplers (DM-AIS, layered AIS, mixture PMC) over a *)
(* line of few positions, with real arithmetic (Reals).                     *)
(* comps    the proposals now          alpha   their mixture weights        *)
(* hist     all samples, each with the log weight it got when it was drawn  *)
(* book     ghost: for each sample, the proposals and weights in force then *)
EXTENDS PopProps
CONSTANTS Kind, N, K, L, MaxIter, MaxCmds
VARIABLES comps, alpha, hist, book, cmds, iters
vars == <<comps, alpha, hist, book, cmds, iters>>
Cfg == [tkind |-> "hole", mid |-> <<"1">>, half |-> <<"1">>, shift |-> "0", tscale |-> "1", lo |-> <<"0">>, hi |-> <<"2">>]
Places == {<<"0">>, <<"1">>, <<"2">>}
Sigma == "0.5"
At(p) == [loc |-> p, cov |-> <<<<Sigma>>>>]
Draws == IF Kind = "mpmc" THEN K ELSE N * K
Start == comps \in [1..N -> {At(p) : p \in Places}]
Init == Start /\ alpha = Equal(N) /\ hist = <<>> /\ book = <<>> /\ cmds = <<>> /\ iters = 0
Positive(X) == \E i \in DOMAIN X : RLt("-inf", LogTarget(Cfg, X[i]))
Adapt(X, W) ==
  CASE Kind = "dm" /\ ~Positive(X) -> UNCHANGED <<comps, alpha>>     \* nothing to recentre on
    [] Kind = "dm" ->
         /\ \E c \in [1..N -> {X[i] : i \in {j \in DOMAIN X : RLt("-inf", LogTarget(Cfg, X[j]))}}] :
              comps' = [i \in 1..N |-> At(c[i])]
         /\ UNCHANGED alpha
    [] Kind = "lais" ->
         /\ \E ds \in [1..N * L -> {<<"-1">>, <<"1">>}] :
              comps' = [i \in 1..N |-> At(Walk(Cfg, comps[i].loc, [s \in 1..L |-> ds[(i - 1) * L + s]], "0.5"))]
         /\ UNCHANGED alpha
    [] Kind = "mpmc" ->
         LET rho == Resp(alpha, comps, X)  mass == Mass(W, rho) IN
         /\ comps' = [d \in 1..N |-> [loc |-> MeanOf(W, rho[d], mass[d], X), cov |-> <<<<Sigma>>>>]]
         /\ alpha' = VScale(RDiv("1", RSum(mass)), mass)
Iterate ==
  /\ iters < MaxIter
  /\ \E X \in [1..Draws -> Places] :
       /\ Kind # "dm" => Positive(X)
       /\ LET lw == [i \in DOMAIN X |-> LogWeight(Cfg, alpha, comps, X[i])] IN
          /\ hist' = hist \o [i \in DOMAIN X |-> [x |-> X[i], lw |-> lw[i]]]
          /\ book' = book \o [i \in DOMAIN X |-> [comps |-> comps, alpha |-> alpha]]
          /\ Adapt(X, Normalised(lw))
  /\ iters' = iters + 1 /\ UNCHANGED cmds
Spec == Init /\ [][Iterate]_vars
Weights == Normalised([i \in DOMAIN hist |-> hist[i].lw])
\* every sample is weighted with the mixture in force when it was drawn, whatever came later
InForce == \A i \in DOMAIN hist : RClose(hist[i].lw, LogWeight(Cfg, book[i].alpha, book[i].comps, hist[i].x), "1e-12", "0")
Normal == (\E i \in DOMAIN hist : RLt("-inf", hist[i].lw)) => SumsToOne(Weights)
Confined == Kind # "mpmc" => Inside(Cfg, comps) /\ ScaleKept(comps, Sigma)
AlphaOk == SumsToOne(alpha) /\ VAllGe(alpha, "0")
\* the mixture mean keeps the weighted sample mean (M-PMC moment matching)
Moments == [][Kind = "mpmc" =>
   LET n == Len(hist)  W == Normalised([i \in 1..(Len(hist') - n) |-> hist'[n + i].lw]) IN
   RClose(RDot(alpha', [d \in 1..N |-> comps'[d].loc[1]]), RDot(W, [i \in DOMAIN W |-> hist'[n + i].x[1]]), "1e-9", "1e-12")]_vars
OnlySamples == [][Kind = "dm" => LET H == SubSeq(hist', Len(hist) + 1, Len(hist'))  X == [i \in DOMAIN H |-> H[i].x] IN
   IF Positive(X) THEN OnSamples(comps', X, [i \in DOMAIN H |-> H[i].lw]) ELSE comps' = comps]_vars
=============================================================================
