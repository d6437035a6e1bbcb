------------------------------ MODULE Quality -------------------------------
(* Quality figures along the life of a set that gains samples and whose     *)
(* weights may be rescaled; asking for a figure changes nothing.            *)
EXTENDS QualityProps, FiniteSets
CONSTANTS Ws, Xs, MaxN, Factors
VARIABLES S, W, drawn, asked
vars == <<S, W, drawn, asked>>
Init == S = <<>> /\ W = <<>> /\ drawn = 0 /\ asked = 0
Add == Len(S) < MaxN /\ \E x \in Xs, w \in Ws, lost \in {0, 1} : S' = Append(S, <<x>>) /\ W' = Append(W, w) /\ drawn' = drawn + 1 + lost /\ UNCHANGED asked
Scale == W # <<>> /\ asked = 0 /\ \E f \in Factors : W' = VScale(f, W) /\ asked' = 1 /\ UNCHANGED <<S, drawn>>
Ask == S # <<>> /\ asked < 2 /\ asked' = asked + 1 /\ UNCHANGED <<S, W, drawn>>
Next == Add \/ Scale \/ Ask
Spec == Init /\ [][Next]_vars
Norm == VScale(RDiv("1", RSum(W)), W)
Bounded(v, n) == RLe(RDiv("0.999999999", n), v) /\ RLe(v, "1.000000001")
InRange == W # <<>> => Bounded(WeightNESS(W), Len(W)) /\ Bounded(EntropyNESS(Norm), Len(W))
OneIffEqual == W # <<>> => (RClose(WeightNESS(W), "1", "1e-12", "0") <=> \A i \in DOMAIN W : RClose(W[i], W[1], "1e-6", "0"))
ScaleFree == [][(W' # W /\ Len(W') = Len(W)) => RClose(WeightNESS(W'), WeightNESS(W), "1e-9", "0")]_vars
Rate == drawn > 0 => RLe(RDiv(Len(S), drawn), "1")
Independent == (Len(S) > 1 /\ ~Degenerate(S)) => RFinite(ChainNESS(S))
=============================================================================
