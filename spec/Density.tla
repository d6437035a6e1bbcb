------------------------------ MODULE Density -------------------------------
(* A sampler's model through a life of requests, target changes and resets. *)
(* The held samples are points of a small lattice; the model is rebuilt at  *)
(* the end of every request and dropped by a reset.  kind selects which     *)
(* state defines it: the kernels on held samples, the masses of the cells,  *)
(* or the proposals themselves.                                             *)
EXTENDS DensityProps
CONSTANTS Kind, Points, MaxHeld, NKernels, CellWeights
VARIABLES held, cells, model, hist
vars == <<held, cells, model, hist>>
Cov == <<<<"0.3">>>>
Kernel(p) == [loc |-> <<p>>, cov |-> Cov]
None == [at |-> <<>>, w |-> <<>>]
Cell(lo, hi) == [lo |-> <<lo>>, hi |-> <<hi>>]
CellSeq == <<Cell("0", "0.5"), Cell("0.5", "1"), Cell("1", "3")>>
\* what the state defines
Defined(h, c) == IF Kind = "cells" THEN {[at |-> CellSeq, w |-> Masses(c)]}
                 ELSE IF Kind = "mix" THEN {[at |-> [i \in DOMAIN h |-> Kernel(h[i])], w |-> Masses([i \in DOMAIN h |-> c[1]])]}
                 ELSE {[at |-> [i \in 1..NKernels |-> Kernel(f[i])], w |-> Masses([i \in 1..NKernels |-> "1"])] :
                          f \in [1..NKernels -> {h[i] : i \in DOMAIN h}]}
Init == held = <<>> /\ cells = [i \in 1..3 |-> "0"] /\ model = None /\ hist = <<>>
Request == /\ \E n \in 1..MaxHeld : \E more \in [1..n -> Points] :
                n > Len(held) /\ held' = [i \in 1..n |-> IF i <= Len(held) THEN held[i] ELSE more[i]]
           /\ cells' \in [1..3 -> CellWeights]
           /\ model' \in Defined(held', cells')
           /\ hist' = Append(hist, "Req")
Refresh == /\ held # <<>> /\ UNCHANGED <<held, cells>> /\ model' \in Defined(held, cells) /\ hist' = Append(hist, "Sat")
Reset == held' = <<>> /\ cells' = [i \in 1..3 |-> "0"] /\ model' = None /\ hist' = Append(hist, "Reset")
Next == Len(hist) < 3 /\ (Request \/ Refresh \/ Reset)
Spec == Init /\ [][Next]_vars
\* the model is the one of the state, a probability, and gone after a reset
Follows == model = None \/ model \in Defined(held, cells)
Forgotten == held = <<>> => model = None
Probability == model = None \/ RClose(RSum(model.w), "1", "1e-12", "0")
OwnSamples == (Kind = "kde" /\ model # None) => OnHeld(model.at, {<<held[i]>> : i \in DOMAIN held})
\* the density integrates to one: everything is below a bound beyond all mass, nothing is below one before it
Total == model = None \/
   LET below(t) == Weighted([i \in DOMAIN model.at |-> IF Kind = "cells" THEN CellBelow(model.at[i], 1, t) ELSE NormBelow(model.at[i], 1, t)], model.w)
   IN  RClose(below("60"), "1", "1e-12", "0") /\ RClose(below("-60"), "0", "0", "1e-12")
Positive == model = None \/ \A x \in {"0.2", "0.7", "2.5"} :
   RLe("0", IF Kind = "cells" THEN CellDensity(model.at, model.w, <<x>>) ELSE MixDensity(model.at, model.w, <<x>>))
=============================================================================
