------------------------------- MODULE Nested -------------------------------
(* Nested and multi-nested sampling: the worst live point of the group      *)
(* worked on is retired and replaced by the first draw that is no worse;    *)
(* a converged group accepts any draw.                                      *)
EXTENDS NestedProps
CONSTANTS Points, N, Groups, MaxSamples, MaxTries, Converged
VARIABLES live, retired, grp, worst, tries
vars == <<live, retired, grp, worst, tries>>
\* Points: sequence of log densities; a point is its index
P(i) == [x |-> i, v |-> Points[i]]
Init == /\ live \in [1..N -> {P(i) : i \in DOMAIN Points}]
        /\ retired = <<>> /\ grp = 0 /\ worst = 0 /\ tries = 0
Retire == /\ worst = 0 /\ Len(retired) < MaxSamples
          /\ \E g \in DOMAIN Groups : \E i \in Groups[g] :
               /\ IsWorst(live, Groups[g], i) /\ grp' = g /\ worst' = i
               /\ retired' = Append(retired, live[i])
          /\ tries' = 0 /\ UNCHANGED live
Try == /\ worst # 0 /\ tries < MaxTries
       /\ \E i \in DOMAIN Points :
            IF NoWorse(P(i), live[worst]) \/ grp \in Converged
            THEN live' = [live EXCEPT ![worst] = P(i)] /\ worst' = 0 /\ grp' = 0 /\ tries' = 0 /\ UNCHANGED retired
            ELSE tries' = tries + 1 /\ UNCHANGED <<live, worst, grp, retired>>
Next == Retire \/ Try
Spec == Init /\ [][Next]_vars
CountKept == DOMAIN live = 1..N
\* with one group that is never converged the retired densities never decrease
Climbs == (Len(Groups) = 1 /\ Converged = {}) =>
             \A i, j \in DOMAIN retired : i < j => RLe(retired[i].v, retired[j].v)
Normalised == retired # <<>> => RClose(RSum(WeightsOf([i \in DOMAIN retired |-> retired[i].v], N)), "1", "1e-9", "0")
NeverWorse == [][(live' # live /\ grp \notin Converged) => NoWorse(live'[worst], live[worst])]_vars
=============================================================================
