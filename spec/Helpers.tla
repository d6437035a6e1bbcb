------------------------------- MODULE Helpers ------------------------------
(* U02.  A grid is counted out like an odometer: one digit per dimension.   *)
(* A duration is counted down by whole hours, then whole minutes.           *)
EXTENDS HelperProps
CONSTANTS MaxDims, MaxCount, MaxTime
VARIABLES ns, at, seen, left, hms
vars == <<ns, at, seen, left, hms>>
Init == /\ \E D \in 1..MaxDims : ns \in [1..D -> 1..MaxCount]
        /\ at = 0 /\ seen = {} /\ left \in (IF \A d \in DOMAIN ns : ns[d] = 1 THEN 0..MaxTime ELSE {0}) /\ hms = <<left, 0, 0>>
Point == at < Prod(ns) /\ seen' = seen \cup {Digits(at, ns)} /\ at' = at + 1 /\ UNCHANGED <<ns, left, hms>>
Hour == left >= 3600 /\ left' = left - 3600 /\ hms' = [hms EXCEPT ![2] = @ + 1] /\ UNCHANGED <<ns, at, seen>>
Minute == left < 3600 /\ left >= 60 /\ left' = left - 60 /\ hms' = [hms EXCEPT ![3] = @ + 1] /\ UNCHANGED <<ns, at, seen>>
Next == Point \/ Hour \/ Minute
Spec == Init /\ [][Next]_vars
\* every combination exactly once
NoneTwice == Cardinality(seen) = at
AllInTheEnd == at = Prod(ns) => seen = {f \in [DOMAIN ns -> 1..MaxCount] : \A d \in DOMAIN ns : f[d] <= ns[d]}
Corners == at = Prod(ns) => \A f \in [DOMAIN ns -> {0, 1}] : [d \in DOMAIN ns |-> IF f[d] = 0 THEN 1 ELSE ns[d]] \in seen
Ends == \A d \in DOMAIN ns : REq(Coord("0", "1", ns[d], 1), "0") /\ (ns[d] > 1 => REq(Coord("0", "1", ns[d], ns[d]), "1"))
TimeAddsUp == 3600 * hms[2] + 60 * hms[3] + left = hms[1]
TimeInRange == left < 60 => GoodTime(hms[1], hms[2], hms[3], left) /\ hms[2] = RInt(Hours(hms[1]))
=============================================================================
