----------------------------- MODULE Rejection ------------------------------
(* Rejection sampling: batches of the missing number of proposals, tested   *)
(* one by one, until the requested total is held.                           *)
EXTENDS RejProps
CONSTANTS Xs, Us, Kind, Scaling, Q, MaxDraws, Requests
VARIABLES held, want, batch, script
vars == <<held, want, batch, script>>
Cfg == [tkind |-> Kind, mid |-> <<"0.0">>, half |-> <<"1.0">>, shift |-> "0.0", tscale |-> "1.0", lo |-> <<"-1.0">>, hi |-> <<"1.0">>,
        q |-> Q, qc |-> <<"0.0">>, qr |-> <<"1.0">>, qcov |-> <<<<"0.5">>>>, scaling |-> Scaling]
Init == held = <<>> /\ want = 0 /\ batch = 0 /\ script = <<>>
Request == batch = 0 /\ Len(held) >= want /\ \E n \in Requests : want' = Len(held) + n /\ UNCHANGED <<held, batch, script>>
Fill == batch = 0 /\ Len(held) < want /\ batch' = want - Len(held) /\ UNCHANGED <<held, want, script>>
Test == /\ batch > 0 /\ Len(script) < MaxDraws /\ batch' = batch - 1 /\ want' = want
        /\ \E x \in Xs, u \in Us : /\ script' = Append(script, [x |-> x, u |-> u])
                                   /\ held' = IF Keeps(Cfg, <<x>>, u) THEN Append(held, <<x>>) ELSE held
Next == Request \/ Fill \/ Test
Spec == Init /\ [][Next]_vars
KeptInOrder == held = Kept(Cfg, [i \in DOMAIN script |-> <<script[i].x>>], [i \in DOMAIN script |-> script[i].u])
NeverTooMany == Len(held) <= want /\ batch <= want - Len(held)
OnlyGrows == [][SubSeq(held', 1, Len(held)) = held]_vars
=============================================================================
