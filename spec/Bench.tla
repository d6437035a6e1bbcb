-------------------------------- MODULE Bench -------------------------------
(* The evaluation loop against an arbitrary sampler: each request delivers  *)
(* any number of new samples and takes any time.  The loop may take any step*)
(* the rules of BenchProps allow.                                           *)
EXTENDS BenchProps
CONSTANTS Metrics, Batches, Totals, Reps, Limits, Durations, Over
VARIABLES c, s, plan, seen, meter
vars == <<c, s, plan, seen, meter>>
\* seen: what was held at each row of each repetition; meter: the time inside brackets, this repetition
Init == /\ c \in [metrics : Metrics, batch : Batches, total : Totals, reps : Reps, limit : Limits]
        /\ s = Begin /\ plan = <<>> /\ seen = <<>> /\ meter = [open |-> {}, time |-> [m \in Meters(c) |-> "0"]]
Ok(clauses) == clauses = {}
Over2 == Finished(c, s) /\ s.rep = c.reps /\ (Enough(c, s) \/ Late(c, s))
Reset(x) == /\ Ok(ResetBy(c, s, x)) /\ ~(s.phase = "reset" /\ x \in s.did)
            /\ s' = WithReset(s, x) /\ UNCHANGED <<c, plan>>
            /\ seen' = IF s'.rep # s.rep THEN Append(seen, <<>>) ELSE seen
            /\ meter' = [meter EXCEPT !.time = [m \in Meters(c) |-> IF m = x THEN "0" ELSE @[m]]]
Start(m) == Ok(StartBy(c, s, m)) /\ s' = WithStart(s, m) /\ UNCHANGED <<c, plan, seen>> /\ meter' = [meter EXCEPT !.open = @ \cup {m}]
Request == \E got \in (s.held + 1)..(s.held + c.batch + Over), took \in Durations :
           /\ Ok(Asks(c, s, s.held + c.batch, RSub(c.limit, s.spent)))
           /\ s' = WithRequest(s, got, took) /\ UNCHANGED c
           /\ plan' = Append(plan, [new |-> got - s.held, took |-> took])
           /\ seen' = [seen EXCEPT ![s.rep] = Append(@, got)]
           /\ meter' = [meter EXCEPT !.time = [m \in Meters(c) |-> IF m \in meter.open THEN RAdd(@[m], took) ELSE @[m]]]
Stop(m) == Ok(StopBy(c, s, m)) /\ s' = WithStop(s, m) /\ UNCHANGED <<c, plan, seen>> /\ meter' = [meter EXCEPT !.open = @ \ {m}]
Read(m) == Ok(ReadBy(c, s, m)) /\ s' = WithRead(s, m) /\ UNCHANGED <<c, plan, seen, meter>>
Next == \/ \E x \in Meters(c) \cup {"sampler"} : Reset(x)
        \/ \E m \in Meters(c) : Start(m) \/ Stop(m) \/ Read(m)
        \/ Request
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* --- B02
Ended == Over2
Closed == ~ENABLED Next => Ended
Terminates == <>[]Ended
\* every request contributes to every metric, and nothing else does
Bracketed == s.phase = "read" => \A m \in Meters(c) : meter.time[m] = s.spent /\ meter.open = {}
Grow == \A r \in DOMAIN seen : \A i \in DOMAIN seen[r] : i > 1 => seen[r][i - 1] < seen[r][i] /\ seen[r][i - 1] < c.total
Row == s.rows = Len(plan)
NotAfterTheLimit == Len(plan) > 0 /\ s.phase = "start" => ~RLt(c.limit, s.spent)
=============================================================================
