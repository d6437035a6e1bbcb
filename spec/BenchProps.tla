----------------------------- MODULE BenchProps -----------------------------
(* B01, B02: the evaluation loop of one sampler on one target.              *)
(* c: metrics (names in the order selected, without NESS), batch, total,    *)
(*    reps, limit.                                                          *)
(* s.phase  what the repetition is doing: "reset", "start", "drawn", "read" *)
(* s.did    the participants that already did it                            *)
EXTENDS Reals, Sequences, Naturals, FiniteSets, TLC
Meters(c) == {c.metrics[i] : i \in DOMAIN c.metrics}
Begin == [phase |-> "new", did |-> {}, rep |-> 0, held |-> 0, spent |-> "0", rows |-> 0]
\* every participant reset / one request with all its readings finished
Clean(c, s) == s.phase = "reset" /\ s.did = Meters(c) \cup {"sampler"}
Finished(c, s) == (s.phase = "read" /\ s.did = Meters(c)) \/ (s.phase = "drawn" /\ Meters(c) = {})
Enough(c, s) == s.held >= c.total
Late(c, s) == RLt(c.limit, s.spent)
\* --- what may come next: the broken clauses, {} when it may
ResetBy(c, s, who) ==
  IF s.phase \in {"new", "reset"} THEN {}
  ELSE IF ~Finished(c, s) THEN {"reset-in-the-middle"}
  ELSE IF ~Enough(c, s) /\ ~Late(c, s) THEN {"stopped-before-the-total"}
  ELSE IF s.rep >= c.reps THEN {"too-many-repetitions"} ELSE {}
More(c, s) ==
  IF Clean(c, s) THEN {}
  ELSE IF s.phase = "reset" THEN {"measured-before-all-were-reset"}
  ELSE IF ~Finished(c, s) THEN {"figures-read-on-every-state"}
  ELSE IF Enough(c, s) THEN {"stops-at-the-total"}
  ELSE IF Late(c, s) THEN {"stops-at-the-limit"} ELSE {}
StartBy(c, s, who) == IF s.phase = "start" THEN (IF who \in s.did THEN {"started-twice"} ELSE {}) ELSE More(c, s)
Asks(c, s, n, given) ==
     (IF s.phase = "start" THEN (IF s.did = Meters(c) THEN {} ELSE {"request-bracketed-by-all-metrics"})
      ELSE IF Meters(c) = {} THEN More(c, s) ELSE {"request-bracketed-by-all-metrics"})
  \cup (IF n = s.held + c.batch THEN {} ELSE {"asks-one-batch-more"})
  \cup (IF RClose(given, RSub(c.limit, s.spent), "1e-9", "1e-9") THEN {} ELSE {"given-the-remaining-time"})
StopBy(c, s, who) == IF s.phase = "drawn" /\ who \notin s.did THEN {} ELSE {"request-bracketed-by-all-metrics"}
ReadBy(c, s, who) == IF (s.phase = "drawn" /\ s.did = Meters(c)) \/ (s.phase = "read" /\ who \notin s.did) THEN {} ELSE {"figures-read-after-the-bracket"}
EndOf(c, s) ==
     (IF Finished(c, s) THEN {} ELSE {"figures-read-on-every-state"})
  \cup (IF Enough(c, s) \/ Late(c, s) THEN {} ELSE {"stopped-before-the-total"})
  \cup (IF s.rep = c.reps THEN {} ELSE {"all-repetitions"})
\* --- the state after it
WithReset(s, who) == IF s.phase = "reset" THEN [s EXCEPT !.did = @ \cup {who}]
                     ELSE [s EXCEPT !.phase = "reset", !.did = {who}, !.rep = @ + 1, !.held = 0, !.spent = "0"]
WithStart(s, who) == IF s.phase = "start" THEN [s EXCEPT !.did = @ \cup {who}] ELSE [s EXCEPT !.phase = "start", !.did = {who}]
WithRequest(s, got, took) == [s EXCEPT !.phase = "drawn", !.did = {}, !.held = got, !.spent = RAdd(@, took), !.rows = @ + 1]
WithStop(s, who) == [s EXCEPT !.did = @ \cup {who}]
WithRead(s, who) == IF s.phase = "read" THEN [s EXCEPT !.did = @ \cup {who}] ELSE [s EXCEPT !.phase = "read", !.did = {who}]
\* --- the result file
Columns(c) == <<"dims", "output_samples">> \o c.metrics \o <<"NESS", "method", "target_d", "accept_rate", "proposal_samples", "proposal_evals", "target_evals">>
Words == {"method", "target_d"}
Places(name) == CASE name \in {"NESS", "accept_rate"} -> "5.01e-4"
                  [] name \in {"dims", "output_samples", "proposal_samples", "proposal_evals", "target_evals"} -> "0"
                  [] OTHER -> "5.01e-6"
Same(name, cell, want) == IF name \in Words THEN cell = want ELSE cell = want \/ RClose(cell, want, "1e-12", Places(name))
=============================================================================
