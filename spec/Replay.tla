------------------------------- MODULE Replay -------------------------------
(* Frame shared by all trace specifications: traces recorded from the real  *)
(* implementation (one JSON object per line: id, cfg, ev = sequence of      *)
(* events) and the verdict lines.  A trace specification consumes every     *)
(* event, prints BAD for each clause of the specification the event breaks, *)
(* goes on with the observed state, and prints DONE at the end: verdicts are*)
(* total and one rejection does not hide the rest of the trace.             *)
EXTENDS Reals, Json, IOUtils, TLC, Sequences, Naturals, FiniteSets
Traces == ndJsonDeserialize(IOEnv.TRACES)
Prop == IOEnv.PROP
Report(k, l, op, bad) == \A c \in bad : Say(<<"BAD", Traces[k].id, ToString(l), op, c>>)
Done(k) == Say(<<"DONE", Traces[k].id>>)
\* {name} when the clause does not hold
Need(name, holds) == IF holds THEN {} ELSE {name}
Has(r, f) == f \in DOMAIN r
=============================================================================
