------------------------------- MODULE Repeat -------------------------------
(* B03.  One process evaluates experiments one after another: experiment e  *)
(* on an object that may have been used before, started with a seed or (a   *)
(* negative one) on the generator as it stands.  The outcome of an          *)
(* evaluation is a function of the experiment and of the generator's state  *)
(* when the evaluation begins, after seeding - of nothing else.             *)
(* rng      the generator: the seed it was last given, what was drawn since *)
(* learned  what each object has accumulated                                *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Experiments, Seeds, MaxCmds
VARIABLES rng, learned, table, cmds
vars == <<rng, learned, table, cmds>>
NoSeed == 99
Init == /\ rng = <<"unknown">> /\ learned = [e \in Experiments |-> <<>>]
        /\ table = {} /\ cmds = <<>>
Did(c) == Len(cmds) < MaxCmds /\ cmds' = Append(cmds, c)
\* an evaluation resets its object first; what it answers and how it moves the generator depend on (e, r)
Outcome(e, r, lrn) == <<"rows", e, r, lrn>>
Run(e, seed, fresh, place) ==
  LET r0 == IF place THEN <<seed>> ELSE rng                 \* a negative seed on a generator placed by the user
      r == IF place THEN r0 ELSE <<seed>>
      lrn == <<>>                                           \* reset, also when the object is new
  IN  /\ table' = table \cup {[key |-> <<e, r>>, out |-> Outcome(e, r, lrn)]}
      /\ rng' = <<"after", e, r>>
      /\ learned' = [learned EXCEPT ![e] = IF fresh THEN <<r>> ELSE Append(@, r)]
      /\ Did([op |-> "Run", e |-> e, seed |-> seed, fresh |-> fresh, place |-> place])
Disturb == rng' = <<"moved", rng>> /\ UNCHANGED <<learned, table>> /\ (IF cmds = <<>> THEN TRUE ELSE cmds[Len(cmds)].op # "Disturb")
           /\ Did([op |-> "Disturb", e |-> 1, seed |-> 0, fresh |-> FALSE, place |-> FALSE])
Next == Disturb \/ \E e \in Experiments, s \in Seeds, f \in BOOLEAN, p \in BOOLEAN : Run(e, s, f, p)
Spec == Init /\ [][Next]_vars
Repeatable == \A a, b \in table : a.key = b.key => a.out = b.out
\* keys are about the experiment and the seed, not about the history
Plain == \A a \in table : Len(a.key[2]) = 1 /\ a.key[2][1] \in Seeds
=============================================================================
