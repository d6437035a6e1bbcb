------------------------------- MODULE Derived ------------------------------
(* Two posteriors that share one generator: conditioning on observations,   *)
(* evaluating latent batches, and using the generator directly, in every    *)
(* order.  gen is the generator's conditioned batch; it is overwritten by   *)
(* every evaluation and must not matter to the next one.                    *)
EXTENDS DerivedProps
CONSTANTS Obs, Batches, MaxCmds
VARIABLES obs, gen, last, cmds
vars == <<obs, gen, last, cmds>>
Cfg == [fa |-> "0.7", fw |-> "2", fb |-> "1", slack |-> "0.3", ploc |-> <<"0">>, pcov |-> <<<<"1">>>>, nloc |-> <<"0">>, ncov |-> <<<<"0.1">>>>]
Zero(X) == [i \in DOMAIN X |-> <<"0">>]
NoObs == <<>>
Init == obs = [o \in {1, 2} |-> NoObs] /\ gen = <<>> /\ last = [o |-> 0, X |-> <<>>, l |-> <<>>, refused |-> FALSE] /\ cmds = <<>>
Did(op, o) == Len(cmds) < MaxCmds /\ cmds' = Append(cmds, [op |-> op, o |-> o])
Cond(o) == Did("Cond", o) /\ \E v \in Obs : obs' = [obs EXCEPT ![o] = v] /\ UNCHANGED <<gen, last>>
Eval(o, form) == /\ Did(form, o) /\ UNCHANGED obs
                 /\ \E X \in Batches :
                      IF obs[o] = NoObs THEN last' = [o |-> o, X |-> X, l |-> <<>>, refused |-> TRUE] /\ UNCHANGED gen
                      ELSE gen' = X /\ last' = [o |-> o, X |-> X, l |-> Posterior(Cfg, obs[o], X, Generated(Cfg, X, "0", Zero(X))), refused |-> FALSE]
Gen == Did("Gen", 0) /\ \E X \in Batches : gen' = X /\ UNCHANGED <<obs, last>>
Sc == Did("Score", 0) /\ UNCHANGED <<obs, gen, last>>
Draw(o) == Did("Draw", o) /\ \E X \in Batches : gen' = X /\ UNCHANGED <<obs, last>>
Next == Gen \/ Sc \/ \E o \in {1, 2} : Cond(o) \/ Eval(o, "Prob") \/ Eval(o, "LogProb") \/ Draw(o)
Spec == Init /\ [][Next]_vars
RefusedBefore == [][cmds'[Len(cmds')].op \in {"Prob", "LogProb"} => (last'.refused <=> obs[cmds'[Len(cmds')].o] = NoObs)]_vars
\* the result depends on the latest observation and the batch only
LatestOnly == [][cmds'[Len(cmds')].op \in {"Prob", "LogProb"} /\ ~last'.refused =>
                 last'.l = Posterior(Cfg, obs'[last'.o], last'.X, Generated(Cfg, last'.X, "0", Zero(last'.X)))]_vars
NotAbovePrior == \A i \in DOMAIN last.l : RLe(last.l[i], LogPrior(Cfg, last.X[i]))
=============================================================================
