------------------------------ MODULE Sampler -------------------------------
(* The life of a sampling method as its user sees it: requests for a total  *)
(* number of samples, resets, and queries that must not disturb anything.   *)
(* hist    the samples held, in the order they are returned                 *)
(* evals   target evaluations spent since construction or the last reset    *)
(* draws   points drawn from proposals since then                           *)
EXTENDS SamplerProps
CONSTANTS Sizes, Batches, MaxCmds, Regions
VARIABLES hist, evals, draws, did, ddraws, fresh, batch, region, cmds, last
vars == <<hist, evals, draws, did, ddraws, fresh, batch, region, cmds, last>>
\* did / ddraws: what was actually done, kept apart from the reported counters

NewSamples(k) == [i \in 1..k |-> fresh + i - 1]
Init == /\ hist = <<>> /\ evals = 0 /\ draws = 0 /\ did = 0 /\ ddraws = 0 /\ fresh = 1
        /\ batch \in Batches /\ region \in Regions
        /\ cmds = <<>> /\ last = [op |-> "New"]

Perm(s) == IF region /\ Len(s) > 1 THEN Append(Tail(s), Head(s)) ELSE s   \* a region split may reorder

Iterations(r) == IF r <= Len(hist) THEN 0 ELSE (r - Len(hist) + batch - 1) \div batch
Request(r) ==
  LET k == Iterations(r) * batch
  IN  /\ Len(cmds) < MaxCmds
      /\ hist' = IF k = 0 THEN hist ELSE Perm(hist) \o NewSamples(k)
      /\ fresh' = fresh + k
      /\ \E waste \in 0..1 :               \* proposals that were not kept
           /\ evals' = evals + k + (IF k > 0 THEN waste ELSE 0)
           /\ did' = did + k + (IF k > 0 THEN waste ELSE 0)
           /\ draws' = draws + k + (IF k > 0 THEN waste ELSE 0)
           /\ ddraws' = ddraws + k + (IF k > 0 THEN waste ELSE 0)
      /\ cmds' = Append(cmds, [op |-> "Req", n |-> r])
      /\ last' = [op |-> "Req", n |-> r]
      /\ UNCHANGED <<batch, region>>
Reset == /\ Len(cmds) < MaxCmds
         /\ hist' = <<>> /\ evals' = 0 /\ draws' = 0 /\ did' = 0 /\ ddraws' = 0
         /\ cmds' = Append(cmds, [op |-> "Reset"]) /\ last' = [op |-> "Reset"]
         /\ UNCHANGED <<fresh, batch, region>>
Look == /\ Len(cmds) < MaxCmds /\ last.op # "Look"
        /\ cmds' = Append(cmds, [op |-> "Look"]) /\ last' = [op |-> "Look"]
        /\ UNCHANGED <<hist, evals, draws, did, ddraws, fresh, batch, region>>
\* plain samples of the sampler's own model: they are paid for and kept out of the history (a Markov chain also pays
\* evaluations for them)
Draw(r) == /\ Len(cmds) < MaxCmds /\ hist # <<>> /\ last.op # "Draw"
           /\ \E waste \in 0..1 : evals' = evals + waste /\ did' = did + waste
           /\ draws' = draws + r /\ ddraws' = ddraws + r
           /\ cmds' = Append(cmds, [op |-> "Draw", n |-> r]) /\ last' = [op |-> "Draw", n |-> r]
           /\ UNCHANGED <<hist, fresh, batch, region>>
Next == (\E r \in {3} : Draw(r)) \/ (\E r \in Sizes : Request(r)) \/ Reset \/ Look
Spec == Init /\ [][Next]_vars

CountsInv == CountsMatch(evals, did) /\ CountsMatch(draws, ddraws)
NoDuplicates == Cardinality(Range(hist)) = Len(hist)
StepOk ==
  [][ /\ last'.op = "Req" => /\ Reached(hist', last'.n)
                             /\ ~region => PrefixKept(hist, hist')
                             /\ SetKept(hist, hist')
                             /\ Untouched(hist, hist', last'.n)
                             /\ NeverDecrease(evals, evals') /\ NeverDecrease(draws, draws')
      /\ last'.op = "Draw" => hist' = hist /\ NeverDecrease(evals, evals') /\ draws' > draws
      /\ last'.op = "Look" => hist' = hist /\ evals' = evals /\ draws' = draws
      /\ last'.op = "Reset" => hist' = <<>> /\ evals' = 0 /\ draws' = 0 ]_vars
=============================================================================
