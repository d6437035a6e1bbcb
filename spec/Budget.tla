------------------------------- MODULE Budget -------------------------------
(* C17.  A sampler answers requests for totals with a time budget.  An      *)
(* iteration takes some time and brings some samples (possibly none); it is *)
(* begun only while samples are missing and time is left.                   *)
EXTENDS BudgetProps, TLC
CONSTANTS MaxCmds, Sizes, Budgets, Gains, Costs, MaxHeld
VARIABLES held, clock, req, late, cmds, kept, last
vars == <<held, clock, req, late, cmds, kept, last>>
None == <<>>
Init == held = 0 /\ clock = 0 /\ req = None /\ late = 0 /\ cmds = <<>> /\ kept = TRUE /\ last = None
Ticks(b) == CASE b = "ample" -> 1000 [] b = "short" -> 3 [] b = "tiny" -> 1
Request == /\ req = None /\ Len(cmds) < MaxCmds
           /\ \E n \in Sizes, b \in Budgets :
                /\ req' = [n |-> held + n, until |-> clock + Ticks(b), from |-> held, began |-> clock]
                /\ cmds' = Append(cmds, [op |-> "Req", n |-> n, b |-> b])
           /\ late' = 0 /\ UNCHANGED <<held, clock, kept, last>>
Due == held < req.n /\ clock < req.until
Iterate == /\ req # None
           /\ Due
           /\ \E g \in Gains, c \in Costs :
                /\ held' = held + g /\ clock' = clock + c
                /\ late' = IF clock + c > req.until THEN c ELSE 0
                /\ held' <= MaxHeld
           /\ UNCHANGED <<req, cmds, kept, last>>
Return == /\ req # None /\ ~Due
          /\ last' = [held |-> held, n |-> req.n, now |-> clock, until |-> req.until, from |-> req.from, late |-> late]
          /\ req' = None /\ UNCHANGED <<held, clock, late, cmds, kept>>
Reset == /\ req = None /\ held > 0 /\ Len(cmds) < MaxCmds
         /\ held' = 0 /\ cmds' = Append(cmds, [op |-> "Reset"]) /\ last' = None /\ UNCHANGED <<clock, req, late, kept>>
Next == Request \/ Iterate \/ Return \/ Reset
Spec == Init /\ [][Next]_vars
\* a returned request reached its total or spent its time, lost nothing, and ran on for less than one iteration
Returned == last # None => /\ ReachedOrSpent(last.held, last.n, last.now, last.until)
                           /\ last.held >= last.from
                           /\ last.late < 1 + (CHOOSE c \in Costs : \A d \in Costs : d <= c)
\* no iteration begins late
NeverLate == [][clock' > clock => clock < req.until /\ held < req.n]_vars
=============================================================================
