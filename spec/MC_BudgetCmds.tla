--------------------------- MODULE MC_BudgetCmds ----------------------------
(* The histories of requests which the driver replays: every iteration is a *)
(* whole request's worth of samples, so that only the commands vary.        *)
EXTENDS Budget, Reals, Json
Emit == Len(cmds) = MaxCmds /\ req # None /\ clock = req.began /\ cmds[MaxCmds].op = "Req" => Say(<<"BEH", ToJson(cmds)>>)
=============================================================================
