----------------------------- MODULE MC_DistCmds ----------------------------
(* The command histories of Distribution, printed for replay.               *)
EXTENDS Distribution, Json
OnePar == {[fam |-> "laplace"]}
OneBatch == {<<<<"0.3">>>>}
Emit == Len(cmds) = MaxCmds => Say(<<"BEH", ToJson(cmds)>>)
=============================================================================
