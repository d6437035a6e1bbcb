----------------------------- MODULE MC_Sampler -----------------------------
(* Exhaustive exploration of Sampler with small constants; every complete   *)
(* command history is printed and replayed into the real samplers.          *)
EXTENDS Sampler, Json, Reals, TLC
View == <<hist, evals, draws, did, ddraws, fresh, batch, region, cmds>>
Emit == Len(cmds) = MaxCmds => Say(<<"BEH", ToJson(cmds)>>)
=============================================================================
