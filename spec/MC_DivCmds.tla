----------------------------- MODULE MC_DivCmds -----------------------------
(* Histories of one metric object; the densities are chosen by the driver.  *)
EXTENDS Divergence, Json
Pts == << <<"0">>, <<"1">> >>
One == {"1"}
Emit == Len(cmds) = MaxCmds => Say(<<"BEH", ToJson(cmds)>>)
\* a figure only ever changes by being evaluated or reset
Stable == [][val' # val => cmds'[Len(cmds')].op \in {"Eval", "Fresh", "Reset"}]_vars
=============================================================================
