----------------------------- MODULE MC_Generic -----------------------------
EXTENDS Generic, Json
\* the kernels do not depend on the state: look at them in the initial states only
SymmetricOnce == Len(cmds) = 1 => Symmetric
OneMassOnce == Len(cmds) = 1 => OneMass
Emit == Len(cmds) = MaxCmds => Say(<<"BEH", ToJson(cmds)>>)
=============================================================================
