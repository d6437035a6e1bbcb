------------------------------- MODULE Config -------------------------------
(* B04.  Benchmark objects load target, method and configuration files.     *)
(* A file is a sequence of entries, one of which may be broken.             *)
(* held      per object and kind: the entries loaded, in order, or Unknown  *)
(*           (after a refused load, whose leftovers mean nothing)           *)
(* spot      per object: the box methods were built on                      *)
(* answer    of the last load                                               *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Objects, TargetFiles, MethodFiles, MaxCmds
VARIABLES held, spot, answer, cmds
vars == <<held, spot, answer, cmds>>
Broken(f) == \E i \in DOMAIN f : f[i] = "broken"
Unknown == <<"unknown">>
Init == /\ held = [o \in Objects |-> [targets |-> <<>>, methods |-> <<>>]]
        /\ spot = [o \in Objects |-> "none"]
        /\ answer = "none" /\ cmds = <<>>
Did(op, o) == Len(cmds) < MaxCmds /\ cmds' = Append(cmds, [op |-> op, o |-> o])
Load(o, kind, f) == /\ answer' = IF Broken(f) THEN "refused" ELSE "loaded"
                    /\ held' = [held EXCEPT ![o][kind] = IF Broken(f) THEN Unknown ELSE f]
Targets(o, f) == Load(o, "targets", f) /\ UNCHANGED spot /\ Did(IF Broken(f) THEN "BadTargets" ELSE "Targets", o)
Methods(o, f) == /\ held[o].targets # <<>> /\ held[o].targets # Unknown
                 /\ Load(o, "methods", f)
                 /\ \E i \in DOMAIN held[o].targets : spot' = [spot EXCEPT ![o] = held[o].targets[i]]
                 /\ Did(IF Broken(f) THEN "BadMethods" ELSE "Methods", o)
Config(o) == answer' = "loaded" /\ UNCHANGED <<held, spot>> /\ Did("Config", o)
Next == \E o \in Objects : (\E f \in TargetFiles : Targets(o, f)) \/ (\E f \in MethodFiles : Methods(o, f)) \/ Config(o)
Spec == Init /\ [][Next]_vars
\* nothing is held that no single file describes, and a load concerns its own object and kind only
FromOneFile == \A o \in Objects : held[o].targets \in TargetFiles \cup {<<>>, Unknown} /\ held[o].methods \in MethodFiles \cup {<<>>, Unknown}
Last == cmds'[Len(cmds')]
OwnOnly == [][\A o \in Objects : /\ o # Last.o => held'[o] = held[o]
                                 /\ Last.op \in {"Targets", "BadTargets", "Config"} => held'[o].methods = held[o].methods
                                 /\ Last.op \in {"Methods", "BadMethods", "Config"} => held'[o].targets = held[o].targets]_vars
RefusedWhenBroken == [][(answer' = "refused") <=> (Last.op \in {"BadTargets", "BadMethods"})]_vars
=============================================================================
