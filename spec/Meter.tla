-------------------------------- MODULE Meter -------------------------------
(* The measuring metrics under every order of start, stop, read and reset,  *)
(* with the clock (or heap) moving by arbitrary amounts in between.  A stop *)
(* needs a started interval; a reset or another start discards an unfinished*)
(* one.                                                                     *)
EXTENDS MeterProps
CONSTANTS MaxCmds, Jumps, Cost
VARIABLES s, cmds, ghost     \* ghost: the moves made inside the unfinished interval, and inside completed ones
vars == <<s, cmds, ghost>>
Init == s = Idle("0") /\ cmds = <<>> /\ ghost = [now |-> "0", kept |-> "0"]
Did(c) == Len(cmds) < MaxCmds /\ cmds' = Append(cmds, c)
C(op, by) == [op |-> op, by |-> by]
Move(j) == /\ s' = MoveTo(s, RAdd(s.pos, j))
           /\ ghost' = IF s.open THEN [ghost EXCEPT !.now = RAdd(@, j)] ELSE ghost
           /\ (IF cmds = <<>> THEN TRUE ELSE cmds[Len(cmds)].op # "Move")
           /\ Did(C("Move", j))
Start == s' = Started(s) /\ ghost' = [ghost EXCEPT !.now = "0"] /\ Did(C("Start", "0"))
Stop == s.open /\ s' = Stopped(s, Cost) /\ ghost' = [now |-> "0", kept |-> RAdd(ghost.kept, ghost.now)] /\ Did(C("Stop", "0"))
Read == UNCHANGED <<s, ghost>> /\ Did(C("Read", "0"))
Reset == s' = Cleared(s) /\ ghost' = [now |-> "0", kept |-> "0"] /\ Did(C("Reset", "0"))
Next == Start \/ Stop \/ Read \/ Reset \/ \E j \in Jumps : Move(j)
Spec == Init /\ [][Next]_vars
\* the figure is exactly the movement inside completed intervals, less the cost of measuring each
Exact == RClose(s.sum, RSub(ghost.kept, RMul(s.done, Cost)), "1e-12", "1e-12")
\* only a stop adds to it and only a reset takes it away
Steady == [][s'.sum # s.sum => cmds'[Len(cmds')].op \in {"Stop", "Reset"}]_vars
Zero == s.done = 0 => s.sum = "0"
=============================================================================
