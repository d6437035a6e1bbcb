------------------------------ MODULE Rebirth -------------------------------
(* C04.  A sampler is reborn by Reset.  What it answers is a function of    *)
(* the random seed at birth and of the requests and queries made since then *)
(* - never of an earlier life.                                              *)
(* learned   everything adaptation has accumulated (abstractly: the list of *)
(*           inputs it was derived from)                                    *)
(* life      the commands of the current life                               *)
(* obs       the answers of the current life                                *)
EXTENDS RebirthProps, Naturals
CONSTANTS Targets, Sizes, MaxCmds
VARIABLES learned, life, obs, cmds
vars == <<learned, life, obs, cmds>>
Answer(lrn, c) == <<"answer", lrn, c>>
Init == learned = <<>> /\ life = <<>> /\ obs = <<>> /\ cmds = <<>>
Request(t, n) == LET c == [op |-> "Req", t |-> t, n |-> n] IN
  /\ Len(cmds) < MaxCmds
  /\ learned' = Append(learned, c) /\ life' = Append(life, c)
  /\ obs' = Append(obs, Answer(learned, c)) /\ cmds' = Append(cmds, c)
Query == LET c == [op |-> "Look"] IN
  /\ Len(cmds) < MaxCmds /\ Len(life) > 0 /\ life[Len(life)].op # "Look"
  /\ life' = Append(life, c) /\ obs' = Append(obs, Answer(learned, c)) /\ cmds' = Append(cmds, c)
  /\ UNCHANGED learned
Reset == /\ Len(cmds) < MaxCmds /\ cmds # <<>>
         /\ learned' = <<>> /\ life' = <<>> /\ obs' = <<>>
         /\ cmds' = Append(cmds, [op |-> "Reset"])
Next == (\E t \in Targets, n \in Sizes : Request(t, n)) \/ Query \/ Reset
Spec == Init /\ [][Next]_vars
\* what a newly constructed sampler answers to the commands cs
RECURSIVE Fresh(_, _, _)
Fresh(lrn, out, cs) ==
  IF cs = <<>> THEN out
  ELSE LET c == Head(cs) IN
       Fresh(IF c.op = "Req" THEN Append(lrn, c) ELSE lrn, Append(out, Answer(lrn, c)), Tail(cs))
LikeFresh == SameLife(obs, Fresh(<<>>, <<>>, life))
=============================================================================
