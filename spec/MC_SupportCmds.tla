--------------------------- MODULE MC_SupportCmds ----------------------------
(* Histories of builds, edits, moves and looks, printed for replay.         *)
EXTENDS Support, Json
A == [fam |-> "normal", loc |-> <<"0">>, cov |-> <<(<<"1">>)>>]
B == [fam |-> "normal", loc |-> <<"3">>, cov |-> <<(<<"1">>)>>]
TwoPars == {A, B}
TwoBoxes == {<<>>, <<(<<"-1">>), (<<"8">>)>>}
Emit == Len(cmds) = MaxCmds /\ (\E i \in DOMAIN cmds : cmds[i].op = "New") => Say(<<"BEH", ToJson(<<[op |-> IF box = <<>> THEN "Free" ELSE "Given", o |-> 1]>> \o cmds)>>)
=============================================================================
