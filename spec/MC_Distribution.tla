-------------------------- MODULE MC_Distribution ---------------------------
EXTENDS Distribution, Json
N1(m, v) == [fam |-> "normal", loc |-> <<m>>, cov |-> <<<<v>>>>]
E1(m) == [fam |-> "exp", mean |-> <<m>>]
U1(c, r) == [fam |-> "uniform", c |-> <<c>>, r |-> <<r>>]
Mix(cs, w) == [fam |-> "mix", comps |-> cs, w |-> w]
MCPars == {N1("0", "1"), N1("2", "0.25"), E1("1.5"), E1("0.5"), U1("1", "0.5"),
           Mix(<<N1("0", "1"), U1("1", "2")>>, <<"1", "3">>), Mix(<<E1("2"), N1("1", "0.5"), E1("1")>>, <<"nan", "-1", "2">>),
           Mix(<<N1("0", "1"), E1("2")>>, <<"0", "nan">>)}
MCBatches == {<<<<"0.3">>>>, <<<<"-0.7">>, <<"1.3">>, <<"2.9">>>>}
View == <<par, last, cmds>>
=============================================================================
