----------------------------- MODULE MC_Support ------------------------------
EXTENDS Support
N(m, c) == [fam |-> "normal", loc |-> m, cov |-> c]
MCPars == { N(<<"0">>, <<(<<"1">>)>>), N(<<"3">>, <<(<<"0.01">>)>>), N(<<"0">>, <<(<<"4">>)>>),
            N(<<"0", "1">>, <<(<<"1", "0.5">>), (<<"0.5", "1">>)>>), N(<<"-50", "1e-3">>, <<(<<"0.2", "0">>), (<<"0", "9">>)>>),
            [fam |-> "exp", mean |-> <<"1">>], [fam |-> "exp", mean |-> <<"40">>], [fam |-> "exp", mean |-> <<"0.1", "2">>],
            [fam |-> "uniform", c |-> <<"0.5">>, r |-> <<"0.5">>], [fam |-> "uniform", c |-> <<"1", "-7">>, r |-> <<"2", "0.1">>],
            [fam |-> "maxwell"], [fam |-> "laplace"], [fam |-> "pareto"], [fam |-> "banana"] }
MCBoxes == { <<>> }
\* boxes the user gives: one per dimension count would do; only shape matters
GivenPars == { N(<<"0">>, <<(<<"1">>)>>), N(<<"3">>, <<(<<"0.01">>)>>) }
GivenBoxes == { <<>>, <<(<<"-1">>), (<<"8">>)>> }
=============================================================================
