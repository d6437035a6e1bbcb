------------------------------- MODULE Generic ------------------------------
(* A user-defined density through every order of installing and removing    *)
(* its two functions, and the kernels the estimates are made of.            *)
EXTENDS GenericProps
CONSTANTS MaxCmds, Grid, Steps
VARIABLES s, cmds, asked
vars == <<s, cmds, asked>>
Names == {"none", "a", "b"}
Init == s \in [lik : Names, log : Names] /\ cmds = <<[op |-> "New", lik |-> s.lik, log |-> s.log]>> /\ asked = <<>>
Did(c) == Len(cmds) < MaxCmds /\ cmds' = Append(cmds, c)
L == [a |-> "-1", b |-> "0.5"]
SetLik(n) == s' = [s EXCEPT !.lik = n] /\ asked' = asked /\ Did([op |-> "SetLik", lik |-> n, log |-> ""])
SetLog(n) == s' = [s EXCEPT !.log = n] /\ asked' = asked /\ Did([op |-> "SetLog", lik |-> "", log |-> n])
Ask == s' = s /\ asked' = <<ProbOf(s, L), LogOf(s, L)>> /\ Did([op |-> "Ask", lik |-> "", log |-> ""])
Next == Ask \/ \E n \in Names : SetLik(n) \/ SetLog(n)
Spec == Init /\ [][Next]_vars
\* refused exactly when nothing is installed; one function alone answers both forms
Rule == [][asked' # asked => /\ (asked'[1] = "refuse" <=> asked'[2] = "refuse")
                             /\ (asked'[1] = "refuse" <=> s.lik = "none" /\ s.log = "none")
                             /\ (s.lik = "none" \/ s.log = "none") => asked'[1] = asked'[2]]_vars
\* every kernel is symmetric, non-negative and integrates to one
Kernels == {"normal", "uniform", "triangular", "epanechnikov"}
Symmetric == \A n \in Kernels : \A u \in Grid : Kern(n, u) = Kern(n, RNeg(u)) /\ RLe("0", Kern(n, u))
\* midpoint rule on [-7, 7]
Step == RDiv("14", Steps)
OneMass == \A n \in Kernels : RClose(RMul(Step, RSum([i \in 1..Steps |-> Kern(n, RAdd("-7", RMul(Step, RSub(i, "0.5"))))])), "1", "2e-3", "0")
=============================================================================
