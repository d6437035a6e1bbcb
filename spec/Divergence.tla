----------------------------- MODULE Divergence -----------------------------
(* A metric object comparing two densities given by their values on a fixed *)
(* set of points, through evaluations, rescalings, swaps and resets.        *)
EXTENDS DivProps
CONSTANTS Points, Levels, MaxCmds
VARIABLES p, q, val, cmds
vars == <<p, q, val, cmds>>
N == Len(Points)
Vectors == [1..N -> Levels] \ {[i \in 1..N |-> "0"]}
Metrics == {"KL", "JSD", "EVMSE"}
Lg(v) == [i \in 1..N |-> IF v[i] = "0" THEN "-inf" ELSE RLn(v[i])]
Fig(m, a, b) == Figure(m, Points, a, b, Lg(a), Lg(b))
Init == /\ p \in Vectors /\ q \in Vectors
        /\ val = [m \in Metrics |-> "0"] /\ cmds = <<>>
Did(c) == Len(cmds) < MaxCmds /\ cmds' = Append(cmds, c)
Eval(m) == val' = [val EXCEPT ![m] = Fig(m, p, q)] /\ Did([op |-> "Eval", m |-> m]) /\ UNCHANGED <<p, q>>
Fresh(m) == val' = [val EXCEPT ![m] = Fig(m, p, q)] /\ Did([op |-> "Fresh", m |-> m]) /\ UNCHANGED <<p, q>>
Reset(m) == val' = [val EXCEPT ![m] = "0"] /\ Did([op |-> "Reset", m |-> m]) /\ UNCHANGED <<p, q>>
Swap == p' = q /\ q' = p /\ UNCHANGED val /\ Did([op |-> "Swap", m |-> ""])
Scale == p' = VScale("7", p) /\ UNCHANGED <<q, val>> /\ Did([op |-> "Scale", m |-> ""])
Same == q' = p /\ UNCHANGED <<p, val>> /\ Did([op |-> "Same", m |-> ""])
Next == (\E m \in Metrics : Eval(m) \/ Fresh(m) \/ Reset(m)) \/ Swap \/ Scale \/ Same
Spec == Init /\ [][Next]_vars
\* --- M01, M03 on every pair of densities
near(a, b) == RClose(a, b, "1e-9", "1e-12")
Disjoint == Common(p, q, "0") = <<>>
NonNegative == \A m \in Metrics : RLe("-1e-12", Fig(m, p, q))
ZeroIffEqual == /\ (near(Fig("KL", p, q), "0") <=> SameShape(p, q))
                /\ (near(Fig("JSD", p, q), "0") <=> SameShape(p, q))
                /\ VClose(Norm(p), Norm(q), "1e-12", "0") => near(Fig("EVMSE", p, q), "0")
Bounded == RLe(Fig("JSD", p, q), "1.000000001") /\ near(Fig("JSD", p, q), Fig("JSD", q, p)) /\ near(Fig("EVMSE", p, q), Fig("EVMSE", q, p))
Worst == Disjoint => Fig("KL", p, q) = "inf" /\ Fig("JSD", p, q) = "1"
ScaleFree == \A m \in Metrics : LET a == Fig(m, p, q)  b == Fig(m, VScale("7", p), VScale("0.25", q)) IN a = b \/ near(a, b)
Rot(v) == [i \in 1..N |-> v[(i % N) + 1]]
OrderFree == \A m \in {"KL", "JSD"} : LET a == Fig(m, p, q)  b == Fig(m, Rot(p), Rot(q)) IN a = b \/ near(a, b)
=============================================================================
