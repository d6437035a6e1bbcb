---------------------------- MODULE HelperProps -----------------------------
(* U02: grids, durations and generated mixtures.                            *)
EXTENDS DistProps
\* how many points a side of the box gets (both answers where the quotient is a whole number up to rounding)
Fits(side, res) == {LET n == RInt(RFloor(RMul(RDiv(side, res), f))) IN IF n < 1 THEN 1 ELSE n : f \in {"1", "0.9999999999999", "1.0000000000001"}}
\* the i-th of n evenly spaced coordinates
Coord(lo, hi, n, i) == IF n = 1 THEN lo ELSE RAdd(lo, RMul(RSub(hi, lo), RDiv(i - 1, n - 1)))
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE s[1] * Prod(Tail(s))
\* the index tuple of row r when the last dimension runs fastest
RECURSIVE Digits(_, _)
Digits(r, ns) == IF ns = <<>> THEN <<>> ELSE Append(Digits(r \div ns[Len(ns)], SubSeq(ns, 1, Len(ns) - 1)), 1 + (r % ns[Len(ns)]))
Tuples(ns) == {Digits(r, ns) : r \in 0..Prod(ns)-1}
\* durations
Hours(t) == RFloor(RDiv(t, "3600"))
Whole(a) == REq(a, RFloor(a))
GoodTime(t, h, m, s) == /\ Whole(h) /\ Whole(m)
                        /\ RLe("0", h) /\ RLe("0", m) /\ RLe(m, "59") /\ RLe("0", s) /\ RLt(s, "60")
                        /\ RClose(RAdd(RMul("3600", h), RAdd(RMul("60", m), s)), t, "1e-12", "1e-9")
=============================================================================
