------------------------------- MODULE Chance -------------------------------
(* How often an event of known probability may be seen in independent       *)
(* trials: Chernoff's bound, at odds of exp(-20) per look whatever n and p. *)
EXTENDS Reals
LOCAL XLnY(q, p) == IF RLe(q, "0") THEN "0" ELSE RMul(q, RLn(RDiv(q, p)))
\* k of n trials, each with probability p
Plausible(k, n, p) ==
  IF RLt(p, "1e-12") THEN REq(k, "0")
  ELSE IF RLt(RSub("1", p), "1e-12") THEN REq(k, n)
  ELSE LET q == RDiv(k, n) IN RLe(RMul(n, RAdd(XLnY(q, p), XLnY(RSub("1", q), RSub("1", p)))), "20")
=============================================================================
