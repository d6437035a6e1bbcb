----------------------------- MODULE MeterProps -----------------------------
(* M02: a stopwatch (or heap meter).  pos: the reading of the clock (heap); *)
(* open: an interval was started; from: its reading then; sum: what the     *)
(* completed intervals since the last reset add up to; done: their number.  *)
EXTENDS Reals, Sequences, Naturals, FiniteSets, TLC
Idle(at) == [pos |-> at, open |-> FALSE, from |-> "0", sum |-> "0", done |-> 0]
MoveTo(s, at) == [s EXCEPT !.pos = at]
Started(s) == [s EXCEPT !.open = TRUE, !.from = s.pos]
Stopped(s, cost) == [s EXCEPT !.open = FALSE, !.sum = RAdd(s.sum, RSub(RSub(s.pos, s.from), cost)), !.done = @ + 1]
Cleared(s) == [s EXCEPT !.open = FALSE, !.sum = "0", !.done = 0]
=============================================================================
