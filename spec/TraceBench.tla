----------------------------- MODULE TraceBench -----------------------------
(* Conformance of recorded evaluations: the calls the loop makes (B02) and  *)
(* the result file it leaves (B01).                                         *)
EXTENDS BenchProps, Replay
VARIABLES k, l, st
Lines(s, e) == (IF Has(e, "lines") THEN Need("one-row-per-request", e.lines = s.rows) ELSE {})
Loop(c, s, e) ==
  CASE e.op = "Reset" -> ResetBy(c, s, e.who) \cup Lines(s, e) \cup Need("reset-empties-the-sampler", e.left = 0)
    [] e.op = "Start" -> StartBy(c, s, e.who) \cup Lines(s, e)
    [] e.op = "Request" -> Asks(c, s, e.n, e.given) \cup Need("request-for-the-target", e.target)
    [] e.op = "Stop" -> StopBy(c, s, e.who)
    [] e.op = "Read" -> ReadBy(c, s, e.who)
                   \cup Need("read-on-the-target-and-sampler", e.args /\ e.n = c.eval)
                   \cup (IF e.who = "T" THEN Need("time-of-the-requests", RClose(e.v, s.spent, "1e-6", "1e-6")) ELSE {})
    [] e.op = "End" -> EndOf(c, s) \cup Lines(s, e)
    [] OTHER -> {}
\* the file: header and rows against the states they were written for
File(c, e) ==
     Need("a-row-for-every-state", Len(e.rows) = Len(e.truth))
 \cup Need("rectangular", \A i \in DOMAIN e.rows : Len(e.rows[i]) = Len(e.header))
 \cup Need("each-column-once", Cardinality({e.header[i] : i \in DOMAIN e.header}) = Len(e.header))
 \cup Need("all-columns-in-order", e.header = Columns(c))
 \cup Need("cells", \A r \in DOMAIN e.rows : r \in DOMAIN e.truth /\ Len(e.rows[r]) = Len(e.header) =>
                      \A i \in DOMAIN e.header : e.header[i] \in DOMAIN e.truth[r] /\ Same(e.header[i], e.rows[r][i], e.truth[r][e.header[i]]))
\* each row by itself: its fields are those of its state, in the order of the columns
 \cup Need("row", \A r \in DOMAIN e.rows : r \in DOMAIN e.truth =>
                      LET cols == Columns(c) IN Len(e.rows[r]) = Len(cols) /\ \A i \in DOMAIN cols : Same(cols[i], e.rows[r][i], e.truth[r][cols[i]]))
Fails(c, s, e) ==
  CASE e.op = "Raised" -> {"no-error"}
    [] e.op = "Order" -> IF Prop = "B01" THEN Need("targets-and-methods-in-file-order", e.seen = e.want) ELSE {}
    [] e.op = "File" -> IF Prop = "B01" THEN File(c, e) ELSE {}
    [] e.op \in {"Reset", "Start", "Request", "Stop", "Read", "End"} -> IF Prop = "B02" THEN Loop(c, s, e) ELSE {}
    [] OTHER -> {"unknown-event"}
After(s, e) ==
  CASE e.op = "Reset" -> WithReset(s, e.who)
    [] e.op = "Start" -> WithStart(s, e.who)
    [] e.op = "Request" -> WithRequest(s, e.got, e.took)
    [] e.op = "Stop" -> WithStop(s, e.who)
    [] e.op = "Read" -> WithRead(s, e.who)
    [] OTHER -> s
TInit == k \in 1..Len(Traces) /\ l = 1 /\ st = Begin
TNext == LET T == Traces[k] IN
         /\ l <= Len(T.ev)
         /\ Report(k, l, T.ev[l].op, Fails(T.cfg, st, T.ev[l]))
         /\ st' = After(st, T.ev[l])
         /\ l' = l + 1 /\ k' = k
         /\ l = Len(T.ev) => Done(k)
TSpec == TInit /\ [][TNext]_<<k, l, st>>
=============================================================================
