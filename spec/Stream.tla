------------------------------- MODULE Stream -------------------------------
(* U01.  A producer thread receives lines and a consumer calls the reader.  *)
(* Both operations take time: a line is offered, takes effect at one moment *)
(* (joins the waiting lines) and is done; a call is made, takes effect at   *)
(* one moment, and returns.  Everything in between may interleave.          *)
(* plan: who ran in which order, for how long - up to the end of its        *)
(* operation or only part of it - which is what is replayed on real threads *)
EXTENDS StreamProps, FiniteSets, TLC
CONSTANTS MaxLines, MaxCalls, MaxPlan
VARIABLES q, offered, off, call, calls, reads, skips, plan
vars == <<q, offered, off, call, calls, reads, skips, plan>>
None == <<>>
Init == q = <<>> /\ offered = 0 /\ off = None /\ call = None /\ calls = 0 /\ reads = <<>> /\ skips = <<>> /\ plan = <<>>
Ran(who, op, whole) == Len(plan) < MaxPlan /\ plan' = Append(plan, [who |-> who, op |-> op, whole |-> whole])
Label(n) == ToString(n)
\* the producer: from wherever it is, up to some later stage of its operation (1 offered, 2 in effect, 3 done)
Offer(to) ==
  LET line == Label(offered + 1)
      fresh == off = None
      l == IF fresh THEN line ELSE off[1]
      was == IF fresh THEN 0 ELSE off[2]
  IN  /\ (IF fresh THEN offered < MaxLines ELSE TRUE)
      /\ to > was \/ (to = was /\ to < 3)
      /\ offered' = IF fresh THEN offered + 1 ELSE offered
      /\ q' = IF was < 2 /\ to >= 2 THEN Append(q, l) ELSE q
      /\ off' = IF to = 3 THEN None ELSE <<l, to>>
      /\ Ran("P", "Line", to = 3)
      /\ UNCHANGED <<call, calls, reads, skips>>
\* the consumer
Call(op, to) ==
  LET fresh == call = None
      was == IF fresh THEN 0 ELSE call[2]
      acts == was < 2 /\ to >= 2
      res == IF acts THEN Answer(q, op) ELSE IF fresh THEN Nothing ELSE call[3]
  IN  /\ (IF fresh THEN calls < MaxCalls ELSE op = call[1])
      /\ to > was \/ (to = was /\ to < 3)
      /\ calls' = IF fresh THEN calls + 1 ELSE calls
      /\ q' = IF acts THEN Left(q, op) ELSE q
      /\ call' = IF to = 3 THEN None ELSE <<op, to, res>>
      /\ reads' = IF acts /\ op = "Read" /\ res # Nothing THEN Append(reads, res) ELSE reads
      /\ skips' = IF acts /\ op # "Read" /\ res # Nothing THEN Append(skips, <<Len(reads), res, op>>) ELSE skips
      /\ Ran("C", op, to = 3)
      /\ UNCHANGED <<offered, off>>
Next == (\E to \in 1..3 : Offer(to)) \/ (\E op \in {"Read", "Keep", "Drop"}, to \in 1..3 : Call(op, to))
Spec == Init /\ [][Next]_vars
N(l) == CHOOSE n \in 1..MaxLines : Label(n) = l
Increasing(s) == \A i, j \in DOMAIN s : i < j => N(s[i]) < N(s[j])
\* each line at most once, in order of arrival; a skip is never behind what was read before it
InOrder == Increasing(reads) /\ Increasing(q)
NotBehind == \A s \in {skips[i] : i \in DOMAIN skips} : \A r \in 1..s[1] : N(reads[r]) < N(s[2])
Waiting == \A i \in DOMAIN reads : \A j \in DOMAIN q : N(reads[i]) < N(q[j])
\* what was skipped over is gone; a kept line is the next one read
Kept == \A i \in DOMAIN skips : LET s == skips[i] IN
          \A r \in s[1]+1..Len(reads) : IF s[3] = "Keep" THEN N(reads[r]) >= N(s[2]) ELSE N(reads[r]) > N(s[2])
=============================================================================
