------------------------------ MODULE TraceMH -------------------------------
(* Conformance of recorded Metropolis-Hastings chains (C12).                *)
EXTENDS MHProps, Replay
VARIABLES k, l, st
\* st: current state of the chain, whether burn-in is still due, the samples returned so far
Start == [cur |-> <<>>, fresh |-> TRUE, S |-> <<>>]
Chain(cfg, s, e, want, got) ==
  IF Len(e.ds) # Len(e.us) THEN {"one-uniform-per-proposal"}
  ELSE IF Tight(cfg, s.cur, e.ds, e.us) THEN {}
  ELSE LET acc == TLCEval(Walk(cfg, s.cur, e.ds, e.us))
           burn == IF s.fresh THEN cfg.burn ELSE 0
           exp == IF Len(acc) < burn THEN <<>> ELSE Picked(acc, burn, cfg.steps)
       IN Need("returned-count", Len(got) = want)
     \cup Need("moves-made", Len(acc) = (IF want = 0 THEN 0 ELSE burn + want * cfg.steps))
     \cup Need("samples-are-the-chain", Len(got) = Len(exp) /\ \A i \in DOMAIN got : VClose(got[i], exp[i], "1e-9", "1e-12"))
     \cup Need("stops-when-accepted", e.ds # <<>> =>
                 (acc # <<>> /\ VClose(acc[Len(acc)], Proposed(cfg, LET w == Walk(cfg, s.cur, SubSeq(e.ds, 1, Len(e.ds) - 1), SubSeq(e.us, 1, Len(e.ds) - 1))
                                                                    IN IF w = <<>> THEN s.cur ELSE w[Len(w)], e.ds[Len(e.ds)]), "1e-9", "1e-12")))
Rest(s, t) == SubSeq(t, Len(s) + 1, Len(t))
Req(cfg, s, e) ==
  LET old == Len(s.S) IN
       Need("earlier-samples-kept", old <= Len(e.S) /\ SubSeq(e.S, 1, old) = s.S)
  \cup Need("equal-weights", Len(e.W) = Len(e.S) /\ Equal(e.W))
  \cup Chain(cfg, s, e, IF e.n > old THEN e.n - old ELSE 0, Rest(s.S, e.S))
\* a request whose time may run out: the samples are states the chain went through, in order, and the chain stays
\* where it last moved to
RECURSIVE Along(_, _, _, _)
Along(path, got, i, j) ==
  IF j > Len(got) THEN TRUE
  ELSE IF i > Len(path) THEN FALSE
  ELSE IF VClose(got[j], path[i], "1e-9", "1e-12") THEN Along(path, got, i, j + 1)
  ELSE Along(path, got, i + 1, j)
Short(cfg, s, e) ==
  LET old == Len(s.S)
      path == TLCEval(<<s.cur>> \o Walk(cfg, s.cur, e.ds, e.us)) IN
       Need("earlier-samples-kept", old <= Len(e.S) /\ SubSeq(e.S, 1, old) = s.S)
  \cup Need("equal-weights", Len(e.W) = Len(e.S) /\ Equal(e.W))
  \cup Need("no-more-than-asked", Len(e.S) <= old + e.n)
  \cup (IF Len(e.ds) # Len(e.us) THEN {"one-uniform-per-proposal"}
        ELSE IF Tight(cfg, s.cur, e.ds, e.us) THEN {}
        ELSE Need("cut-samples-are-the-chain", Along(path, Rest(s.S, e.S), 1, 1))
        \cup Need("stays-where-it-moved", VClose(e.cur, path[Len(path)], "1e-9", "1e-12")))
Fails(cfg, s, e) ==
  CASE e.op = "Raised" -> {"no-error"}
    [] e.op = "Born" -> Need("starts-inside", VLe(cfg.lo, e.cur) /\ VLe(e.cur, cfg.hi))
    [] e.op = "Req" -> Req(cfg, s, e)
    [] e.op = "Short" -> Short(cfg, s, e)
    [] e.op = "Draw" -> Chain(cfg, s, e, e.n, e.got)
    [] OTHER -> {"unknown-event"}
Moved(cfg, s, e) == LET acc == Walk(cfg, s.cur, e.ds, e.us) IN
  [s EXCEPT !.cur = IF acc = <<>> \/ Len(e.ds) # Len(e.us) THEN e.cur ELSE acc[Len(acc)], !.fresh = s.fresh /\ e.ds = <<>>]
After(cfg, s, e) ==
  CASE e.op = "Born" -> [cur |-> e.cur, fresh |-> TRUE, S |-> <<>>]
    [] e.op = "Req" -> [Moved(cfg, s, e) EXCEPT !.S = e.S]
    [] e.op = "Short" -> [cur |-> e.cur, fresh |-> FALSE, S |-> e.S]
    [] e.op = "Draw" -> Moved(cfg, s, e)
    [] OTHER -> s
TInit == k \in 1..Len(Traces) /\ l = 1 /\ st = Start
TNext == LET T == Traces[k] IN
         /\ l <= Len(T.ev)
         /\ Report(k, l, T.ev[l].op, Fails(T.cfg, st, T.ev[l]))
         /\ st' = After(T.cfg, st, T.ev[l])
         /\ l' = l + 1 /\ k' = k
         /\ l = Len(T.ev) => Done(k)
TSpec == TInit /\ [][TNext]_<<k, l, st>>
=============================================================================
