---------------------------- MODULE TraceQuality ----------------------------
(* Conformance of the quality figures of recorded samplers (C15).           *)
EXTENDS QualityProps, Replay
VARIABLES k, l, st
Bad(v, w) == ~RClose(v, w, "1e-7", "1e-12")
Ask(cfg, e) ==
       Need("sample-efficiency", (cfg.kind = "chain" /\ Degenerate(e.S)) \/ ~Bad(e.ness, Figure(cfg.kind, e.S, e.W)))
  \cup Need("approximate-figure", e.approx = "none" \/ ~Bad(e.approx, WeightNESS(e.W)))
  \cup Need("acceptance-rate", e.rate = "none" \/ ~Bad(e.rate, RDiv(Len(e.S), e.drawn)))
  \cup Need("asking-changes-nothing", e.same)
  \cup Need("asking-again-agrees", e.ness2 = e.ness /\ e.rate2 = e.rate)
  \cup Need("statistics-figure", e.stat = "none" \/ ~Bad(e.stat, WeightNESS(e.W)))
Fails(cfg, e) == CASE e.op = "Raised" -> {"no-error"} [] e.op = "Ask" -> Ask(cfg, e) [] OTHER -> {"unknown-event"}
TInit == k \in 1..Len(Traces) /\ l = 1 /\ st = 0
TNext == LET T == Traces[k] IN
         /\ l <= Len(T.ev)
         /\ Report(k, l, T.ev[l].op, Fails(T.cfg, T.ev[l]))
         /\ st' = st /\ l' = l + 1 /\ k' = k
         /\ l = Len(T.ev) => Done(k)
TSpec == TInit /\ [][TNext]_<<k, l, st>>
=============================================================================
