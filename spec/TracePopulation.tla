-------------------------- MODULE TracePopulation --------------------------
(* Conformance of recorded DM-AIS, LAIS and M-PMC iterations (C06, C07).    *)
EXTENDS PopProps, Replay
VARIABLES k, l, st
\* st.comps, st.alpha: proposals known to be in force; st.lw: log weights of the history; st.X: samples so far;
\* st.W: M-PMC weights so far
Start == [comps |-> <<>>, alpha |-> <<>>, lw |-> <<>>, X |-> <<>>, W |-> <<>>]
Kind(cfg) == cfg.kind
\* "cov" of a component is kept by M-PMC from iteration to iteration as whatever it was set to
Iter06(cfg, s, e) ==
       Need("draws-per-proposal", EachDraws(e.drawn, cfg.N, cfg.K))
  \cup Need("proposals-only-adapt", SameComps(e.comps, s.comps))
  \cup Need("scales-kept", ScaleKept(e.comps, cfg.sigma) /\ ScaleKept(e.next, cfg.sigma))
  \cup (IF cfg.kind = "dm" THEN
         LET lw == [i \in DOMAIN e.X |-> LogWeight(cfg, Equal(Len(e.comps)), e.comps, e.X[i])]
         IN  IF \A i \in DOMAIN lw : ~RLt("-inf", lw[i]) THEN Need("nothing-to-recentre-on", SameComps(e.next, e.comps))
             ELSE Need("recentre-on-positive-samples", OnSamples(e.next, e.X, lw))
             \cup (IF Len(e.next) < 50 THEN {} ELSE
                   Need("recentre-in-proportion", TemperOk(e.next, e.X, lw)) \cup
                   Need("recentre-in-proportion",
                        /\ InProportion(e.next, e.X, lw, {j \in DOMAIN e.X : RLt(e.X[j][1], cfg.mid[1])})
                        /\ InProportion(e.next, e.X, lw, {j \in DOMAIN e.X : Cardinality({h \in DOMAIN e.X : RLt(lw[h], lw[j])}) * 2 >= Len(e.X)})))
        ELSE Need("inside-space", Inside(cfg, e.next))
        \cup Need("metropolis-moves", Len(e.next) = Len(e.comps) /\ Moved(cfg, e.comps, e.next, e.deltas, cfg.L, cfg.u)))
Iter07(cfg, s, e) ==
  LET lw == [i \in DOMAIN e.X |-> LogWeight(cfg, e.alpha, e.comps, e.X[i])]
      W == Normalised(lw)
      rho == Resp(e.alpha, e.comps, e.X)
      mass == Mass(W, rho)
      mean == [d \in DOMAIN mass |-> MeanOf(W, rho[d], mass[d], e.X)]
      firm(d) == RLt("1e-9", mass[d])
      good(d) == MatClose(e.next[d].cov, CovOf(W, rho[d], mass[d], e.X, e.next[d].loc), "1e-6", "1e-9")
      asis(d) == MatClose(e.next[d].cov, Capped(ScatterOf(e.X, e.next[d].loc)), "1e-6", "1e-9")
  IN IF Len(e.X) # cfg.K \/ Len(e.W) # cfg.K \/ Len(e.next) # cfg.N THEN {"draws-per-iteration"} ELSE
       Need("proposals-only-adapt", SameComps(e.comps, s.comps) /\ VClose(e.alpha, s.alpha, "1e-9", "1e-15"))
  \cup Need("iteration-weights", VClose(e.W, W, "1e-7", "1e-14"))
  \cup Need("mixture-weights", VClose(e.nextalpha, VScale(RDiv("1", RSum(mass)), mass), "1e-7", "1e-12"))
  \cup Need("component-means", \A d \in DOMAIN mass : firm(d) => VClose(e.next[d].loc, mean[d], "1e-6", "1e-9"))
  \cup Need("component-covariance", \A d \in DOMAIN mass : firm(d) => good(d) \/ asis(d))
  \cup Need("covariance-is-total-scatter", \A d \in DOMAIN mass : firm(d) /\ asis(d) => good(d))
AnsFails(cfg, s, e) ==
  LET kept == Len(s.X) = Len(e.S) /\ \A i \in DOMAIN e.S : VEq(e.S[i], s.X[i]) IN
  IF ~kept THEN {"samples-are-the-draws"}
  ELSE IF Len(e.W) # Len(e.S) THEN {"paired"}
  ELSE IF cfg.kind = "mpmc" THEN Need("history-weights", VClose(e.W, s.W, "1e-12", "0"))
  ELSE IF \A i \in DOMAIN s.lw : ~RLt("-inf", s.lw[i]) THEN {}    \* no sample of positive weight yet
  ELSE Need("weights-sum-to-one", SumsToOne(e.W))
    \cup Need("mixture-in-force-weights", VClose(e.W, Normalised(s.lw), "1e-7", "1e-14"))
DensFails(cfg, s, e) ==
  Need("density-is-mixture", \A i \in DOMAIN e.Q : RClose(e.P[i], RExp(MixLog(s.alpha, s.comps, e.Q[i])), "1e-7", "1e-300"))
Fails(cfg, s, e) ==
  CASE e.op = "Raised" -> {"no-error"}
    [] e.op = "Born" -> Need("equal-start", VClose(e.alpha, Equal(cfg.N), "1e-12", "0"))
                   \cup Need("scales-kept", ScaleKept(e.comps, cfg.sigma))
                   \cup Need("number-of-proposals", Len(e.comps) = cfg.N)
    [] e.op = "Iter" -> IF cfg.kind = "mpmc" THEN Iter07(cfg, s, e) ELSE Iter06(cfg, s, e)
    [] e.op = "Ans" -> AnsFails(cfg, s, e)
    [] e.op = "Dens" -> DensFails(cfg, s, e)
    [] OTHER -> {"unknown-event"}
After(cfg, s, e) ==
  CASE e.op = "Born" -> [Start EXCEPT !.comps = e.comps, !.alpha = e.alpha]
    [] e.op = "Iter" -> [comps |-> e.next, alpha |-> e.nextalpha, X |-> s.X \o e.X, W |-> s.W \o e.W,
                         lw |-> IF cfg.kind = "mpmc" THEN <<>>
                                ELSE s.lw \o [i \in DOMAIN e.X |-> LogWeight(cfg, Equal(Len(e.comps)), e.comps, e.X[i])]]
    [] OTHER -> s
TInit == k \in 1..Len(Traces) /\ l = 1 /\ st = Start
TNext == LET T == Traces[k] IN
         /\ l <= Len(T.ev)
         /\ Report(k, l, T.ev[l].op, Fails(T.cfg, st, T.ev[l]))
         /\ st' = After(T.cfg, st, T.ev[l])
         /\ l' = l + 1 /\ k' = k
         /\ l = Len(T.ev) => Done(k)
TSpec == TInit /\ [][TNext]_<<k, l, st>>
=============================================================================
