---------------------------- MODULE TraceSampler ----------------------------
(* Conformance of recorded sampler lives with Sampler.tla, for C01 (paired, *)
(* finite output), C02 (cumulative requests), C03 (counts), C05 (space).    *)
EXTENDS SamplerProps, Replay
VARIABLES k, l, st

\* st: what the user knows so far.  e.hit: the target is positive at some sample returned; as long as it is zero at all of
\* them no normalised weights exist and nothing is asked of them
Start(cfg) == [S |-> <<>>, W |-> <<>>, hit |-> FALSE, oev |-> 0, odr |-> 0, qev |-> 0]

Outside(cfg, x) == ~(VLe(cfg.lo, x) /\ VLe(x, cfg.hi))
Shaped(cfg, e) == /\ Len(e.shS) = 2 /\ e.shS[2] = cfg.dims
                  /\ Len(e.shW) = 1 /\ Len(e.S) = e.shS[1] /\ Len(e.W) = e.shW[1]

C01(cfg, e) ==
  IF e.op # "Req" THEN {}
  ELSE IF ~Shaped(cfg, e) THEN {"shape"}
  ELSE Need("paired", Len(e.S) = Len(e.W))
    \cup Need("samples-finite", \A i \in DOMAIN e.S : VFinite(e.S[i]))
    \cup Need("weights-finite", e.hit => VFinite(e.W))
    \cup Need("weights-nonnegative", VFinite(e.W) => VAllGe(e.W, "0"))
    \cup Need("weight-positive", VFinite(e.W) /\ e.hit => RLt("0", RSum(e.W)))
    \cup Need("stats-count", e.sn = Len(e.S))
    \cup Need("own-samples", cfg.own => e.ownS = e.S)
    \cup Need("own-weights", (cfg.own /\ VFinite(e.W) /\ VFinite(e.ownW)) => VProp(e.W, e.ownW, "1e-9"))

C02(cfg, s, e) ==
  IF e.op # "Req" THEN {}
  ELSE IF ~Shaped(cfg, e) THEN {"shape"}
  ELSE Need("reached", e.cut \/ Reached(e.S, e.n))
    \cup Need("prefix-kept", cfg.flat => PrefixKept(s.S, e.S))
    \cup Need("samples-kept", cfg.keepset => SetKept(s.S, e.S))
    \cup Need("weight-ratios-kept", (cfg.flat /\ s.hit /\ Len(s.W) <= Len(e.W) /\ Len(s.W) > 0)
                                     => VProp(SubSeq(e.W, 1, Len(s.W)), s.W, "1e-9"))
    \cup Need("satisfied-untouched", Untouched(s.S, e.S, e.n))
    \cup Need("satisfied-weights-untouched", Len(s.S) >= e.n /\ s.hit => VClose(e.W, s.W, "1e-12", "0"))
    \cup Need("satisfied-no-draw", Len(s.S) >= e.n => e.odr = s.odr)

C03(cfg, s, e) ==
       Need("target-evals", CountsMatch(e.sev, e.oev))
  \cup Need("target-evals-property", CountsMatch(e.pev, e.oev))
  \cup Need("proposal-draws", CountsMatch(e.sdr, e.odr))
  \cup Need("proposal-draws-property", CountsMatch(e.pdr, e.odr))
  \cup Need("proposal-evals-property", e.pqe = e.sqe)
  \cup Need("proposal-evals", e.sqe = CASE e.op \in {"Reset", "New"} -> 0
                                      [] e.op = "Req" -> s.qev + Looked(cfg.method, cfg.nprop, e.sn - Len(s.S), e.oev - s.oev)
                                      [] e.op = "Draw" /\ cfg.method = "mh" -> s.qev + (e.oev - s.oev)
                                      [] OTHER -> s.qev)
  \cup (IF e.op \in {"Reset", "New"} THEN Need("zero-after-reset", e.sev = 0 /\ e.sdr = 0)
        ELSE Need("never-decreases", NeverDecrease(s.oev, e.oev) /\ NeverDecrease(s.odr, e.odr)))
  \cup (IF e.op = "Draw" THEN Need("draw-is-paid", e.odr > s.odr) ELSE {})
  \cup (IF e.op = "Look" THEN Need("query-costs-nothing", e.sev = s.oev /\ e.sdr = s.odr) ELSE {})

\* what the sampler holds is not touched by queries and draws (C02)
Kept02(cfg, s, e) == Need("query-keeps-samples", cfg.own => e.ownS = s.S)
                 \cup Need("query-keeps-weights", (cfg.own /\ s.hit /\ Len(s.W) > 0) => Len(e.ownW) = Len(s.W) /\ VProp(s.W, e.ownW, "1e-9"))

C05(cfg, e) ==
  IF e.op # "Req" THEN {}
  ELSE IF ~Shaped(cfg, e) THEN {"shape"}
  ELSE Need("returned-inside", \A i \in DOMAIN e.S : ~Outside(cfg, e.S[i]))
    \cup Need("evaluated-inside", e.npts > 0 => ~Outside(cfg, e.plo) /\ ~Outside(cfg, e.phi))

Fails(cfg, s, e) ==
  IF e.op = "Raised" THEN {"no-error"}
  ELSE IF e.op \notin {"New", "Req", "Look", "Reset", "Draw"} THEN {"unknown-event"}
  ELSE CASE Prop = "C01" -> C01(cfg, e) [] Prop = "C02" -> C02(cfg, s, e) \cup (IF e.op \in {"Look", "Draw"} THEN Kept02(cfg, s, e) ELSE {})
         [] Prop = "C03" -> C03(cfg, s, e) [] Prop = "C05" -> C05(cfg, e)

After(cfg, s, e) ==
  CASE e.op = "Req" -> [S |-> e.S, W |-> e.W, hit |-> e.hit, oev |-> e.oev, odr |-> e.odr, qev |-> e.sqe]
    [] e.op \in {"Reset", "New"} -> Start(cfg)
    [] e.op \in {"Look", "Draw"} -> [s EXCEPT !.oev = e.oev, !.odr = e.odr, !.qev = e.sqe]
    [] OTHER -> s

TInit == k \in 1..Len(Traces) /\ l = 1 /\ st = Start(Traces[k].cfg)
TNext == LET T == Traces[k] IN
         /\ l <= Len(T.ev)
         /\ Report(k, l, T.ev[l].op, Fails(T.cfg, st, T.ev[l]))
         /\ st' = After(T.cfg, st, T.ev[l])
         /\ l' = l + 1 /\ k' = k
         /\ l = Len(T.ev) => Done(k)
TSpec == TInit /\ [][TNext]_<<k, l, st>>
=============================================================================
