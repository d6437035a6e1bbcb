---------------------------- MODULE TraceNested -----------------------------
(* Conformance of recorded nested and multi-nested sampling (C14).          *)
EXTENDS NestedProps, Targets, Replay
VARIABLES k, l, st
Start == [S |-> <<>>]
Pt(cfg, x) == [x |-> x, v |-> LogTarget(cfg, x)]
Pts(cfg, xs) == TLCEval([i \in DOMAIN xs |-> Pt(cfg, xs[i])])
Tie(a, b) == ~REq(a, b) /\ RClose(a, b, "1e-12", "1e-13")
\* position of the first evaluated point from p on that may replace value v; 0 if there is none
RECURSIVE FirstFit(_, _, _, _)
FirstFit(ev, p, v, any) == IF p > Len(ev) THEN 0 ELSE IF any \/ RLe(v, ev[p].v) THEN p ELSE FirstFit(ev, p + 1, v, any)
\* the clauses broken by retiring the new samples (from j on), working through groups of per samples each
RECURSIVE Sim(_, _, _, _, _, _, _)
Sim(live, ev, p, new, j, groups, per) ==
  IF j > Len(new) THEN [bad |-> Need("every-draw-judged", p = Len(ev) + 1), live |-> live]
  ELSE LET g == groups[((j - 1) \div per) + 1]
           members == {g.idx[i] : i \in DOMAIN g.idx}
           at == {i \in members : live[i].x = new[j]}
       IN IF at = {} THEN [bad |-> {"retired-point-was-live"}, live |-> live]
          ELSE LET i == CHOOSE i \in at : TRUE
                   q == FirstFit(ev, p, live[i].v, g.converged)
               IN IF \E m \in members : Tie(live[m].v, live[i].v) THEN [bad |-> {}, live |-> <<>>]
                  ELSE IF ~IsWorst(live, members, i) THEN [bad |-> {"worst-point-retired"}, live |-> live]
                  ELSE IF \E m \in p..Len(ev) : Tie(ev[m].v, live[i].v) THEN [bad |-> {}, live |-> <<>>]
                  ELSE IF q = 0 THEN [bad |-> {"replaced-by-no-worse"}, live |-> live]
                  ELSE Sim([live EXCEPT ![i] = ev[q]], ev, q + 1, new, j + 1, groups, per)
Count(f, x) == Cardinality({i \in DOMAIN f : f[i] = x})
SameBag(f, g) == Len(f) = Len(g) /\ \A i \in DOMAIN f : Count(f, f[i]) = Count(g, f[i])
Req(cfg, s, e) ==
  LET old == Len(s.S)
      new == SubSeq(e.S, old + 1, Len(e.S))
      G == Len(e.groups)
      sim == IF new = <<>> THEN [bad |-> {}, live |-> Pts(cfg, e.before)]
             ELSE Sim(Pts(cfg, e.before), Pts(cfg, e.evals), 1, new, 1, e.groups, Len(new) \div G)
  IN   Need("live-count-kept", Len(e.before) = cfg.N /\ Len(e.after) = cfg.N)
  \cup Need("earlier-samples-kept", old <= Len(e.S) /\ SubSeq(e.S, 1, old) = s.S)
  \cup Need("groups-partition-the-live-points",
            /\ \A i \in 1..cfg.N : Cardinality({g \in DOMAIN e.groups : \E j \in DOMAIN e.groups[g].idx : e.groups[g].idx[j] = i}) = 1
            /\ Len(new) % G = 0)
  \cup sim.bad
  \cup Need("live-points-are-the-survivors", (sim.bad = {} /\ sim.live # <<>>) => SameBag([i \in DOMAIN sim.live |-> sim.live[i].x], e.after))
  \cup Need("weights", Len(e.W) = Len(e.S) /\ VClose(e.W, WeightsOf([i \in DOMAIN e.S |-> LogTarget(cfg, e.S[i])], cfg.N), "1e-8", "1e-300"))
\* the time budget was over from the start: only the retirement and the weights are judged, one sample at a time
Hasty(cfg, s, e) ==
  LET old == Len(s.S)
      live == Pts(cfg, e.before)
  IN   Need("live-count-kept", Len(e.before) = cfg.N /\ Len(e.after) = cfg.N)
  \cup Need("weights", Len(e.W) = Len(e.S) /\ VClose(e.W, WeightsOf([i \in DOMAIN e.S |-> LogTarget(cfg, e.S[i])], cfg.N), "1e-8", "1e-300"))
  \cup (IF Len(e.S) # old + 1 \/ Len(e.groups) # 1 THEN {}
        ELSE LET at == {i \in DOMAIN live : live[i].x = e.S[old + 1]} IN
             Need("worst-point-retired", at # {} /\ \A i \in at : \A j \in DOMAIN live : RLe(live[i].v, RAdd(live[j].v, "1e-12"))))
Fails(cfg, s, e) ==
  CASE e.op = "Raised" -> {"no-error"}
    [] e.op = "Born" -> Need("live-count", Len(e.live) = cfg.N)
    [] e.op = "Req" -> IF e.patient THEN Req(cfg, s, e) ELSE Hasty(cfg, s, e)
    [] OTHER -> {"unknown-event"}
After(cfg, s, e) == CASE e.op = "Born" -> Start [] e.op = "Req" -> [S |-> e.S] [] OTHER -> s
TInit == k \in 1..Len(Traces) /\ l = 1 /\ st = Start
TNext == LET T == Traces[k] IN
         /\ l <= Len(T.ev)
         /\ Report(k, l, T.ev[l].op, Fails(T.cfg, st, T.ev[l]))
         /\ st' = After(T.cfg, st, T.ev[l])
         /\ l' = l + 1 /\ k' = k
         /\ l = Len(T.ev) => Done(k)
TSpec == TInit /\ [][TNext]_<<k, l, st>>
=============================================================================
