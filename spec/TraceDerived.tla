---------------------------- MODULE TraceDerived ----------------------------
(* Conformance of recorded posteriors and generators (D05).                 *)
EXTENDS DerivedProps, Replay
VARIABLES k, l, st
Start == [obs |-> <<(<<>>), (<<>>)>>, gen |-> <<>>]
Near(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : RClose(a[i], b[i], "1e-9", "1e-9")
NearExp(p, w) == Len(p) = Len(w) /\ \A i \in DOMAIN p : RClose(p[i], RExp(w[i]), "1e-8", "1e-300")
RowsNear(A, B) == Len(A) = Len(B) /\ \A i \in DOMAIN A : VClose(A[i], B[i], "1e-9", "1e-12")
Fails(cfg, s, e) ==
  CASE e.op = "Raised" -> {"no-error"}
    [] e.op = "Cond" -> {}
    [] e.op = "Eval" ->
       IF s.obs[e.o] = <<>> THEN Need("refused-before-observation", e.raised)
       ELSE IF e.raised THEN {"no-error"}
       ELSE Need("one-noise-draw-per-row", Len(e.noise) = Len(e.X))
       \cup (IF Len(e.noise) # Len(e.X) THEN {} ELSE
             LET w == TLCEval(Posterior(cfg, s.obs[e.o], e.X, Generated(cfg, e.X, cfg.z, e.noise)))
             IN  IF e.form = "log" THEN Need("log-posterior", Near(e.V, w)) ELSE Need("posterior", NearExp(e.V, w)))
       \cup Need("input-untouched", e.X2 = e.X)
    [] e.op = "Gen" ->
       Need("one-noise-draw-per-row", Len(e.noise) = Len(e.X))
       \cup (IF Len(e.noise) # Len(e.X) THEN {} ELSE Need("function-value-plus-noise", RowsNear(e.Y, Generated(cfg, e.X, cfg.z, e.noise))))
    [] e.op = "Score" ->
       IF s.gen = <<>> THEN Need("refused-before-conditioning", e.raised)
       ELSE IF e.raised THEN {"no-error"}
       ELSE LET w == TLCEval(Score(cfg, s.gen, e.Y)) IN Need("deviation-density", NearExp(e.P, w)) \cup Need("deviation-log-density", Near(e.LP, w))
    [] e.op = "Draw" ->
       Need("one-draw-each", Len(e.X) = e.n /\ Len(e.noise) = e.n /\ Len(e.snoise) = e.n)
       \cup (IF Len(e.noise) # Len(e.X) \/ Len(e.snoise) # Len(e.X) THEN {} ELSE
             LET y == Generated(cfg, e.X, cfg.z, e.noise) IN Need("sensor-of-generated", RowsNear(e.Y, [i \in DOMAIN y |-> VAdd(y[i], e.snoise[i])])))
    [] e.op = "Nuis" ->
       IF e.refused THEN Need("refused-before-conditioning", e.first)
       ELSE Need("accepted-only-when-conditioned", ~e.first)
       \cup Need("one-nuisance-draw-per-row", Len(e.N) = Len(e.Z) * e.reps)
       \cup Need("generator-sees-latest-condition", e.seen = e.Z)
       \cup Need("generator-sees-the-nuisances", e.nseen = e.N)
       \cup Need("returns-the-generated", RowsNear(e.Y, e.made))
    [] OTHER -> {"unknown-event"}
After(s, e) ==
  CASE e.op = "Cond" -> [s EXCEPT !.obs[e.o] = e.v]
    [] e.op = "Eval" -> IF e.raised THEN s ELSE [s EXCEPT !.gen = e.X]
    [] e.op \in {"Gen", "Draw"} -> [s EXCEPT !.gen = e.X]
    [] OTHER -> s
TInit == k \in 1..Len(Traces) /\ l = 1 /\ st = Start
TNext == LET T == Traces[k] IN
         /\ l <= Len(T.ev)
         /\ Report(k, l, T.ev[l].op, Fails(T.cfg, st, T.ev[l]))
         /\ st' = After(st, T.ev[l])
         /\ l' = l + 1 /\ k' = k
         /\ l = Len(T.ev) => Done(k)
TSpec == TInit /\ [][TNext]_<<k, l, st>>
=============================================================================
