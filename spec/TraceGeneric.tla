---------------------------- MODULE TraceGeneric ----------------------------
(* Conformance of recorded user-defined densities, kernel estimates, point  *)
(* masses and box integrals (D06).                                          *)
EXTENDS GenericProps, Replay
VARIABLES k, l, st
Start == [lik |-> "none", log |-> "none"]
\* log values of the two user functions: a normal and a shifted one, per point, with nothing below the cut
User(cfg, x) == IF RLt(x[1], cfg.cut) THEN [a |-> "-inf", b |-> "-inf"]
                ELSE [a |-> RNormLog(x, cfg.la, cfg.ca), b |-> RAdd(RNormLog(x, cfg.lb, cfg.cb), "0.4")]
\* a logarithm derived from the density is minus infinity where the density is no longer representable
Logged(s, v) == IF s.log # "none" THEN v ELSE RLn(RExp(v))
PAll(P, w) == Len(P) = Len(w) /\ \A i \in DOMAIN P : RClose(P[i], w[i], "1e-8", "1e-300")
Ask(cfg, s, e) ==
  IF s.lik = "none" /\ s.log = "none" THEN Need("refused-without-a-function", e.rP /\ e.rLP)
  ELSE IF e.rP \/ e.rLP THEN {"answers-with-a-function"}
  ELSE LET u == TLCEval([i \in DOMAIN e.X |-> User(cfg, e.X[i])])
       IN  Need("density-of-the-function", PAll(e.P, [i \in DOMAIN u |-> RExp(ProbOf(s, u[i]))]))
      \cup Need("log-density-of-the-function", Len(e.LP) = Len(u) /\ \A i \in DOMAIN u : RClose(e.LP[i], Logged(s, LogOf(s, u[i])), "1e-8", "1e-8"))
Kde(e) ==
  LET ok == {i \in DOMAIN e.X : ~KernEdge(e.kernel, e.bw, e.C, e.X[i])}
      w == TLCEval([i \in DOMAIN e.X |-> Estimate(e.kernel, e.bw, e.C, e.w, e.X[i])])
      near(p, q) == RClose(p, q, "1e-7", "1e-12")
  IN  Need("estimate", Len(e.P) = Len(w) /\ \A i \in ok : near(e.P[i], w[i]))
 \cup Need("log-estimate", Len(e.LP) = Len(w) /\ \A i \in ok : near(RExp(e.LP[i]), w[i]))
Kernel1(e) ==
      Need("kernel-symmetric", e.K = e.Kneg)
 \cup Need("kernel-integrates-to-one", RClose(RMul(e.step, RSum(e.G)), "1", "2e-3", "0"))
 \cup Need("kernel-value", \A i \in DOMAIN e.u : RClose(e.K[i], Kern(e.kernel, e.u[i]), "1e-8", "1e-12"))
Delta(e) ==
      Need("infinite-at-its-location-zero-elsewhere", Len(e.P) = Len(e.X) /\ \A i \in DOMAIN e.X : e.P[i] = IF AtPoint(e.loc, e.X[i]) THEN "inf" ELSE "0.0")
 \cup Need("log-of-that", Len(e.LP) = Len(e.X) /\ \A i \in DOMAIN e.X : e.LP[i] = IF AtPoint(e.loc, e.X[i]) THEN "inf" ELSE "-inf")
 \cup Need("mass-of-boxes", \A i \in DOMAIN e.boxes : REq(e.boxes[i].v, IF Contains(e.boxes[i].a, e.boxes[i].b, e.loc) THEN "1" ELSE "0"))
 \cup Need("draws-at-its-location", Len(e.D) = e.n /\ \A i \in DOMAIN e.D : VEq(e.D[i], e.loc))
Box(e) ==
  LET m == TLCEval(BoxMass(e.par, e.a, e.b))
  IN  IF e.exact THEN Need("box-mass", RClose(e.v, m, "1e-9", "1e-12"))
      ELSE Need("box-mass-estimate", HitOrMiss(e.v, e.n, e.bound, m))
Fails(cfg, s, e) ==
  CASE e.op = "Raised" -> {"no-error"}
    [] e.op \in {"New", "SetLik", "SetLog"} -> {}
    [] e.op = "Ask" -> Ask(cfg, s, e)
    [] e.op = "Kde" -> Kde(e)
    [] e.op = "Kernel" -> Kernel1(e)
    [] e.op = "Delta" -> Delta(e)
    [] e.op = "Box" -> Box(e)
    [] OTHER -> {"unknown-event"}
After(s, e) ==
  CASE e.op = "New" -> [lik |-> e.lik, log |-> e.log]
    [] e.op = "SetLik" -> [s EXCEPT !.lik = e.lik]
    [] e.op = "SetLog" -> [s EXCEPT !.log = e.log]
    [] OTHER -> s
TInit == k \in 1..Len(Traces) /\ l = 1 /\ st = Start
TNext == LET T == Traces[k] IN
         /\ l <= Len(T.ev)
         /\ Report(k, l, T.ev[l].op, Fails(T.cfg, st, T.ev[l]))
         /\ st' = After(st, T.ev[l])
         /\ l' = l + 1 /\ k' = k
         /\ l = Len(T.ev) => Done(k)
TSpec == TInit /\ [][TNext]_<<k, l, st>>
=============================================================================
