------------------------------ MODULE RejProps ------------------------------
(* C13: the accept test of rejection sampling.                              *)
(* cfg.q: "uniform" over the box cfg.qc +- cfg.qr, or "normal" with mean    *)
(* cfg.qc and covariance cfg.qcov; cfg.scaling multiplies it (the envelope).*)
EXTENDS Targets, Sequences, Naturals, FiniteSets
QLog(cfg, x) ==
  IF cfg.q = "normal" THEN RNormLog(x, cfg.qc, cfg.qcov)
  ELSE IF \A i \in DOMAIN x : RLe(RAbs(RSub(x[i], cfg.qc[i])), cfg.qr[i])
       THEN RNeg(RSum([i \in DOMAIN x |-> RLn(RMul("2", cfg.qr[i]))])) ELSE "-inf"
Envelope(cfg, x) == RMul(cfg.scaling, RExp(QLog(cfg, x)))
Ratio(cfg, x) == RDiv(RExp(LogTarget(cfg, x)), Envelope(cfg, x))
Keeps(cfg, x, u) == RLt(u, Ratio(cfg, x))
Near(cfg, x, u) == RClose(u, Ratio(cfg, x), "1e-9", "0") /\ ~REq(Ratio(cfg, x), "0")
\* what is kept of the proposals xs with the uniforms us, in drawing order
Kept(cfg, xs, us) == LET idx == SelectSeq([i \in DOMAIN xs |-> i], LAMBDA i : Keeps(cfg, xs[i], us[i]))
                     IN  [i \in DOMAIN idx |-> xs[idx[i]]]
EqualToOne(ws) == (\A i \in DOMAIN ws : RClose(ws[i], ws[1], "1e-12", "0")) /\ RClose(RSum(ws), "1", "1e-9", "0")
=============================================================================
