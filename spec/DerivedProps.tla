---------------------------- MODULE DerivedProps ----------------------------
(* D05: posteriors built from a generator, and noisy-function generators.   *)
(* cfg.fa, fw, fb   the generative function  f(x, z) = fa sin(fw x) + fb x + z per coordinate *)
EXTENDS Reals, Sequences, Naturals, FiniteSets, TLC
F(cfg, x, z) == [d \in DOMAIN x |-> RAdd(RAdd(RMul(cfg.fa, RSin(RMul(cfg.fw, x[d]))), RMul(cfg.fb, x[d])), z)]
\* one output per input row, with that row's noise
Generated(cfg, X, z, noise) == [i \in DOMAIN X |-> VAdd(F(cfg, X[i], z), noise[i])]
\* the surrogate likelihood handed to the posterior: squared distance of the observation to the first coordinates
LogLik(cfg, o, y) == RNeg(RDiv(RSum([d \in DOMAIN o |-> LET q == RSub(o[d], y[d]) IN RMul(q, q)]), RMul("2", cfg.slack)))
LogPrior(cfg, x) == RNormLog(x, cfg.ploc, cfg.pcov)
Posterior(cfg, o, X, Y) == [i \in DOMAIN X |-> RAdd(LogLik(cfg, o, Y[i]), LogPrior(cfg, X[i]))]
\* noise density of the deviation from the conditioned value (one row stands for all)
Score(cfg, C, Y) == [i \in DOMAIN Y |-> RNormLog(VSub(Y[i], IF Len(C) = 1 THEN C[1] ELSE C[i]), cfg.nloc, cfg.ncov)]
=============================================================================
