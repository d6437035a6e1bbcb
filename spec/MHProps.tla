------------------------------- MODULE MHProps ------------------------------
(* C12: the moves of a Metropolis-Hastings chain.                           *)
EXTENDS Targets, Sequences, Naturals, FiniteSets
Clip(cfg, x) == VMin(VMax(x, cfg.lo), cfg.hi)
LogQ(cfg, d) == RNormLog(d, cfg.pmean, cfg.pcov)
\* log acceptance ratio of moving from x to y, with the correction for an asymmetric proposal
Alpha(cfg, x, y) == RAdd(RSub(LogTarget(cfg, y), LogTarget(cfg, x)), RSub(LogQ(cfg, VSub(x, y)), LogQ(cfg, VSub(y, x))))
Proposed(cfg, x, d) == Clip(cfg, VAdd(x, d))
Accepts(cfg, x, y, u) == RLt(RLn(u), Alpha(cfg, x, y))
Near(cfg, x, y, u) == RClose(RLn(u), Alpha(cfg, x, y), "1e-9", "1e-9")
\* accepted states, in order, when the chain at x is offered the draws ds with the uniforms us
RECURSIVE WalkRec(_, _, _, _, _, _)
WalkRec(cfg, x, ds, us, i, acc) ==
  IF i > Len(ds) THEN acc
  ELSE LET y == TLCEval(Proposed(cfg, x, ds[i])) IN
       IF Accepts(cfg, x, y, us[i]) THEN WalkRec(cfg, y, ds, us, i + 1, Append(acc, y))
       ELSE WalkRec(cfg, x, ds, us, i + 1, acc)
Walk(cfg, x, ds, us) == WalkRec(cfg, x, ds, us, 1, <<>>)
\* is any decision of the walk too close to call
RECURSIVE TightRec(_, _, _, _, _)
TightRec(cfg, x, ds, us, i) ==
  IF i > Len(ds) THEN FALSE
  ELSE LET y == TLCEval(Proposed(cfg, x, ds[i])) IN
       \/ Near(cfg, x, y, us[i])
       \/ TightRec(cfg, IF Accepts(cfg, x, y, us[i]) THEN y ELSE x, ds, us, i + 1)
Tight(cfg, x, ds, us) == TightRec(cfg, x, ds, us, 1)
\* the samples among the accepted states acc, burn of which are burn-in, one every steps moves
Picked(acc, burn, steps) == [i \in 1..((Len(acc) - burn) \div steps) |-> acc[burn + i * steps]]
Equal(ws) == \A i \in DOMAIN ws : RClose(ws[i], ws[1], "1e-12", "0")
=============================================================================
