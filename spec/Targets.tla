------------------------------ MODULE Targets ------------------------------
(* The target densities the drivers sample from, stated once more so that   *)
(* the specification does not take the value of a target from the driver.   *)
(* cfg.tkind, cfg.mid, cfg.half, cfg.shift, cfg.tscale describe the target. *)
EXTENDS Reals, TLC
LOCAL Unit(cfg, x) == LET h == VDiv(VSub(x, cfg.mid), cfg.half)
                      IN  VSub(h, [i \in DOMAIN h |-> cfg.shift])
LOCAL SumSq(u) == RSum(VMul(u, u))
LOCAL Off(u, c) == [i \in DOMAIN u |-> RSub(u[i], c)]
LOCAL Core(cfg, u) ==
  CASE cfg.tkind = "gauss" -> RMul("-2", SumSq(u))
    [] cfg.tkind = "ramp" -> RMul("2", RSum([i \in DOMAIN u |-> RMin(u[i], "3")]))
    [] cfg.tkind = "flat" -> "0"
    [] cfg.tkind = "bimodal" -> RLogSumExp(<<RMul("-6", SumSq(Off(u, "0.5"))), RMul("-6", SumSq(Off(u, "-0.4")))>>)
    [] cfg.tkind = "ripple" -> RAdd(RNeg(SumSq(u)), RMul("0.7", RSum([i \in DOMAIN u |-> RSin(RMul("5", u[i]))])))
    [] cfg.tkind = "peak" -> RLogSumExp(<<RMul("-40", SumSq(Off(u, "0.3"))), "-6">>)
    [] cfg.tkind = "box" -> IF \A i \in DOMAIN u : RLt(RAbs(u[i]), "0.35") THEN "0" ELSE "-inf"
    [] cfg.tkind = "needle" -> RMul("-60", SumSq(u))
    [] cfg.tkind = "hole" -> IF RLt(u[1], "-0.25") THEN "-inf" ELSE RMul("-1", SumSq(u))
\* log of the target density at x
LogTarget(cfg, x) == RAdd(Core(cfg, Unit(cfg, x)), RLn(cfg.tscale))
=============================================================================
