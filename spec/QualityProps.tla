---------------------------- MODULE QualityProps ----------------------------
(* C15: quality figures of an accumulated set of samples and weights.       *)
EXTENDS Reals, Sequences, Naturals, TLC
\* (sum w)^2 / (N sum w^2)
WeightNESS(ws) == RDiv(RMul(RSum(ws), RSum(ws)), RMul(Len(ws), RDot(ws, ws)))
\* exp(entropy) / N of normalised weights
EntropyNESS(ws) == RDiv(RExp(RNeg(RDot(ws, VLn(ws)))), Len(ws))
RECURSIVE Flat(_)
Flat(S) == IF S = <<>> THEN <<>> ELSE IF Len(S) = 1 THEN S[1] ELSE LET h == Len(S) \div 2 IN Flat(SubSeq(S, 1, h)) \o Flat(SubSeq(S, h + 1, Len(S)))
\* single chain autocorrelation estimate through the variogram; lags are added until two consecutive
\* autocorrelations (an odd and the following even lag) are negative in sum
Spread(f, n) == LET m == RDiv(RSum(f), Len(f))
                    d == TLCEval([i \in DOMAIN f |-> RSub(f[i], m)])
                IN  RDiv(RDot(d, d), n - 1)
Rho(f, n, dims, t, w) == LET d == VSub(SubSeq(f, t * dims + 1, Len(f)), SubSeq(f, 1, Len(f) - t * dims))
                         IN  RSub("1", RDiv(RDiv(RDot(d, d), n - t), RMul("2", w)))
RECURSIVE Lags(_, _, _, _, _, _, _)
Lags(f, n, dims, t, w, prev, sum) ==
  IF t >= n THEN sum
  ELSE LET r == Rho(f, n, dims, t, w) s == RAdd(sum, r) IN
       IF t % 2 = 0 /\ RLt(RAdd(prev, r), "0") THEN s ELSE Lags(f, n, dims, t + 1, w, r, s)
ChainNESS(S) == LET n == Len(S) f == TLCEval(Flat(S)) IN
                IF n = 1 THEN "1.0"
                ELSE RDiv(RDiv(n, RAdd("1", RMul("2", Lags(f, n, Len(S[1]), 1, Spread(f, n), "0", "0")))), n)
Degenerate(S) == Len(S) > 1 /\ REq(Spread(Flat(S), Len(S)), "0")
Figure(kind, S, W) == CASE kind = "weights" -> WeightNESS(W) [] kind = "entropy" -> EntropyNESS(W) [] kind = "chain" -> ChainNESS(S)
=============================================================================
