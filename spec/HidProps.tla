------------------------------ MODULE HidProps ------------------------------
(* C11: HiDaisee's binary tree.  A leaf is [c, r, xs, ws]: a box with centre*)
(* c and half widths r, and the samples it holds with their weights.  An    *)
(* inner node is [q, ql, qr]: its proposal mass and those of its children.  *)
EXTENDS Targets, Sequences, Naturals, FiniteSets
Vol(b) == RProd([i \in DOMAIN b.r |-> RMul("2", b.r[i])])
In(b, x) == \A i \in DOMAIN x : RLe(RAbs(RSub(x[i], b.c[i])), RMul(b.r[i], "1.000000001"))
ApartIn(a, b, i) == RLe(RAdd(a.r[i], b.r[i]), RMul(RAbs(RSub(a.c[i], b.c[i])), "1.000000001"))
Apart(a, b) == \E i \in DOMAIN a.c : ApartIn(a, b, i)
Inside(a, b) == \A i \in DOMAIN a.c : RLe(RAdd(RAbs(RSub(a.c[i], b.c[i])), a.r[i]), RMul(b.r[i], "1.000000001"))
VolumesAddUp(root, leaves) == RClose(RSum([i \in DOMAIN leaves |-> Vol(leaves[i])]), Vol(root), "1e-9", "0")
Disjoint(leaves) == \A i, j \in DOMAIN leaves : i < j => Apart(leaves[i], leaves[j])
InRoot(root, leaves) == \A i \in DOMAIN leaves : Inside(leaves[i], root)
SameBox(a, b) == a.c = b.c /\ a.r = b.r
\* a and b are the two halves of p along one dimension
Halves(p, a, b) ==
  \E i \in DOMAIN p.c :
    /\ RClose(a.r[i], RDiv(p.r[i], 2), "1e-12", "0") /\ RClose(b.r[i], RDiv(p.r[i], 2), "1e-12", "0")
    /\ RClose(RAbs(RSub(a.c[i], b.c[i])), p.r[i], "1e-9", "0") /\ RClose(RAdd(a.c[i], b.c[i]), RMul(2, p.c[i]), "1e-9", "1e-9")
    /\ \A j \in DOMAIN p.c : j # i => /\ RClose(a.c[j], p.c[j], "1e-12", "1e-12") /\ RClose(b.c[j], p.c[j], "1e-12", "1e-12")
                                      /\ RClose(a.r[j], p.r[j], "1e-12", "0") /\ RClose(b.r[j], p.r[j], "1e-12", "0")
Ess(ws) == RDiv(RMul(RSum(ws), RSum(ws)), RDot(ws, ws))
Splits(cfg, ws) == Len(ws) >= cfg.nmin /\ RLt(Ess(ws), RMul(cfg.ess, Len(ws)))
SplitNear(cfg, ws) == Len(ws) >= cfg.nmin /\ RClose(Ess(ws), RMul(cfg.ess, Len(ws)), "1e-9", "0")
\* weight of a sample in a leaf: target over the leaf's uniform density
WeightIn(cfg, leaf, x) == RMul(RExp(LogTarget(cfg, x)), Vol(leaf))
\* optimistic evidence of a leaf with weights ws after t earlier samples: their mean plus a bonus for few samples
Sigma(cfg) == RMul(cfg.tau, RSqrt(RMul("4.14", RAdd("1", RDiv("1", RLn("2"))))))
Optimistic(cfg, t, ws) == RAdd(RDiv(RSum(ws), Len(ws)), RMul(Sigma(cfg), RSqrt(RDiv(RLn(t), Len(ws)))))
\* the share a sampled leaf gets: W is the sequence of the weights held by each leaf, i the one just sampled
LeafShare(cfg, t, W, i) ==
  RDiv(Optimistic(cfg, t, W[i]), RSum([j \in DOMAIN W |-> IF W[j] = <<>> THEN "0" ELSE Optimistic(cfg, t, W[j])]))
\* one descent took the children q[1] over their siblings q[2]: log odds of the same under a fair coin, and under swapped shares
LogFair(path) == RSum([i \in DOMAIN path |-> RLn(RDiv(RAdd(path[i][1], path[i][2]), RMul("2", path[i][1])))])
LogSwap(path) == RSum([i \in DOMAIN path |-> RLn(RDiv(path[i][2], path[i][1]))])
MassAdds(n) == RClose(n.q, RAdd(n.ql, n.qr), "1e-9", "0")
=============================================================================
