----------------------------- MODULE TreeProps ------------------------------
(* C08, C09, C10: the tree pyramid.  A cell is [c, r, level]: an axis       *)
(* parallel cube of half width r around c; a leaf additionally has its own  *)
(* samples xs with weights ws, oldest first.                                *)
EXTENDS Targets, Sequences, Naturals, FiniteSets
Dims(cell) == Len(cell.c)
SameCell(a, b) == VEq(a.c, b.c) /\ REq(a.r, b.r)
Volume(cell) == RPow(RMul("2", cell.r), Dims(cell))
Lower(cell) == [i \in DOMAIN cell.c |-> RSub(cell.c[i], cell.r)]
Upper(cell) == [i \in DOMAIN cell.c |-> RAdd(cell.c[i], cell.r)]
Contains(cell, x) == VLe(Lower(cell), x) /\ VLe(x, Upper(cell))
ContainsTol(cell, x) == \A i \in DOMAIN x : RLe(RAbs(RSub(x[i], cell.c[i])), RMul(cell.r, "1.000000001"))
Apart(a, b) == \E i \in DOMAIN a.c : RLe(RAdd(a.r, b.r), RMul(RAbs(RSub(a.c[i], b.c[i])), "1.000000001"))
Within(a, b) == \A i \in DOMAIN a.c : RLe(RAdd(RAbs(RSub(a.c[i], b.c[i])), a.r), RMul(b.r, "1.000000001"))
\* the leaves tile the root
VolumesAddUp(root, leaves) == RClose(RSum([i \in DOMAIN leaves |-> Volume(leaves[i])]), Volume(root), "1e-9", "0")
Disjoint(leaves) == \A i, j \in DOMAIN leaves : i < j => Apart(leaves[i], leaves[j])
InRoot(root, leaves) == \A i \in DOMAIN leaves : Within(leaves[i], root)
Tiles(root, leaves) == VolumesAddUp(root, leaves) /\ Disjoint(leaves) /\ InRoot(root, leaves)
\* a child: half the radius, one level down, offset by half the parent's radius in every dimension
Child(p, q) == /\ RClose(q.r, RDiv(p.r, "2"), "1e-12", "0") /\ q.level = p.level + 1
               /\ \A i \in DOMAIN p.c : RClose(RAbs(RSub(q.c[i], p.c[i])), RDiv(p.r, "2"), "1e-9", "1e-12")
Pow2(n) == IF n = 0 THEN 1 ELSE IF n = 1 THEN 2 ELSE IF n = 2 THEN 4 ELSE IF n = 3 THEN 8 ELSE 16
ChildrenOf(p, qs) == /\ Len(qs) = Pow2(Dims(p)) /\ \A i \in DOMAIN qs : Child(p, qs[i])
                     /\ \A i, j \in DOMAIN qs : i # j => ~VEq(qs[i].c, qs[j].c)
Without(seq, i) == SubSeq(seq, 1, i - 1) \o SubSeq(seq, i + 1, Len(seq))
\* expanding cell p of the leaves old gives new: p replaced by its children, every other leaf as it was
Expanded(old, new, p) ==
  /\ Len(new) = Len(old) + Pow2(Dims(p)) - 1
  /\ \A i \in DOMAIN old : SameCell(old[i], p) \/ \E j \in DOMAIN new : SameCell(old[i], new[j])
  /\ ~\E j \in DOMAIN new : SameCell(new[j], p)
  /\ Cardinality({j \in DOMAIN new : Child(p, new[j])}) = Pow2(Dims(p))

-----------------------------------------------------------------------------
(* One refinement round (C10) of the per-cell mode *)
Ess(ws) == RDiv(RMul(RSum(ws), RSum(ws)), RDot(ws, ws))
Mean(ws) == RDiv(RSum(ws), Len(ws))
\* importance volume of a leaf: mean (without resampling) or latest (with) weight times the cell's size
Importance(leaf, resampled) == RMul(IF resampled THEN leaf.ws[Len(leaf.ws)] ELSE Mean(leaf.ws), Volume(leaf))
\* cfg.ess = "none" or a real; cfg.nmin; cfg.par
EssNear(cfg, leaf) == cfg.ess # "none" /\ RClose(Ess(leaf.ws), RMul(cfg.ess, Len(leaf.ws)), "1e-9", "0")
Splits(cfg, leaf) == \/ cfg.ess = "none"
                     \/ /\ Len(leaf.ws) >= cfg.nmin
                        /\ RLe(Ess(leaf.ws), RMul(cfg.ess, Len(leaf.ws)))
Gain(cfg, leaf) == IF Splits(cfg, leaf) THEN Pow2(Dims(leaf)) ELSE 1
RECURSIVE Collected(_, _)
Collected(cfg, leaves) == IF leaves = <<>> THEN 0 ELSE Gain(cfg, Head(leaves)) + Collected(cfg, Tail(leaves))
\* the visited leaves, when order lists the leaves in decreasing importance volume
RECURSIVE VisitRec(_, _, _, _)
VisitRec(cfg, order, i, n) ==
  IF i > Len(order) THEN Len(order)
  ELSE LET m == n + Gain(cfg, order[i]) IN
       IF Splits(cfg, order[i]) /\ m > cfg.par THEN i ELSE VisitRec(cfg, order, i + 1, m)
Visited(cfg, order) == VisitRec(cfg, order, 1, 0)
SortedDown(leaves, resampled) ==
  LET o == VDown([i \in DOMAIN leaves |-> Importance(leaves[i], resampled)])
  IN  TLCEval([n \in DOMAIN leaves |-> leaves[o[n]]])

-----------------------------------------------------------------------------
(* Weights (C08) *)
LOCAL Iso(n, v) == [a \in 1..n |-> [b \in 1..n |-> IF a = b THEN v ELSE "0"]]
\* log density of the kernel sample number i of a leaf was drawn from; with leaf resampling every sample but
\* the very first one of the root was redrawn from the resampling kernel at the end of the round that made it
Redrawn(cfg, leaf, i) == cfg.leafmode /\ ~(leaf.level = 0 /\ i = 1)
KernelLog(cfg, leaf, i) ==
  IF cfg.kernel = "haar" THEN RNeg(RMul(Dims(leaf), RLn(RMul("2", leaf.r))))
  ELSE RNormLog(leaf.xs[i], leaf.c, Iso(Dims(leaf), IF Redrawn(cfg, leaf, i) THEN RMul("2", RMul(leaf.r, leaf.r))
                                                    ELSE RDiv(leaf.r, "4")))
=============================================================================
