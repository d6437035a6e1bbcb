----------------------------- MODULE Partition ------------------------------
(* C09 alone: every order in which leaves can be expanded, whatever made    *)
(* the choice.  Each complete order is replayed into the real tree.         *)
EXTENDS TreeProps, Json
CONSTANTS D, MaxExpansions
VARIABLES leaves, nodes, steps
vars == <<leaves, nodes, steps>>
Root == [c |-> [i \in 1..D |-> "0.0"], r |-> "8.0", level |-> 0]
Sign(n, i) == IF ((n - 1) \div Pow2(i - 1)) % 2 = 0 THEN "-1" ELSE "1"
Kid(p, n) == [c |-> [i \in 1..D |-> RAdd(p.c[i], RMul(Sign(n, i), RDiv(p.r, 2)))], r |-> RDiv(p.r, 2), level |-> p.level + 1]
Kids(p) == [n \in 1..Pow2(D) |-> Kid(p, n)]
Init == leaves = <<Root>> /\ nodes = {Root} /\ steps = <<>>
Expand(i) == /\ Len(steps) < MaxExpansions
             /\ leaves' = Without(leaves, i) \o Kids(leaves[i])
             /\ nodes' = nodes \union {Kids(leaves[i])[j] : j \in 1..Pow2(D)}
             /\ steps' = Append(steps, [c |-> leaves[i].c, r |-> leaves[i].r])
Next == \E i \in DOMAIN leaves : Expand(i)
Spec == Init /\ [][Next]_vars
Tiling == Tiles(Root, leaves)
NodeCount == Cardinality(nodes) = 1 + Pow2(D) * Len(steps)
Step == [][\E i \in DOMAIN leaves : Expanded(leaves, leaves', leaves[i]) /\ ChildrenOf(leaves[i], Kids(leaves[i]))]_vars
Emit == Len(steps) = MaxExpansions => Say(<<"BEH", ToJson([d |-> D, steps |-> steps])>>)
=============================================================================
