---------------------------- MODULE TreePyramid -----------------------------
(* Tree pyramid importance sampling, per-cell ("simple") mode: leaves are   *)
(* visited in decreasing importance volume, split or sampled once more.     *)
EXTENDS TreeProps
CONSTANTS D, WeightSet, Ess0, NMin, Par, MaxRounds, MaxLeaves
VARIABLES leaves, rounds, hist
vars == <<leaves, rounds, hist>>
Cfg == [ess |-> Ess0, nmin |-> NMin, par |-> Par]
Root == [c |-> [i \in 1..D |-> "0.0"], r |-> "8.0", level |-> 0]
Sign(n, i) == IF ((n - 1) \div Pow2(i - 1)) % 2 = 0 THEN "-1" ELSE "1"
Kid(p, n) == [c |-> [i \in 1..D |-> RAdd(p.c[i], RMul(Sign(n, i), RDiv(p.r, 2)))], r |-> RDiv(p.r, 2), level |-> p.level + 1]
Kids(p) == [n \in 1..Pow2(D) |-> Kid(p, n)]
Init == /\ \E w \in WeightSet : leaves = <<[c |-> Root.c, r |-> Root.r, level |-> 0, ws |-> <<w>>]>>
        /\ rounds = 0 /\ hist = <<>>
Grow(f, w) == IF Splits(Cfg, f)
              THEN [i \in 1..Pow2(D) |-> LET q == Kids(f)[i] IN [c |-> q.c, r |-> q.r, level |-> q.level, ws |-> <<w[i]>>]]
              ELSE <<[f EXCEPT !.ws = Append(f.ws, w[1])]>>
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Cat(Tail(s))
Round ==
  /\ rounds < MaxRounds /\ Len(leaves) <= MaxLeaves
  /\ LET order == SortedDown(leaves, FALSE)
         n == Visited(Cfg, order) IN
     \E w \in [1..n -> [1..Pow2(D) -> WeightSet]] :
       /\ leaves' = Cat([i \in 1..n |-> Grow(order[i], w[i])]) \o SubSeq(order, n + 1, Len(order))
       /\ hist' = [i \in 1..n |-> [leaf |-> order[i], split |-> Splits(Cfg, order[i])]]
  /\ rounds' = rounds + 1
Spec == Init /\ [][Round]_vars
Tiling == Tiles(Root, leaves)
Found == \A a \in {"-7", "-3", "0", "5"} : LET x == [i \in 1..D |-> a] IN
         /\ \E i \in DOMAIN leaves : Contains(leaves[i], x)
RoundOk == [][
  LET v == hist'
      seen == {v[i].leaf : i \in DOMAIN v}
      left == {i \in DOMAIN leaves : leaves[i] \notin seen} IN
  /\ \A i \in left, x \in seen : RLe(Importance(leaves[i], FALSE), Importance(x, FALSE))
  /\ left # {} => v[Len(v)].split /\ Collected(Cfg, [i \in DOMAIN v |-> v[i].leaf]) > Par
  /\ \A x \in seen : Splits(Cfg, x) <=> ~\E j \in DOMAIN leaves' : SameCell(leaves'[j], x)]_vars
=============================================================================
