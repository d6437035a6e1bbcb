------------------------------ MODULE HiDaisee ------------------------------
(* HiDaisee: a sample is drawn uniformly in a leaf chosen by descending the *)
(* tree in proportion to the proposal masses; the leaf is halved when it has*)
(* enough samples of too low an effective sample size.  Nodes are a sequence*)
(* node = [c, r, q, xs, ws, l, r2, up] with l = 0 for leaves.                *)
EXTENDS HidProps, SequencesExt, TLC
CONSTANTS D, Steps, NMin, Ess0, Places, Kind, Tau
VARIABLES nodes, drawn
vars == <<nodes, drawn>>
Cfg == [tkind |-> Kind, mid |-> [i \in 1..D |-> "0.0"], half |-> [i \in 1..D |-> "1.0"], shift |-> "0.0", tscale |-> "1.0",
        ess |-> Ess0, nmin |-> NMin, tau |-> Tau]
Root == [c |-> [i \in 1..D |-> "0.0"], r |-> [i \in 1..D |-> "1.0"]]
Node(c, r, q, xs, ws, up) == [c |-> c, r |-> r, q |-> q, xs |-> xs, ws |-> ws, l |-> 0, m |-> 0, up |-> up]
Init == nodes = <<Node(Root.c, Root.r, "1.0", <<>>, <<>>, 0)>> /\ drawn = <<>>
Leaves == {i \in DOMAIN nodes : nodes[i].l = 0}
\* all children masses positive: every leaf can be reached; the point is at a relative place in the leaf
Point(n, p) == [i \in 1..D |-> RAdd(n.c[i], RMul(n.r[i], p[i]))]
\* masses from the new mass q of node i upwards
RECURSIVE Up(_, _)
Up(ns, i) == IF i = 0 THEN ns
             ELSE Up([ns EXCEPT ![i].q = RAdd(ns[ns[i].l].q, ns[ns[i].m].q)], ns[i].up)
Shift(c, r, d, s) == [i \in 1..D |-> IF i = d THEN RAdd(c[i], RMul(s, RDiv(r[i], 2))) ELSE c[i]]
HalfR(r, d) == [i \in 1..D |-> IF i = d THEN RDiv(r[i], 2) ELSE r[i]]
Push(b, xs, d, mid, low) == SelectSeq(xs, LAMBDA x : IF low THEN RLt(x[d], mid) ELSE ~RLt(x[d], mid))
Draw(i, p, d) ==
  LET n == nodes[i]
      x == Point(n, p)
      xs == Append(n.xs, x)
      ws == Append(n.ws, WeightIn(Cfg, n, x))
      \* the first sample fills the root, which has no rival yet
      ls == TLCEval(SetToSeq(Leaves))
      q == IF drawn = <<>> THEN "1.0"
           ELSE LeafShare(Cfg, Len(drawn), [j \in DOMAIN ls |-> IF ls[j] = i THEN ws ELSE nodes[ls[j]].ws], CHOOSE j \in DOMAIN ls : ls[j] = i)
      ns == Up([nodes EXCEPT ![i].xs = xs, ![i].ws = ws, ![i].q = q], n.up)
      a == [c |-> Shift(n.c, n.r, d, "-1"), r |-> HalfR(n.r, d)]
      b == [c |-> Shift(n.c, n.r, d, "1"), r |-> HalfR(n.r, d)]
      ax == Push(n, xs, d, n.c[d], TRUE)
      bx == Push(n, xs, d, n.c[d], FALSE)
      k == Len(nodes)
  IN  /\ drawn' = Append(drawn, x)
      /\ nodes' = IF ~Splits(Cfg, ws) THEN ns
               ELSE [ns EXCEPT ![i].l = k + 1, ![i].m = k + 2, ![i].xs = <<>>, ![i].ws = <<>>]
                    \o <<Node(a.c, a.r, RDiv(q, 2), ax, [j \in DOMAIN ax |-> WeightIn(Cfg, a, ax[j])], i),
                         Node(b.c, b.r, RDiv(q, 2), bx, [j \in DOMAIN bx |-> WeightIn(Cfg, b, bx[j])], i)>>
Next == Len(drawn) < Steps /\ \E i \in Leaves, p \in [1..D -> Places], d \in 1..D : RLt("0", nodes[i].q) /\ Draw(i, p, d)
Spec == Init /\ [][Next]_vars
LeafSeq == SelectSeq(nodes, LAMBDA n : n.l = 0)
Tiling == VolumesAddUp(Root, LeafSeq) /\ Disjoint(LeafSeq) /\ InRoot(Root, LeafSeq)
EachOnce == \A i \in DOMAIN drawn :
  Cardinality({<<a, b>> \in {<<a, b>> \in (DOMAIN LeafSeq) \X (DOMAIN drawn) : b \in DOMAIN LeafSeq[a].xs} : LeafSeq[a].xs[b] = drawn[i]})
   = Cardinality({j \in DOMAIN drawn : drawn[j] = drawn[i]})
Homes == \A a \in DOMAIN LeafSeq : \A b \in DOMAIN LeafSeq[a].xs :
            In(LeafSeq[a], LeafSeq[a].xs[b]) /\ RClose(LeafSeq[a].ws[b], WeightIn(Cfg, LeafSeq[a], LeafSeq[a].xs[b]), "1e-12", "0")
\* a share is positive and never more than everything; without rivals it is everything
Shares == \A i \in Leaves : RLt("0", nodes[i].q) /\ RLe(nodes[i].q, "1.000000001") /\ (Cardinality(Leaves) = 1 => RClose(nodes[i].q, "1", "1e-12", "0"))
Mass == \A i \in DOMAIN nodes : nodes[i].l # 0 =>
            MassAdds([q |-> nodes[i].q, ql |-> nodes[nodes[i].l].q, qr |-> nodes[nodes[i].m].q])
=============================================================================
