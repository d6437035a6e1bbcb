----------------------------- MODULE TraceTree ------------------------------
(* Conformance of recorded tree pyramids: C08 (samples and weights), C09    *)
(* (partition, caches, lookup, expansion), C10 (refinement rounds).         *)
EXTENDS TreeProps, Replay
VARIABLES k, l, st
\* st.leaves: the leaves last seen; st.rs: has a round with leaf resampling happened
Start == [leaves |-> <<>>, rs |-> FALSE]

Caches(e) ==
       Need("centres-cached", Len(e.centers) = Len(e.nodes) /\ \A i \in DOMAIN e.nodes : VEq(e.centers[i], e.nodes[i].c))
  \cup Need("radii-cached", Len(e.radii) = Len(e.nodes) /\ \A i \in DOMAIN e.nodes : REq(e.radii[i], e.nodes[i].r))
  \cup Need("leaf-flags", Len(e.flags) = Len(e.nodes) /\ \A i \in DOMAIN e.nodes : e.flags[i] = e.nodes[i].leaf)
  \cup Need("node-index", \A i \in DOMAIN e.nodes : e.nodes[i].ni = i - 1)
  \cup Need("leaf-index", \A i \in DOMAIN e.leaves : e.leaves[i].li = i - 1 /\ e.leaves[i].leaf)
  \cup Need("leaf-list", /\ Len(e.leaves) = Cardinality({i \in DOMAIN e.nodes : e.nodes[i].leaf})
                         /\ \A i \in DOMAIN e.leaves : e.leaves[i].ni + 1 \in DOMAIN e.nodes
                                                     /\ SameCell(e.nodes[e.leaves[i].ni + 1], e.leaves[i]))
  \cup Need("children", \A i \in DOMAIN e.nodes : ~e.nodes[i].leaf =>
                           ChildrenOf(e.nodes[i], [j \in DOMAIN e.nodes[i].kids |-> e.nodes[e.nodes[i].kids[j] + 1]]))
Shape(cfg, e) ==
       Need("root", VClose(e.root.c, cfg.rootc, "1e-12", "1e-12") /\ RClose(e.root.r, cfg.rootr, "1e-12", "0"))
  \cup Need("volumes-add-up", VolumesAddUp(e.root, e.leaves))
  \cup Need("disjoint", Disjoint(e.leaves))
  \cup Need("in-root", InRoot(e.root, e.leaves))
SameLeaves(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : \E j \in DOMAIN b : SameCell(a[i], b[j])
C09(cfg, s, e) ==
  CASE e.op = "Tree" -> Shape(cfg, e) \cup Caches(e)
    [] e.op = "Expand" -> Shape(cfg, e) \cup Caches(e) \cup Need("replaces-one-leaf", Expanded(s.leaves, e.leaves, e.which))
    [] e.op = "Refuse" -> Need("inner-expansion-refused", e.refused)
                     \cup Need("refusal-changes-nothing", SameLeaves(s.leaves, e.leaves)) \cup Caches(e)
    [] e.op = "Find" -> Need("finds-a-leaf", e.isleaf /\ \E i \in DOMAIN s.leaves : SameCell(s.leaves[i], e.cell))
                   \cup Need("finds-the-cell", Contains(e.cell, e.x))
    [] OTHER -> {}

-----------------------------------------------------------------------------
RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Cat(Tail(q))
\* the (sample, log weight) pairs a leaf holds with positive weight
Held(cfg, leaf) ==
  LET a == TLCEval([i \in DOMAIN leaf.ws |-> [x |-> leaf.xs[i], w |-> leaf.ws[i],
                                              lw |-> RSub(LogTarget(cfg, leaf.xs[i]), KernelLog(cfg, leaf, i))]])
  IN  SelectSeq(a, LAMBDA p : RLt("0", p.w))
Range(f) == {f[i] : i \in DOMAIN f}
\* the leaf of ls at the same place as f, if any: its index, or 0
At(ls, f) == LET q == {j \in DOMAIN ls : ls[j].r = f.r /\ ls[j].c = f.c} IN IF q = {} THEN 0 ELSE CHOOSE j \in q : TRUE
C08(cfg, s, e) ==
  LET held == TLCEval(Cat([i \in DOMAIN e.leaves |-> Held(cfg, e.leaves[i])]))
      hx == TLCEval({held[j].x : j \in DOMAIN held})
      known == \A i \in DOMAIN e.S : e.S[i] \in hx
      of(i) == IF i \in DOMAIN held /\ held[i].x = e.S[i] THEN i ELSE CHOOSE j \in DOMAIN held : held[j].x = e.S[i]
      top == TLCEval(RMaxSeq([j \in DOMAIN held |-> held[j].lw]))
      keeps(f) == LET i == At(s.leaves, f) IN i # 0 =>
                  LET g == s.leaves[i] IN
                  /\ Len(g.ws) <= Len(f.ws)
                  /\ \A j \in DOMAIN g.ws : g.xs[j] = f.xs[j] /\ g.ws[j] = f.ws[j]
  IN IF Len(e.S) # Len(e.W) THEN {"paired"}
     ELSE Need("returned-is-held", known)
     \cup Need("all-returned-once", Len(e.S) = Len(held) /\ Range(e.S) = hx)
     \cup Need("weight-is-target-over-kernel",
               known => VProp(e.W, VExp([i \in DOMAIN e.S |-> RSub(held[of(i)].lw, top)]), "1e-7"))
     \cup Need("leaf-keeps-samples", ~cfg.leafmode => \A i \in DOMAIN e.leaves : keeps(e.leaves[i]))

-----------------------------------------------------------------------------
C10(cfg, s, e) ==
  IF ~e.single \/ s.leaves = <<>> THEN {} ELSE
  LET B == s.leaves
      now == TLCEval([i \in DOMAIN B |-> At(e.leaves, B[i])])
      split(i) == now[i] = 0
      gain == TLCEval([i \in DOMAIN B |-> IF split(i) THEN 99 ELSE Len(e.leaves[now[i]].ws) - Len(B[i].ws)])
      seen == TLCEval({i \in DOMAIN B : split(i) \/ gain[i] = 1})
      left == TLCEval({i \in DOMAIN B : gain[i] = 0})
      v == TLCEval([i \in DOMAIN B |-> Importance(B[i], cfg.leafmode /\ s.rs)])
      sp == TLCEval([i \in DOMAIN B |-> Splits(cfg, B[i])])
      near == TLCEval({i \in DOMAIN B : EssNear(cfg, B[i])})
      o == VDown(v)
      \* neighbours in the order with equal value and different treatment: either may be visited first
      blurred == \E n \in 1..(Len(o) - 1) : sp[o[n]] # sp[o[n + 1]] /\ RClose(v[o[n]], v[o[n + 1]], "1e-9", "0")
      order == TLCEval([n \in DOMAIN B |-> B[o[n]]])
  IN   Need("one-sample-per-visit", seen \cup left = DOMAIN B)
  \cup Need("children-sampled-once", \A i \in DOMAIN B : split(i) =>
              LET q == {j \in DOMAIN e.leaves : Child(B[i], e.leaves[j])} IN
              Cardinality(q) = Pow2(Dims(B[i])) /\ \A j \in q : Len(e.leaves[j].ws) = 1)
  \cup Need("split-criterion", \A i \in seen : i \in near \/ (split(i) <=> sp[i]))
  \cup Need("most-important-first", left # {} => LET top == RMaxSeq([n \in 1..Len(o) |-> IF o[n] \in left THEN v[o[n]] ELSE "-inf"])
                                                 IN  \A i \in seen : RLe(top, RMul(v[i], "1.000000001")))
  \cup Need("round-stops", near # {} \/ blurred \/ Cardinality(seen) = Visited(cfg, order))

Fails(cfg, s, e) ==
  CASE e.op = "Raised" -> {"no-error"}
    [] e.op \notin {"Reset", "Tree", "Expand", "Refuse", "Find", "Round"} -> {"unknown-event"}
    [] Prop = "C09" -> C09(cfg, s, e)
    [] Prop = "C08" /\ e.op = "Round" -> C08(cfg, s, e)
    [] Prop = "C10" /\ e.op = "Round" -> C10(cfg, s, e)
    [] OTHER -> {}
After(cfg, s, e) ==
  CASE e.op = "Reset" -> Start
    [] e.op = "Round" -> [leaves |-> e.leaves, rs |-> e.rs]
    [] e.op \in {"Tree", "Expand", "Refuse"} -> [s EXCEPT !.leaves = e.leaves]
    [] OTHER -> s
TInit == k \in 1..Len(Traces) /\ l = 1 /\ st = Start
TNext == LET T == Traces[k] IN
         /\ l <= Len(T.ev)
         /\ Report(k, l, T.ev[l].op, Fails(T.cfg, st, T.ev[l]))
         /\ st' = After(T.cfg, st, T.ev[l])
         /\ l' = l + 1 /\ k' = k
         /\ l = Len(T.ev) => Done(k)
TSpec == TInit /\ [][TNext]_<<k, l, st>>
=============================================================================
