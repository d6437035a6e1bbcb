------------------------------ MODULE TraceHid ------------------------------
(* Conformance of recorded HiDaisee trees (C11).                            *)
EXTENDS HidProps, Replay
VARIABLES k, l, st
\* fair, swap: log likelihood, against the recorded shares, of a descent by fair coins and one by swapped shares
Start == [leaves |-> <<>>, fair |-> "0", swap |-> "0"]
Range(f) == {f[i] : i \in DOMAIN f}
At(ls, f) == LET q == {j \in DOMAIN ls : SameBox(ls[j], f)} IN IF q = {} THEN 0 ELSE CHOOSE j \in q : TRUE
RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Cat(Tail(q))
\* e.single: exactly one sample was requested; the leaf it went to is the one that changed
Single(cfg, s, e) ==
  LET B == s.leaves
      now == TLCEval([i \in DOMAIN B |-> At(e.leaves, B[i])])
      gone == {i \in DOMAIN B : now[i] = 0}
      grown == {i \in DOMAIN B : now[i] # 0 /\ Len(e.leaves[now[i]].xs) # Len(B[i].xs)}
      same == {i \in DOMAIN B : now[i] # 0 /\ B[i].xs = e.leaves[now[i]].xs /\ B[i].ws = e.leaves[now[i]].ws}
      born == {j \in DOMAIN e.leaves : \A i \in DOMAIN B : now[i] # j}
  IN Need("one-leaf-visited", Cardinality(gone \cup grown) = 1 /\ Cardinality(same) = Len(B) - 1)
  \cup (IF Cardinality(gone \cup grown) # 1 \/ Len(e.new) # 1 THEN {}
        ELSE LET i == CHOOSE i \in gone \cup grown : TRUE
                 ws == Append(B[i].ws, WeightIn(cfg, B[i], e.new[1]))
                 xs == Append(B[i].xs, e.new[1])
             IN Need("sampled-in-its-leaf", In(B[i], e.new[1]))
           \cup LET t == Len(e.drawn) - 1
                    W == [j \in DOMAIN B |-> IF j = i THEN ws ELSE B[j].ws]
                    q == IF t = 0 THEN "0" ELSE TLCEval(LeafShare(cfg, t, W, i))
                    near(a, b) == RClose(a, b, "1e-8", "0")
                IN Need("share-of-the-sampled-leaf", t = 0 \/ IF i \in grown THEN near(e.leaves[now[i]].q, q)
                                                              ELSE \A j \in born : near(e.leaves[j].q, RDiv(q, 2)))
              \cup Need("other-shares-stay", \A j \in same : e.leaves[now[j]].q = B[j].q)
           \cup Need("split-criterion", SplitNear(cfg, ws) \/ (Splits(cfg, ws) <=> i \in gone))
           \cup (IF i \in grown THEN Need("leaf-keeps-samples", Range(e.leaves[now[i]].xs) = Range(xs) /\ Len(e.leaves[now[i]].xs) = Len(xs))
                 ELSE Need("halves", Cardinality(born) = 2 /\ \E a, b \in born : a # b /\ Halves(B[i], e.leaves[a], e.leaves[b]))
                 \cup Need("samples-pushed-down", Range(Cat([n \in DOMAIN e.leaves |-> IF n \in born THEN e.leaves[n].xs ELSE <<>>])) = Range(xs))))
Tree(cfg, s, e) ==
  LET held == TLCEval(Cat([i \in DOMAIN e.leaves |-> [j \in DOMAIN e.leaves[i].xs |-> [x |-> e.leaves[i].xs[j], at |-> i]]]))
      hx == {held[i].x : i \in DOMAIN held}
      home(x, i) == IF i \in DOMAIN held /\ held[i].x = x THEN held[i].at ELSE (CHOOSE h \in Range(held) : h.x = x).at
  IN   Need("volumes-add-up", VolumesAddUp([c |-> cfg.rootc, r |-> cfg.rootr], e.leaves))
  \cup Need("disjoint", Disjoint(e.leaves))
  \cup Need("in-root", InRoot([c |-> cfg.rootc, r |-> cfg.rootr], e.leaves))
  \cup Need("mass-adds", \A i \in DOMAIN e.inner : MassAdds(e.inner[i]))
  \cup Need("in-their-leaf", \A i \in DOMAIN e.leaves : \A j \in DOMAIN e.leaves[i].xs : In(e.leaves[i], e.leaves[i].xs[j]))
  \cup Need("leaf-counts", \A i \in DOMAIN e.leaves : e.leaves[i].n = Len(e.leaves[i].xs) /\ Len(e.leaves[i].ws) = e.leaves[i].n)
  \cup Need("every-draw-held-once", Len(held) = Len(e.drawn) /\ hx = Range(e.drawn))
  \cup (IF Len(e.S) # Len(e.W) THEN {"paired"} ELSE
       Need("all-returned-once", Len(e.S) = Len(e.drawn) /\ Range(e.S) = Range(e.drawn))
  \cup Need("weight-of-its-leaf", \A i \in DOMAIN e.S : e.S[i] \in hx =>
                 RClose(e.W[i], WeightIn(cfg, e.leaves[home(e.S[i], i)], e.S[i]), "1e-8", "1e-300")))
  \cup (IF e.single /\ s.leaves # <<>> THEN Single(cfg, s, e) ELSE {})
Went(s, e) ==
  LET B == s.leaves
      g == {i \in DOMAIN B : LET j == At(e.leaves, B[i]) IN j = 0 \/ (j # 0 /\ Len(e.leaves[IF j = 0 THEN 1 ELSE j].xs) # Len(B[i].xs))}
  IN  IF Cardinality(g) = 1 THEN B[CHOOSE i \in g : TRUE].path ELSE <<>>
\* evidence against a descent in proportion to the masses, as a bet which is fair if it is one
Bet(f, w) == RSub(RLogSumExp(<<f, w>>), RLn("2"))
Step(s, e) == IF ~e.single \/ s.leaves = <<>> THEN [leaves |-> e.leaves, fair |-> s.fair, swap |-> s.swap]
              ELSE LET p == TLCEval(Went(s, e))
                   IN [leaves |-> e.leaves, fair |-> TLCEval(RAdd(s.fair, LogFair(p))), swap |-> TLCEval(RAdd(s.swap, LogSwap(p)))]
Fails(cfg, s, e) ==
  CASE e.op = "Raised" -> {"no-error"}
    [] e.op \notin {"Reset", "Tree"} -> {"unknown-event"}
    [] e.op = "Tree" -> Tree(cfg, s, e) \cup LET n == TLCEval(Step(s, e)) IN Need("descends-in-proportion", RLt(Bet(n.fair, n.swap), "20"))
    [] OTHER -> {}
After(cfg, s, e) == CASE e.op = "Reset" -> Start [] e.op = "Tree" -> Step(s, e) [] OTHER -> s
TInit == k \in 1..Len(Traces) /\ l = 1 /\ st = Start
TNext == LET T == Traces[k] IN
         /\ l <= Len(T.ev)
         /\ Report(k, l, T.ev[l].op, Fails(T.cfg, st, T.ev[l]))
         /\ st' = After(T.cfg, st, T.ev[l])
         /\ l' = l + 1 /\ k' = k
         /\ l = Len(T.ev) => Done(k)
TSpec == TInit /\ [][TNext]_<<k, l, st>>
=============================================================================
