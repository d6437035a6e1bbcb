---------------------------- MODULE TraceHelpers ----------------------------
(* Conformance of recorded helper results (U02); every event stands alone.  *)
EXTENDS HelperProps, Replay
VARIABLES k, l
D(e) == Len(e.lo)
NearC(a, b, e, d) == RClose(a, b, "1e-12", RMul("1e-12", RMax(RAbs(e.lo[d]), RAbs(e.hi[d]))))
Grid(e) ==
  LET ns == e.shape
      side(d) == RSub(e.hi[d], e.lo[d])
      want == TLCEval([d \in 1..D(e) |-> [i \in 1..ns[d] |-> Coord(e.lo[d], e.hi[d], ns[d], i)]])
      \* the combination a row stands for (0 where it is none of the coordinates)
      cell(row) == [d \in 1..D(e) |-> LET s == {i \in 1..ns[d] : NearC(row[d], want[d][i], e, d)} IN IF s = {} THEN 0 ELSE CHOOSE i \in s : TRUE]
      cells == TLCEval([r \in DOMAIN e.rows |-> cell(e.rows[r])])
      sized == Len(ns) = D(e) /\ \A d \in 1..D(e) : ns[d] \in Fits(side(d), e.res[d])
  IN  Need("as-many-as-fit", sized)
 \cup (IF ~sized THEN {} ELSE
       Need("coordinates-reported", Len(e.dims) = D(e) /\ \A d \in 1..D(e) : Len(e.dims[d]) = ns[d] /\ \A i \in 1..ns[d] : NearC(e.dims[d][i], want[d][i], e, d))
  \cup Need("every-combination-once", Len(e.rows) = Prod(ns) /\ {cells[r] : r \in DOMAIN cells} = Tuples(ns))
  \cup Need("rows-follow-the-shape", D(e) > 2 \/ cells = [r \in DOMAIN cells |-> Digits(r - 1, ns)])
  \cup Need("values-of-their-rows", e.vals = e.want))
InBox(x, lo, hi) == VLe(lo, x) /\ VLe(x, hi)
Widen(v, by) == VScale(by, v)
Near(a, b, slack) == RLe(RAbs(RSub(a, b)), slack)
Mixture(e) ==
  LET ok == Len(e.means) = e.n /\ Len(e.sig) = e.n /\ Len(e.w) = e.n
      mix == [fam |-> "mix", comps |-> [i \in 1..e.n |-> [fam |-> "normal", loc |-> e.means[i], cov |-> [a \in DOMAIN e.sig[i] |-> [b \in DOMAIN e.sig[i] |-> IF a = b THEN e.sig[i][a] ELSE "0"]]]], w |-> e.w]
      slack == [d \in DOMAIN e.lo |-> RMul("1e-9", RMax("1", RMax(RAbs(e.lo[d]), RAbs(e.hi[d]))))]
  IN  Need("as-many-components-as-asked", ok)
 \cup (IF ~ok THEN {} ELSE
       Need("inside-the-space", \A i \in 1..e.n : InBox(e.means[i], VSub(e.lo, slack), VAdd(e.hi, slack)))
  \cup Need("with-a-margin", e.op = "EggBox" \/ \A i \in 1..e.n : InBox(e.means[i], VSub(VAdd(e.lo, Widen(e.sig[i], "5")), slack), VAdd(VSub(e.hi, Widen(e.sig[i], "5")), slack)))
  \cup Need("weights-sum-to-one", RClose(RSum(e.w), "1", "1e-9", "0") /\ VAllGe(e.w, "0"))
  \cup Need("scales-in-range", \A i \in 1..e.n : InBox(e.sig[i], VScale("0.999999999", e.smin), VScale("1.000000001", e.smax)))
  \cup Need("support-covers", Len(e.sup) = 2 /\ \A i \in 1..e.n : VLe(VSub(e.sup[1], slack), VSub(e.means[i], Widen(e.sig[i], "5"))) /\ VLe(VAdd(e.means[i], Widen(e.sig[i], "5")), VAdd(e.sup[2], slack)))
  \* each face of the support touches five scales around some component (around the space for the egg box)
  \cup Need("support-no-larger", Len(e.sup) = 2 /\ \A d \in 1..D(e) :
        IF e.op = "EggBox" THEN Near(e.sup[1][d], RSub(e.lo[d], RMul("5", e.smin[d])), slack[d]) /\ Near(e.sup[2][d], RAdd(e.hi[d], RMul("5", e.smin[d])), slack[d])
        ELSE /\ \E i \in 1..e.n : Near(e.sup[1][d], RSub(e.means[i][d], RMul("5", e.sig[i][d])), slack[d])
             /\ \E i \in 1..e.n : Near(e.sup[2][d], RAdd(e.means[i][d], RMul("5", e.sig[i][d])), slack[d]))
  \cup Need("is-that-mixture", \A i \in DOMAIN e.X : LogClose(e.LP[i], LogD(mix, e.X[i]))))
Fails(e) ==
  CASE e.op = "Raised" -> {"no-error"}
    [] e.op = "Grid" -> Grid(e)
    [] e.op = "Time" -> Need("duration", GoodTime(e.t, e.h, e.m, e.s))
    [] e.op = "Mixture" -> Mixture(e)
    [] e.op = "EggBox" -> Mixture(e) \cup Need("one-component-per-grid-point", e.means = e.grid) \cup Need("equal-weights", \A i \in DOMAIN e.w : RClose(e.w[i], RDiv("1", e.n), "1e-12", "0"))
    [] e.op = "Scatter" -> Need("uniform-points", Len(e.rows) = e.n /\ \A i \in DOMAIN e.rows : InBox(e.rows[i], e.lo, e.hi)) \cup Need("values-of-their-rows", e.vals = e.want)
    [] OTHER -> {"unknown-event"}
TInit == k \in 1..Len(Traces) /\ l = 1
TNext == LET T == Traces[k] IN
         /\ l <= Len(T.ev)
         /\ Report(k, l, T.ev[l].op, Fails(T.ev[l]))
         /\ l' = l + 1 /\ k' = k
         /\ l = Len(T.ev) => Done(k)
TSpec == TInit /\ [][TNext]_<<k, l>>
=============================================================================
