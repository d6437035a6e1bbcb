------------------------------ MODULE VizProps ------------------------------
(* V01: what each visual element looks like.  Elements are records          *)
(*  point    [pos, color, style]                                            *)
(*  function [lim, n, poly, by, color, style]   by * (p1 + p2 x + p3 x^2)   *)
(*  axis     [pos, start, end, ticks, sizes, labels, color]                 *)
EXTENDS Reals, Sequences, Naturals, FiniteSets, TLC
Near(a, b) == RClose(a, b, "1e-9", "1e-9")
NearV(s, t) == Len(s) = Len(t) /\ VClose(s, t, "1e-9", "1e-9")
Xs(e) == TLCEval([i \in 1..e.n |-> RAdd(e.lim[1], RMul(RSub(e.lim[2], e.lim[1]), RDiv(i - 1, e.n - 1)))])
At(e, x) == RMul(e.by, RAdd(e.poly[1], RAdd(RMul(e.poly[2], x), RMul(e.poly[3], RMul(x, x)))))
Norm(v) == RSqrt(RDot(v, v))
Direction(e) == VScale(RDiv("1", Norm(VSub(e.end, e.start))), VSub(e.end, e.start))
Across(d) == <<RNeg(d[2]), d[1], d[3]>>
\* the middle of tick i
OnAxis(e, i) == VAdd(VAdd(e.start, e.pos), VScale(e.ticks[i], Direction(e)))
Tick(e, i) == LET m == OnAxis(e, i) a == VScale(e.sizes[i], Across(Direction(e))) IN <<VSub(m, a), VAdd(m, a)>>
Outward(e, i) == LET v == VScale(e.ticks[i], Direction(e)) IN RLt(v[2], v[1])
LabelAt(e, i) == LET a == VScale(RMul("4", e.sizes[i]), Across(Direction(e))) IN IF Outward(e, i) THEN VSub(OnAxis(e, i), a) ELSE VAdd(OnAxis(e, i), a)
Line(xs, ys, c, s) == [x |-> xs, y |-> ys, color |-> c, style |-> s]
Lines(e) == CASE e.kind = "point" -> <<>>
              [] e.kind = "function" -> LET xs == Xs(e) IN <<Line(xs, [i \in DOMAIN xs |-> At(e, xs[i])], e.color, e.style)>>
              [] e.kind = "axis" -> LET a == VAdd(e.pos, e.start) b == VAdd(e.pos, e.end)
                                    IN <<Line(<<a[1], b[1]>>, <<a[2], b[2]>>, e.color, "-")>> \o
                                       [i \in DOMAIN e.ticks |-> LET t == Tick(e, i) IN Line(<<t[1][1], t[2][1]>>, <<t[1][2], t[2][2]>>, e.color, "-")]
Points(e) == IF e.kind = "point" THEN <<[pos |-> <<e.pos[1], e.pos[2]>>, color |-> e.color, style |-> e.style]>> ELSE <<>>
Texts(e) == IF e.kind = "axis" THEN [i \in DOMAIN e.ticks |-> LET p == LabelAt(e, i) IN [pos |-> <<p[1], p[2]>>, text |-> e.labels[i], color |-> e.color]] ELSE <<>>
SameLine(a, b) == NearV(a.x, b.x) /\ NearV(a.y, b.y) /\ NearV(a.color, b.color) /\ a.style = b.style
SamePoint(a, b) == NearV(a.pos, b.pos) /\ NearV(a.color, b.color) /\ a.style = b.style
SameText(a, b) == NearV(a.pos, b.pos) /\ NearV(a.color, b.color) /\ a.text = b.text
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE s[1] \o Flat(Tail(s))
SameBag(s, t, eq(_, _)) == Len(s) = Len(t) /\ \A i \in DOMAIN s : Cardinality({j \in DOMAIN t : eq(s[i], t[j])}) = Cardinality({j \in DOMAIN s : eq(s[i], s[j])})
\* the elements still on screen after a sequence
Latest(seq) == SelectSeq([i \in DOMAIN seq |-> [last |-> \A j \in DOMAIN seq : j > i => seq[j].id # seq[i].id, e |-> seq[i]]], LAMBDA r : r.last)
Shows(art, es) == [lines |-> SameBag(TLCEval(Flat([i \in DOMAIN es |-> Lines(es[i])])), art.lines, SameLine),
                   points |-> SameBag(Flat([i \in DOMAIN es |-> Points(es[i])]), art.points, SamePoint),
                   texts |-> SameBag(TLCEval(Flat([i \in DOMAIN es |-> Texts(es[i])])), art.texts, SameText)]
=============================================================================
