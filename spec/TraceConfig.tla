---------------------------- MODULE TraceConfig -----------------------------
(* Conformance of loaded configurations (B04).  st holds, per object, the   *)
(* entries of the files it last loaded (<<>> with ok = FALSE: not known).   *)
EXTENDS ConfigProps, Replay
VARIABLES k, l, st
NoFile == [ok |-> TRUE, of |-> <<>>]
Start == [t |-> [o \in {1, 2} |-> NoFile], m |-> [o \in {1, 2} |-> NoFile], box |-> [o \in {1, 2} |-> <<>>], dims |-> [o \in {1, 2} |-> 0],
          c |-> [o \in {1, 2} |-> NoFile]]
\* what every object holds, looked at after every step
Held(s, e) ==
  LET T(o) == e.held[o].targets
      M(o) == e.held[o].methods
  IN  Need("targets-in-file-order", \A o \in {1, 2} : s.t[o].ok => Len(T(o)) = Len(s.t[o].of) /\ \A i \in DOMAIN T(o) : Named(s.t[o].of[i], T(o)[i]))
 \cup Need("sample-counts", \A o \in {1, 2} : s.t[o].ok /\ Len(T(o)) = Len(s.t[o].of) => \A i \in DOMAIN T(o) : Counts(s.t[o].of[i], T(o)[i]))
 \cup Need("support", \A o \in {1, 2} : s.t[o].ok /\ Len(T(o)) = Len(s.t[o].of) => \A i \in DOMAIN T(o) : Placed(s.t[o].of[i], T(o)[i]))
 \cup Need("methods-in-file-order", \A o \in {1, 2} : s.m[o].ok => Len(M(o)) = Len(s.m[o].of) /\ \A i \in DOMAIN M(o) :
              M(o)[i].name = s.m[o].of[i].name /\ M(o)[i].cls = s.m[o].of[i].type /\ M(o)[i].debug = s.m[o].of[i].debug)
 \cup Need("methods-on-the-support", \A o \in {1, 2} : s.m[o].ok => \A i \in DOMAIN M(o) : M(o)[i].dims = s.dims[o] /\ ExactBox(M(o)[i].box, s.box[o]))
 \cup Need("methods-near-the-support", \A o \in {1, 2} : s.m[o].ok => \A i \in DOMAIN M(o) : \A j \in {1, 2} : \A x \in DOMAIN s.box[o][j] : RClose(M(o)[i].box[j][x], s.box[o][j][x], "1e-7", "1e-8"))
 \cup Need("configuration", \A o \in {1, 2} : s.c[o].of # <<>> => e.held[o].config = s.c[o].of[1])
\* the behaviour of the freshly loaded
Fresh(s, e) ==
  CASE e.op = "Targets" -> Need("density", Len(e.deep) = Len(e.file) /\ \A i \in DOMAIN e.deep : DensityOk(e.file[i], e.deep[i]))
    [] e.op = "Methods" -> Need("behaves-as-configured", \A i \in DOMAIN e.deep : e.deep[i].S = e.deep[i].S2 /\ e.deep[i].W = e.deep[i].W2)
    [] e.op = "Config" -> Need("seeded-as-told", e.next = e.want)
    [] e.op \in {"BadTargets", "BadMethods"} -> Need("broken-entry-reported", e.raised)
    [] OTHER -> {}
After(s, e) ==
  CASE e.op = "Targets" -> [s EXCEPT !.t[e.o] = [ok |-> TRUE, of |-> e.file]]
    [] e.op = "Methods" -> [s EXCEPT !.m[e.o] = [ok |-> TRUE, of |-> e.file], !.box[e.o] = e.box, !.dims[e.o] = e.dims]
    [] e.op = "BadTargets" -> [s EXCEPT !.t[e.o] = [ok |-> FALSE, of |-> <<>>]]
    [] e.op = "BadMethods" -> [s EXCEPT !.m[e.o] = [ok |-> FALSE, of |-> <<>>]]
    [] e.op = "Config" -> [s EXCEPT !.c[e.o] = [ok |-> TRUE, of |-> <<e.file>>]]
    [] OTHER -> s
Fails(s, e) == CASE e.op = "Raised" -> {"no-error"}
                 [] e.op = "Shipped" -> Need("shipped-file-loads", e.names = e.want)
                 [] e.op \in {"Targets", "Methods", "BadTargets", "BadMethods", "Config"} -> Held(After(s, e), e) \cup Fresh(s, e)
                 [] OTHER -> {"unknown-event"}
TInit == k \in 1..Len(Traces) /\ l = 1 /\ st = Start
TNext == LET T == Traces[k] IN
         /\ l <= Len(T.ev)
         /\ Report(k, l, T.ev[l].op, Fails(st, T.ev[l]))
         /\ st' = After(st, T.ev[l])
         /\ l' = l + 1 /\ k' = k
         /\ l = Len(T.ev) => Done(k)
TSpec == TInit /\ [][TNext]_<<k, l, st>>
=============================================================================
