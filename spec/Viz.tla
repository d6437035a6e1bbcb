-------------------------------- MODULE Viz ---------------------------------
(* V01.  A sequence of visual elements is drawn one after another.  Every   *)
(* element belongs to an object; drawing an object again replaces its       *)
(* drawing.  canvas: the pieces on screen, each remembering the object and  *)
(* the step it was drawn in.                                                *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Objects, Kinds, MaxLen
VARIABLES canvas, seq
vars == <<canvas, seq>>
Pieces(kind) == CASE kind = "point" -> 1 [] kind = "function" -> 1 [] kind = "axis" -> 3
Init == canvas = {} /\ seq = <<>>
Draw(o, kind) == /\ Len(seq) < MaxLen
                 /\ seq' = Append(seq, [id |-> o, kind |-> kind])
                 /\ canvas' = {p \in canvas : p.id # o} \cup {[id |-> o, at |-> Len(seq) + 1, kind |-> kind, n |-> i] : i \in 1..Pieces(kind)}
Next == \E o \in Objects, kind \in Kinds : Draw(o, kind)
Spec == Init /\ [][Next]_vars
LastOf(o) == CHOOSE i \in DOMAIN seq : seq[i].id = o /\ \A j \in DOMAIN seq : j > i => seq[j].id # o
Drawn == {seq[i].id : i \in DOMAIN seq}
LatestOnly == \A o \in Drawn : LET i == LastOf(o) IN {p \in canvas : p.id = o} = {[id |-> o, at |-> i, kind |-> seq[i].kind, n |-> n] : n \in 1..Pieces(seq[i].kind)}
NothingElse == {p.id : p \in canvas} = Drawn
OthersUndisturbed == [][\A o \in Objects : o # seq'[Len(seq')].id => {p \in canvas' : p.id = o} = {p \in canvas : p.id = o}]_vars
=============================================================================
