---------------------------- MODULE StreamProps -----------------------------
(* U01.  What one reader call does to the waiting lines.                    *)
EXTENDS Sequences, Naturals
Nothing == ""
Answer(q, op) == IF q = <<>> THEN Nothing ELSE IF op = "Read" THEN q[1] ELSE q[Len(q)]
Left(q, op) == IF q = <<>> THEN q
               ELSE CASE op = "Read" -> Tail(q)
                      [] op = "Keep" -> <<q[Len(q)]>>
                      [] op = "Drop" -> <<>>
=============================================================================
