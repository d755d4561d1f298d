------------------------------ MODULE PixelSeq ------------------------------
(* What a pixel selection denotes: the documented sequence of points.        *)
(* A one-dimensional selection is a record                                    *)
(*   [k |-> "R", a, b, d]   range from a to b by step d                        *)
(*   [k |-> "I", v]         explicit list of pixel numbers                     *)
(*   [k |-> "A", v]         explicit list of angles                            *)
(*   [k |-> "P", x, n]      angle x repeated n times                           *)
(* and a two-dimensional one                                                   *)
(*   [k |-> "G", i, j]      grid: i varies fastest                             *)
(*   [k |-> "B", i, j]      paired lists (same length, same nature)            *)
(*   [k |-> "E"]            nothing                                            *)
EXTENDS Integers, Sequences
Rng(a, b, d) == IF b < a THEN <<>> ELSE [n \in 1..(((b - a) \div d) + 1) |-> a + (n - 1) * d]
Seq1(s) == CASE s.k = "R" -> Rng(s.a, s.b, s.d)
             [] s.k = "I" -> s.v
             [] s.k = "A" -> s.v
             [] s.k = "P" -> [n \in 1..s.n |-> s.x]
Angle1(s) == s.k \in {"A", "P"}
Seq2(s) == CASE s.k = "G" -> LET I == Seq1(s.i) J == Seq1(s.j) W == Len(I)
                             IN [n \in 1..(W * Len(J)) |-> <<I[((n - 1) % W) + 1], J[((n - 1) \div W) + 1]>>]
             [] s.k = "B" -> LET I == Seq1(s.i) J == Seq1(s.j) IN [n \in 1..Len(I) |-> <<I[n], J[n]>>]
             [] s.k = "E" -> <<>>
Angle2(s) == s.k = "B" /\ Angle1(s.i)
(* selections that must be refused *)
Refused1(s) == s.k = "R" /\ s.d = 0
Refused2(s) == \/ s.k \in {"G", "B"} /\ (Refused1(s.i) \/ Refused1(s.j))
               \/ s.k = "B" /\ (Angle1(s.i) # Angle1(s.j) \/ Len(Seq1(s.i)) # Len(Seq1(s.j)))
=============================================================================
