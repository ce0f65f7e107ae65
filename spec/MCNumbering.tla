---------------------------- MODULE MCNumbering ----------------------------
EXTENDS Numbering
CONSTANTS Max, Mutant
VARIABLES k, nx, ny
vars == <<k, nx, ny>>
Init == k \in {"rows", "columns"} /\ nx \in 1..Max /\ ny \in 1..Max
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
S(c) == IF Mutant = "mixed" THEN Seq2("rows", ny, nx, c[1], c[2]) ELSE Seq2(k, nx, ny, c[1], c[2])
Right == /\ {S(c) : c \in Cells2(nx, ny)} = 0..(nx * ny - 1)
         /\ \A c \in Cells2(nx, ny) : Pair2(k, nx, ny, S(c)) = c
         /\ Range(Visit(nx, ny)) = Cells2(nx, ny)
         /\ Cardinality(Records(k, nx, ny)) = nx * ny
=============================================================================
