----------------------------- MODULE Numbering -----------------------------
(* Numbers that a tract builder gives to the patches of a tract (C36): row  *)
(* by row as the builders of the package do, or column by column.           *)
EXTENDS Num
Seq2(kind, nx, ny, x, y) == IF kind = "rows" THEN nx * y + x ELSE ny * x + y
Pair2(kind, nx, ny, s) == IF kind = "rows" THEN <<s % nx, s \div nx>> ELSE <<s \div ny, s % ny>>
Cells2(nx, ny) == (0..(nx - 1)) \X (0..(ny - 1))
(* an iteration over a tract goes row by row, whatever the numbers *)
Visit(nx, ny) == [k \in 1..(nx * ny) |-> <<(k - 1) % nx, (k - 1) \div nx>>]
Records(kind, nx, ny) == {<<Seq2(kind, nx, ny, c[1], c[2]), c[1], c[2]>> : c \in Cells2(nx, ny)}
=============================================================================
