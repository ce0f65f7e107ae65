---------------------------- MODULE Identity ----------------------------
(* Patches and cells as values (C29): what they describe, and when two of *)
(* them are the same.  A patch describes its index, inner and outer box,  *)
(* number of cells per axis and cell border; a cell its index and boxes.  *)
EXTENDS PatchGrid
PatchDesc(g, x, y) == [kind |-> "patch", idx |-> <<x, y>>, inner |-> InnerBox(g, x, y), outer |-> OuterBox(g, x, y),
                       n |-> <<NumCells1(g), NumCells1(g)>>, cb |-> g.cb]
CellDesc(g, x, y, i, j) == [kind |-> "cell", idx |-> <<i, j>>, inner |-> CellInner(g, x, y, i, j),
                            outer |-> CellOuter(g, x, y, i, j), n |-> <<0, 0>>, cb |-> 0]
Same(a, b) == a = b

(* a patch made directly, of any two boxes: a record                      *)
(* [idx, inner, outer, cw, ch, cb, nci, ncb]                              *)
Made(m) == [kind |-> "patch", idx |-> m.idx, inner |-> m.inner, outer |-> m.outer,
            n |-> IF m.nci = 0 THEN <<0, 0>> ELSE <<m.nci + 2 * m.ncb, m.nci + 2 * m.ncb>>, cb |-> m.cb]
MadeOK(m) == Contains(m.outer, m.inner)
MadeCell(m, i, j) ==
  LET b == <<m.inner[1] + (i - m.ncb) * m.cw, m.inner[2] + (j - m.ncb) * m.ch, m.cw, m.ch>> IN
  [kind |-> "cell", idx |-> <<i, j>>, inner |-> b, outer |-> Grow(b, m.cb), n |-> <<0, 0>>, cb |-> 0]
=========================================================================
