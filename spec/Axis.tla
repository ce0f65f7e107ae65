------------------------------- MODULE Axis -------------------------------
(* The arithmetic of one axis, shared by the models that TLC enumerates     *)
(* (PatchGrid, Packer, Rings) and the lemmas that hold for integers of any  *)
(* size (Unbounded, proved by Apalache).                                    *)
EXTENDS Integers
(* n things per row: place (x, y) has number n*y + x *)
\* @type: (Int, Int, Int) => Int;
AxSeq(n, x, y) == n * y + x
\* @type: (Int, Int) => Int;
AxX(n, s) == s % n
\* @type: (Int, Int) => Int;
AxY(n, s) == s \div n
(* the patch of d pixels that holds pixel u, and its first and last pixels *)
\* @type: (Int, Int) => Int;
AxOf(d, u) == u \div d
\* @type: (Int, Int) => Int;
AxFirst(d, k) == k * d
\* @type: (Int, Int) => Int;
AxLast(d, k) == k * d + d - 1
(* with a border of b pixels, as far as the n patches reach *)
\* @type: (Int, Int, Int) => Int;
AxOuterFirst(d, b, k) == IF k * d - b < 0 THEN 0 ELSE k * d - b
\* @type: (Int, Int, Int, Int) => Int;
AxOuterLast(n, d, b, k) == IF k * d + d - 1 + b > n * d - 1 THEN n * d - 1 ELSE k * d + d - 1 + b
(* patches of d pixels that hold p pixels, and where they start if the pixels start at lo *)
\* @type: (Int, Int) => Int;
AxCount(d, p) == (p + d - 1) \div d
\* @type: (Int, Int, Int) => Int;
AxGrown(d, lo, p) == lo - (AxCount(d, p) * d - p) \div 2
(* cell i of c pixels, patches of m cells with e cells of border: first pixel in patch k *)
\* @type: (Int, Int, Int, Int, Int) => Int;
AxCell(m, e, c, k, i) == k * (m * c) + (i - e) * c
===========================================================================
