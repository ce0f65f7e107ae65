---------------------------- MODULE HashLayout ----------------------------
(* The bytes whose SHA-1 identifies a sky map (C31), for all releases and  *)
(* platforms: the class name, the options of the tract builder and of all  *)
(* maps, then those of the class.  Integers are 4 bytes, floats 8 (IEEE,   *)
(* given as bytes here), both with the lowest byte first.                  *)
EXTENDS Integers, Sequences
NameOf(cls) ==
  CASE cls = "dodeca" -> <<68, 111, 100, 101, 99, 97, 83, 107, 121, 77, 97, 112>>
    [] cls = "equat" -> <<69, 113, 117, 97, 116, 83, 107, 121, 77, 97, 112>>
    [] cls = "discrete" -> <<68, 105, 115, 99, 114, 101, 116, 101, 83, 107, 121, 77, 97, 112>>
    [] cls = "rings" -> <<82, 105, 110, 103, 115, 83, 107, 121, 77, 97, 112>>
    [] cls = "healpix" -> <<72, 101, 97, 108, 112, 105, 120, 83, 107, 121, 77, 97, 112>>
Int4(v) == LET u == IF v >= 0 THEN v ELSE v + 2147483647 + 1 IN
           <<u % 256, (u \div 256) % 256, (u \div 65536) % 256, (u \div 16777216) + (IF v < 0 THEN 128 ELSE 0)>>
RECURSIVE Ints(_)
Ints(s) == IF s = <<>> THEN <<>> ELSE Int4(Head(s)) \o Ints(Tail(s))
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Cat(Tail(s))
Bool(b) == IF b THEN <<1>> ELSE <<0>>
(* the integers of a builder, in this order:                               *)
(*   legacy: patch width, patch height, border                             *)
(*   cells: cell width, cell height, cell border, cells per patch, cells   *)
(*          in the border                                                  *)
Own(c) == CASE c.cls = "dodeca" -> Bool(c.flag)
            [] c.cls = "equat" -> Int4(c.n) \o Cat(c.floats)          \* number of tracts, lowest and highest declination
            [] c.cls = "discrete" -> Cat(c.floats)                    \* all RA, all Dec, all radii
            [] c.cls = "rings" -> Int4(c.n) \o Cat(c.floats)          \* number of rings, first RA
            [] c.cls = "healpix" -> Int4(c.n) \o Bool(c.flag)         \* log2 of nside, nested
Layout(c) == NameOf(c.cls) \o Ints(c.ints) \o c.overlap \o c.scale \o c.proj \o c.rotation \o Own(c)
===========================================================================
