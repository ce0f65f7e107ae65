------------------------------ MODULE Threads ------------------------------
(* A sky map shared by threads (C32).  Each thread's operations follow one *)
(* another; those of different threads overlap in any way.  Maps do not    *)
(* change, so that whatever overlaps it an operation gives the answer it   *)
(* gives when it is alone, and leaves the map giving the same answers.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
IDLE == <<>>
(* open: thread -> the operation that it is in, or IDLE *)
CanStart(open, t) == open[t] = IDLE
CanEnd(open, t, op) == open[t] = op
(* Alone: operation -> its answer when alone *)
Right(alone, op, says) == says = alone[op]
=============================================================================
