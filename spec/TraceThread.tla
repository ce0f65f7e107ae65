---------------------------- MODULE TraceThread ----------------------------
(* Trace specification of maps shared by threads (C32).  "ref": what an   *)
(* operation answers when it is alone, in a process of its own; "stage":  *)
(* a fresh map; "start" and "end" of an operation of a thread, in the     *)
(* order in which they happened; "after": an operation when all threads   *)
(* have ended.  The threads were switched as a schedule of MCThreads says.*)
EXTENDS TraceBase, Threads
VARIABLES l, open, alone
vars == <<l, open, alone>>
IsEvent(op) == l <= Len(Trace) /\ Trace[l].op = op /\ l' = l + 1
Judge(bad) == Report(l, bad)
Op(e) == <<e.c, e.kind, e.i>>
Init == l = 1 /\ open = <<>> /\ alone = <<>>
Ref == IsEvent("ref") /\ Judge({}) /\ alone' = (Op(Trace[l]) :> Trace[l].dig) @@ alone /\ UNCHANGED open
Stage == /\ IsEvent("stage") /\ Judge({}) /\ open' = [t \in 1..Trace[l].nt |-> IDLE] /\ UNCHANGED alone
Start == LET e == Trace[l] IN
         /\ IsEvent("start") /\ Judge(Chk("ANY.harness", CanStart(open, e.t)))
         /\ open' = [open EXCEPT ![e.t] = Op(e)] /\ UNCHANGED alone
EndBad(e) == Chk("ANY.harness", CanEnd(open, e.t, Op(e)))
             \cup Chk("C32.ends", "Hang" \notin Range(e.err))
             \cup Chk("C32." \o e.kind, Right(alone, Op(e), e.dig))
End == IsEvent("end") /\ Judge(EndBad(Trace[l])) /\ open' = [open EXCEPT ![Trace[l].t] = IDLE] /\ UNCHANGED alone
AfterBad(e) == Chk("C32.after", Right(alone, Op(e), e.dig)) \cup Chk("C32.same", e.same)
After == IsEvent("after") /\ Judge(AfterBad(Trace[l])) /\ UNCHANGED <<open, alone>>
Crash == IsEvent("crash") /\ Judge({"ANY.crash"}) /\ UNCHANGED <<open, alone>>
Next == Ref \/ Stage \/ Start \/ End \/ After \/ Crash
Spec == Init /\ [][Next]_vars
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
==========================================================================
