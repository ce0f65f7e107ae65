---------------------------- MODULE TraceHash ----------------------------
(* Trace specification of the hash (C31): every recorded getSha1 must be  *)
(* the SHA-1 of the configuration's bytes as HashLayout has them.  A      *)
(* "conf" event gives a configuration; each "sha" event is the hash of a  *)
(* map of it, got in some way (built, after use, from a pickle, in        *)
(* another process, from a configuration file).                           *)
EXTENDS TraceBase, HashLayout, Sha1
VARIABLES l, want        \* configuration -> its hash
vars == <<l, want>>
IsEvent(op) == l <= Len(Trace) /\ Trace[l].op = op /\ l' = l + 1
Judge(bad) == Report(l, bad)
Init == l = 1 /\ want = <<>>
Conf == /\ IsEvent("conf") /\ Judge({})
        /\ want' = (Trace[l].c :> Digest(Layout(Trace[l].o))) @@ want
ShaBad(e) == Chk("C31." \o e.how, Ok(e) /\ e.sha = want[e.c])
Sha == IsEvent("sha") /\ Judge(ShaBad(Trace[l])) /\ UNCHANGED want
Crash == IsEvent("crash") /\ Judge({"ANY.crash"}) /\ UNCHANGED want
Next == Conf \/ Sha \/ Crash
Spec == Init /\ [][Next]_vars
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
==========================================================================
