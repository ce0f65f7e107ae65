---------------------------- MODULE MCSkySystem ----------------------------
(* An implementation-shaped model of a family of sky maps (tract cache,     *)
(* tract builder with remembered patch counts, configuration, iterators)    *)
(* under every interleaving of operations, against SkySystem.  It also      *)
(* generates the schedules that are replayed on the real code.              *)
EXTENDS SkySystem, Json
CONSTANTS NConf, N, MaxMaps, MaxLive, MaxIters, Ops, Mutant,
          Depth     \* operations in a history; 0: any number
VARIABLES maps,     \* handle -> abstract map (SkySystem)
          impl,     \* handle -> [cache, cfg, builder, address, iteration position]
          dead,     \* handles of maps that were let go
          memo,     \* what a process-wide memory (of a mutant) holds
          iters,    \* iterator -> [h, next]
          out,      \* outcome of the last operation
          hist, tok
vars == <<maps, impl, dead, memo, iters, out, hist, tok>>

(* patch counts of tract i of configuration c: different for all of them *)
Size(c, i) == 10 * c + i
Answer(c, i) == <<c, i, Size(c, i)>>

(* the implementation *)
Live == DOMAIN maps \ dead
(* memory is used again: the lowest address that no live map has *)
FreeAddr == CHOOSE a \in 1..(MaxMaps + 1) : /\ \A h \in Live : impl[h].addr # a
                                           /\ \A b \in 1..(a - 1) : \E h \in Live : impl[h].addr = b
NewImpl(c) == [cfg |-> c, addr |-> FreeAddr, pos |-> 0, cache |-> [i \in 0..(N - 1) |-> NONE], last |-> 0, own |-> [i \in 0..(N - 1) |-> 0]]
Generate(im, i, t) == [im EXCEPT !.cache[i] = t, !.last = IF Mutant = "sharedbuilder" THEN Size(im.cfg, i) ELSE 0, !.own[i] = Size(im.cfg, i)]
Access(im, i, t) == IF im.cache[i] # NONE /\ Mutant # "nocache" THEN im ELSE Generate(im, i, t)
Says(im, i) == IF Mutant = "byaddress" /\ memo[im.addr, i] # <<>> THEN memo[im.addr, i]
               ELSE <<im.cfg, i, IF Mutant = "sharedbuilder" THEN im.last ELSE im.own[i]>>

H == Live
Do(op) == hist' = IF Depth = 0 THEN <<>> ELSE Append(hist, op)
(* a new object; with histories of any length its name is one of two that belong to the tract *)
Tok(h, i, j) == IF Depth > 0 THEN tok + 1 + j
                ELSE LET a == 2 * (h * N + i) + 1 IN IF impl[h].cache[i] = a \/ maps[h].objs[i] = a THEN a + 1 ELSE a
Used(n) == tok' = IF Depth = 0 THEN 0 ELSE tok + n
Init == maps = <<>> /\ impl = <<>> /\ dead = {} /\ memo = [a \in (1..(MaxMaps + 1)) \X (0..(N - 1)) |-> <<>>]
         /\ iters = <<>> /\ out = [kind |-> "none"] /\ hist = <<>> /\ tok = 0

Room == Len(maps) < MaxMaps /\ Cardinality(Live) < MaxLive
New(c) == /\ Room
          /\ maps' = Append(maps, Fresh(c, N, TRUE)) /\ impl' = Append(impl, NewImpl(c))
          /\ out' = [kind |-> "none"] /\ Do(<<"new", c>>) /\ UNCHANGED <<iters, tok, dead, memo>>
(* the caller lets go of a map *)
Drop(h) == /\ dead' = dead \cup {h} /\ out' = [kind |-> "none"] /\ Do(<<"drop", h>>) /\ UNCHANGED <<maps, impl, memo, iters, tok>>
Touch(h, i, kind) == \* access tract i, and what it says
  LET im == Access(impl[h], i, Tok(h, i, 0)) t == im.cache[i] IN
  /\ impl' = [impl EXCEPT ![h] = im]
  /\ maps' = [maps EXCEPT ![h] = IF @.objs[i] = NONE THEN Seen(@, i, t) ELSE @]
  /\ Used(1) /\ dead' = dead
  /\ memo' = IF Mutant = "byaddress" THEN [memo EXCEPT ![im.addr, i] = Says(im, i)] ELSE memo
  /\ out' = [kind |-> kind, h |-> h, i |-> i, tok |-> t, says |-> Says(im, i), before |-> maps[h]]
Get(h, i) == /\ IF InRange(maps[h], i) THEN Touch(h, i, "get")
                ELSE /\ out' = [kind |-> "error", h |-> h, i |-> i,
                                raised |-> IF Mutant = "negative" THEN i >= N ELSE TRUE]
                     /\ UNCHANGED <<maps, impl, tok, dead, memo>>
             /\ Do(<<"get", h, i>>) /\ UNCHANGED iters
Query(h, i) == Touch(h, i, "query") /\ Do(<<"query", h, i>>) /\ UNCHANGED iters
Find(h, i) == Touch(h, i, "find") /\ Do(<<"find", h, i>>) /\ UNCHANGED iters
Search(h, i) == \* a search generates all tracts, in order
  /\ impl' = [impl EXCEPT ![h] = [@ EXCEPT !.cache = [j \in 0..(N - 1) |-> IF @[j] = NONE THEN Tok(h, j, j) ELSE @[j]],
                                            !.own = [j \in 0..(N - 1) |-> Size(impl[h].cfg, j)], !.last = IF Mutant = "sharedbuilder" THEN Size(impl[h].cfg, N - 1) ELSE 0]]
  /\ maps' = [maps EXCEPT ![h] = [@ EXCEPT !.objs = [j \in 0..(N - 1) |-> IF @[j] = NONE THEN Tok(h, j, j) ELSE @[j]]]]
  /\ Used(N) /\ out' = [kind |-> "none"] /\ Do(<<"search", h, i>>) /\ UNCHANGED <<iters, dead, memo>>
Iter(h) == /\ Len(iters) < MaxIters
           /\ iters' = Append(iters, [h |-> h, next |-> 0]) /\ out' = [kind |-> "none"]
           /\ Do(<<"iter", h>>) /\ UNCHANGED <<maps, impl, tok, dead, memo>>
(* an iteration goes on also when its map was let go; each has its own position *)
Step(t) == LET it == iters[t]
               at == IF Mutant = "sharediter" THEN impl[it.h].pos ELSE it.next IN
  /\ IF at < N
     THEN LET im == Access(impl[it.h], at, Tok(it.h, at, 0)) k == im.cache[at] IN
          /\ impl' = [impl EXCEPT ![it.h] = [im EXCEPT !.pos = IF Mutant = "sharediter" THEN at + 1 ELSE 0]]
          /\ maps' = [maps EXCEPT ![it.h] = IF @.objs[at] = NONE THEN Seen(@, at, k) ELSE @]
          /\ Used(1) /\ memo' = memo
          /\ out' = [kind |-> "next", h |-> it.h, i |-> at, tok |-> k, says |-> Says(im, at), before |-> maps[it.h], want |-> it.next]
     ELSE /\ out' = [kind |-> "stop", want |-> it.next] /\ UNCHANGED <<maps, impl, tok, memo>>
  /\ iters' = [iters EXCEPT ![t].next = IF @ < N THEN @ + 1 ELSE @] /\ dead' = dead
  /\ Do(<<"step", t>>)
Clone(h, how) == /\ Room
  /\ maps' = Append(maps, Fresh(maps[h].c, N, TRUE))
  /\ impl' = Append(impl, NewImpl(IF Mutant = "clonedefault" THEN 1 ELSE impl[h].cfg))
  /\ out' = [kind |-> "clone", a |-> h, b |-> Len(maps) + 1] /\ Do(<<"clone", h, how>>) /\ UNCHANGED <<iters, tok, dead, memo>>
SetCfg(h, x) == \* refused
  /\ impl' = IF Mutant = "thawed" THEN [impl EXCEPT ![h].cfg = (x % NConf) + 1] ELSE impl
  /\ out' = [kind |-> "none"] /\ Do(<<"setcfg", h, x>>) /\ UNCHANGED <<maps, iters, tok, dead, memo>>
Mutate(h, i) == Touch(h, i, "query") /\ Do(<<"mutate", h, i>>) /\ UNCHANGED iters

On(op) == op \in Ops
Next == /\ Depth = 0 \/ Len(hist) < Depth
        /\ \/ On("new") /\ \E c \in 1..NConf : New(c)
           \/ \E h \in H : \/ On("get") /\ \E i \in -1..(N + 1) : Get(h, i)
                           \/ On("query") /\ \E i \in 0..(N - 1) : Query(h, i)
                           \/ On("find") /\ \E i \in 0..(N - 1) : Find(h, i)
                           \/ On("mutate") /\ \E i \in 0..(N - 1) : Mutate(h, i)
                           \/ On("search") /\ \E i \in 0..1 : Search(h, i)
                           \/ On("iter") /\ Iter(h)
                           \/ On("clone") /\ \E how \in 0..2 : Clone(h, how)
                           \/ On("setcfg") /\ \E x \in 1..2 : SetCfg(h, x)
                           \/ On("drop") /\ Drop(h)
           \/ On("step") /\ \E t \in DOMAIN iters : Step(t)
Spec == Init /\ [][Next]_vars

(* C05: what a tract says depends on configuration and number only *)
Answers == out.kind \in {"get", "query", "find", "next"} => out.says = Answer(maps[out.h].c, out.i)
(* C06: the same object on every access, never that of another tract; errors out of range *)
Objects == out.kind \in {"get", "query", "find", "next"} =>
             /\ TokenOK(out.before, out.i, out.tok)
             /\ TokenFree(maps, out.h, out.i, out.tok)
Errors == out.kind = "error" => out.raised
(* C06: every iteration gives the tracts in order, whatever else goes on, and then stops *)
Iterations == /\ out.kind = "next" => out.i = out.want
              /\ out.kind = "stop" => out.want = N
(* C07, C09: every live map has the configuration it was built with *)
Config == \A h \in H : impl[h].cfg = maps[h].c
(* schedules for the real code *)
Export == (Depth > 0 /\ Len(hist) = Depth) => PrintT("CASE " \o ToJson(hist))
View == <<maps, impl, dead, memo, iters, out, Len(hist)>>
AnyView == <<maps, impl, dead, memo, iters, Answers, Objects, Errors, Iterations>>
=============================================================================
