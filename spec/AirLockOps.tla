----------------------------- MODULE AirLockOps -----------------------------
(* The abstract AirLock: one slot on which every call takes effect atomically *)
(* between call and return.  State: slot (<<>> or <<v>>), pend (thread ->     *)
(* pending call).                                                             *)
EXTENDS Integers, Sequences, FiniteSets

Vacant == [slot |-> <<>>, pend |-> [x \in {} |-> 0]]
Full(s) == s.slot # <<>>
Done(s, t, r) == [s EXCEPT !.pend[t].st = "d", !.pend[t].r = r]
Call(s, e) == [s EXCEPT !.pend = [u \in (DOMAIN @) \cup {e.t} |->
                 IF u = e.t THEN [op |-> e.op, a |-> e.a, st |-> "c", r |-> <<>>] ELSE @[u]]]
Forget(s, t) == [s EXCEPT !.pend = [u \in (DOMAIN @) \ {t} |-> @[u]]]

Effect(s, t) ==
  LET c == s.pend[t] IN
  CASE c.op = "load"     -> IF Full(s) THEN {} ELSE {Done([s EXCEPT !.slot = c.a], t, <<>>)}
    [] c.op = "tryload"  -> IF Full(s) THEN {Done(s, t, <<0>>)} ELSE {Done([s EXCEPT !.slot = c.a], t, <<1>>)}
    \* the assignment of the value fails: the caller gets the exception, nothing is loaded
    [] c.op = "loadfail" -> IF Full(s) THEN {} ELSE {Done(s, t, <<2>>)}
    [] c.op = "tryfail"  -> {Done(s, t, IF Full(s) THEN <<0>> ELSE <<2>>)}
    [] c.op = "unload"   -> IF Full(s) THEN {Done([s EXCEPT !.slot = <<>>], t, <<1, s.slot[1]>>)} ELSE {Done(s, t, <<0>>)}
    [] c.op = "isloaded" -> {Done(s, t, <<IF Full(s) THEN 1 ELSE 0>>)}

Step1(s) == UNION {Effect(s, t) : t \in {u \in DOMAIN s.pend : s.pend[u].st = "c"}}
RECURSIVE CloseRec(_, _)
CloseRec(all, frontier) == IF frontier = {} THEN all
  ELSE LET nxt == (UNION {Step1(s) : s \in frontier}) \ all IN CloseRec(all \cup nxt, nxt)
Closure(s) == CloseRec({s}, {s})
\* the calls that may be blocked in s are the loads, while the slot is full
MayBlock(s) == \A t \in DOMAIN s.pend : s.pend[t].op \in {"load", "loadfail"} /\ s.pend[t].st = "c" /\ Full(s)
=============================================================================
