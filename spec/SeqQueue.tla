------------------------------ MODULE SeqQueue ------------------------------
(* C07: queues at rest.  Scripts over three queue objects, executed one call  *)
(* at a time, with construction (default, with a capacity), clear, reserve,   *)
(* empty batches, move construction and move assignment.  After every call    *)
(* each object is observed (event z): empty, size, peek twice, then what      *)
(* repeated pops deliver (drain), then the observers again.                   *)
(*                                                                            *)
(* State: c, the content each object must deliver.  Order is judged where     *)
(* this property pins it down: the observers agree with what pops deliver,    *)
(* and right after a move (fresh) the destination delivers exactly the        *)
(* sequence the source would have delivered just before it (src, observed by  *)
(* replaying the script up to the move).  Otherwise only which elements are   *)
(* left counts; their order is decided by C01-C03.                            *)
EXTENDS TraceBase

ObjIds == 0..2
RECURSIVE BagEq(_, _)
Remove(q, x) == LET k == CHOOSE k \in 1..Len(q) : q[k] = x IN SubSeq(q, 1, k - 1) \o SubSeq(q, k + 1, Len(q))
In(q, x) == \E k \in 1..Len(q) : q[k] = x
BagEq(a, b) == IF Len(a) # Len(b) THEN FALSE
               ELSE IF a = <<>> THEN TRUE
               ELSE In(b, a[1]) /\ BagEq(Tail(a), Remove(b, a[1]))

Start0(h) == {[c |-> [o \in ObjIds |-> <<>>], fresh |-> [o \in ObjIds |-> FALSE]]}

\* the observers agree with each other and with what is left
Agreement(h, e) ==
  /\ \A k \in 1..2 : /\ e.empty[k] = (IF e.drain = <<>> THEN 1 ELSE 0)
                     /\ (h.kind # "P" => e.size[k] = Len(e.drain))
                     /\ e.peek[k] = IF e.drain = <<>> THEN <<0>> ELSE <<1, e.drain[1]>>
  /\ e.after = <<1, 0, 0>>

Inserts == {"push", "emplace", "pushv", "pushp", "emplacep"}
Pops == {"try", "pop", "timed", "poc"}

Post0(h, s, e) ==
  CASE e.k = "z" ->
         IF ~Agreement(h, e) THEN {}
         ELSE IF s.fresh[e.o] THEN (IF e.drain = s.c[e.o] THEN {[s EXCEPT !.fresh[e.o] = FALSE]} ELSE {})
         ELSE IF BagEq(e.drain, s.c[e.o]) THEN {[s EXCEPT !.c[e.o] = e.drain]} ELSE {}
    [] e.k = "op" /\ e.op \in {"N", "C"} -> {[s EXCEPT !.c[e.o] = <<>>, !.fresh[e.o] = FALSE]}
    [] e.k = "op" /\ e.op \in {"M", "A"} ->
         {[c |-> [s.c EXCEPT ![e.o] = <<>>, ![e.d] = e.src],
           fresh |-> [s.fresh EXCEPT ![e.o] = TRUE, ![e.d] = TRUE]]}
    [] e.k = "op" /\ e.op \in Inserts -> {[s EXCEPT !.c[e.o] = @ \o e.a]}
    [] e.k = "op" /\ e.op \in Pops ->
         IF e.r = <<>> THEN {s}   \* the call did not complete: C04/C05
         ELSE IF e.r[1] = 0 THEN (IF s.c[e.o] # <<>> THEN {} ELSE {s})
         ELSE IF In(s.c[e.o] \o e.a, e.r[2]) THEN {[s EXCEPT !.c[e.o] = Remove(@ \o e.a, e.r[2])]}
         ELSE {}
    [] e.k = "op" /\ e.op = "clear" -> {[s EXCEPT !.c[e.o] = <<>>]}
    [] e.k = "op" -> {s}
    [] e.k = "stuck" -> {s}
    [] e.k = "Hang"  -> {s}
    [] OTHER -> {}
=============================================================================
