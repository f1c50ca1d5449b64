--------------------------- MODULE WorkBlockOps ---------------------------
(* C14: work blocks.  A block has work or none, is finished or not, and owns  *)
(* the current result generation; futures belong to the generation they were  *)
(* obtained in.  gs[g]: 0 not delivered, -3 given up (the block moved on to   *)
(* another generation or died), otherwise the code of the delivered outcome.  *)
EXTENDS Integers, Sequences
None == [st |-> "none", w |-> 0, fin |-> FALSE, g |-> 0]
Moved == [st |-> "moved", w |-> 0, fin |-> FALSE, g |-> 0]
Slots == 0..2
Works == 1..4
Empty == [b |-> [o \in Slots |-> None], gs |-> <<>>, hs |-> <<>>, n |-> [w \in Works |-> 0]]

\* the result of run number k of work w: even works throw it, a void work that returns has no value
Code(void, w, k) == IF void /\ w % 2 = 1 THEN 5 ELSE 100 * w + k
Abandon(s, o) == LET g == s.b[o].g IN
                 IF g # 0 /\ s.gs[g] = 0 THEN [s EXCEPT !.gs[g] = -3] ELSE s
Load(s, o, w) == LET a == Abandon(s, o) IN
                 [a EXCEPT !.gs = Append(@, 0), !.b[o] = [st |-> "ok", w |-> w, fin |-> FALSE, g |-> Len(a.gs) + 1]]
Default(s, o) == [Abandon(s, o) EXCEPT !.b[o] = [st |-> "ok", w |-> 0, fin |-> FALSE, g |-> 0]]
Destroy(s, o) == [Abandon(s, o) EXCEPT !.b[o] = None]
PreRun(s, w) == [s EXCEPT !.n[w] = @ + 1]
Execute(s, o, void) ==
  LET b == s.b[o] IN
  IF b.fin THEN s
  ELSE IF b.w = 0 THEN [s EXCEPT !.b[o].fin = TRUE]
  ELSE [s EXCEPT !.b[o].fin = TRUE, !.n[b.w] = @ + 1, !.gs[b.g] = Code(void, b.w, s.n[b.w] + 1)]
Runs(s, o) == IF s.b[o].fin \/ s.b[o].w = 0 THEN <<>> ELSE <<s.b[o].w>>
Reset(s, o) == IF s.b[o].w = 0 THEN [s EXCEPT !.b[o].fin = FALSE] ELSE Load(s, o, s.b[o].w)
Future(s, o) == [s EXCEPT !.hs = Append(@, s.b[o].g)]
MoveTo(s, o, d) == LET a == Abandon(s, d) IN [a EXCEPT !.b[d] = s.b[o], !.b[o] = Moved]
Result(s, o) == IF s.b[o].g = 0 THEN 0 ELSE s.gs[s.b[o].g]
===========================================================================
