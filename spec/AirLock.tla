------------------------------ MODULE AirLock ------------------------------
(* Conformance of recorded AirLock histories with AirLockOps.                 *)
(* Judge: LIN (C08) results; PROG (C09) blocking.                             *)
EXTENDS AirLockOps, TraceBase
CONSTANT Judge

Returned(s, e) == {y \in Closure(s) : y.pend[e.t].st = "d" /\ y.pend[e.t].r = e.r}
\* where results are judged elsewhere (C08) the observed occupancy is adopted
Adopted(s, e) == LET R == Returned(s, e) op == s.pend[e.t].op IN
  IF R # {} THEN R
  ELSE CASE op = "load" -> {[s EXCEPT !.slot = s.pend[e.t].a]}
         [] op = "tryload" /\ e.r = <<1>> -> {[s EXCEPT !.slot = s.pend[e.t].a]}
         [] op = "unload" /\ e.r[1] = 1 -> {[s EXCEPT !.slot = <<>>]}
         [] OTHER -> {s}

StartA(h) == {Vacant}
PostA(h, s, e) ==
  CASE e.k = "i" -> {Call(s, e)}
    [] e.k = "r" -> {Forget(x, e.t) : x \in IF Judge = "LIN" THEN Returned(s, e) ELSE Adopted(s, e)}
    [] e.k \in {"to", "idle"} -> {s}
    [] e.k \in {"stuck", "Hang"} ->
         IF Judge = "PROG"
         THEN {x \in Closure(s) : MayBlock(x)}
         ELSE {s}
    [] e.k \in {"Crash", "Exc"} -> IF Judge = "LIN" THEN {} ELSE {s}
    [] OTHER -> {}
=============================================================================
