------------------------------- MODULE Mapped -------------------------------
(* C27-C32, C34: traces of the mapped containers, three objects per script.   *)
(* An event carries the observation of every object that looks different than *)
(* before: c, the contents as seen by every subscript view and by iteration   *)
(* (one sequence when they agree), bk by back(), f1/f2 the position every     *)
(* term of the universe leads to, ids the serial numbers of the objects that  *)
(* live at the elements' addresses; live counts all element objects, x lists  *)
(* misuse of element memory.                                                  *)
(* Judge: CONT what the containers answer, IDENT where and how long the       *)
(* elements live.                                                             *)
EXTENDS TraceBase, MappedOps
CONSTANT Judge

Objs == 0..2
Stable(h) == h.st = "stable"
Fixed(h) == h.st \in {"stable", "ptr"}
Fn(q) == [t \in 0..(Len(q) - 1) |-> q[t + 1]]

Start0(h) == {[d |-> [o \in Objs |-> Empty(0..(h.K - 1))], ok |-> [o \in Objs |-> TRUE],
               ids |-> [o \in Objs |-> <<>>], known |-> FALSE]}

Add(q, n) == [k \in 1..Len(q) |-> q[k] + n]

\* outcomes of the call for the object it is made on: set of <<d', result>>
Outcomes(h, d, e) ==
  LET a(n) == e.a[n] IN
  CASE e.op \in {"i", "j"} /\ a(3) = 4 -> Failing(d, e.op = "i", a(1), a(2))
    [] e.op = "i" -> Insert(d, a(1), a(2), e.v)
    [] e.op = "j" -> Assign(d, a(1), a(2), e.v)
    [] e.op = "x" -> AddIdx(d, a(1), a(2), a(3))
    [] e.op = "y" -> AddTerm(d, a(1), a(2), a(3), a(4))
    [] e.op = "R" -> {<<RemoveAt(d, a(1), Stable(h)), 0>>}
    [] e.op = "r" -> {<<RemoveTerm(d, a(1), a(2), Stable(h)), 0>>}
    [] e.op \in {"c", "N"} -> {<<Empty(DOMAIN d.m1), 0>>}
    [] e.op = "w" -> {<<IF a(1) < N(d) THEN [d EXCEPT !.q[a(1) + 1] = e.v] ELSE d, 0>>}
    [] e.op = "W" -> {IF Bound(Map(d, a(1)), a(2)) THEN <<[d EXCEPT !.q[Map(d, a(1))[a(2)] + 1] = e.v], 1>> ELSE <<d, 0>>}
    [] e.op = "m" -> {<<[d EXCEPT !.q = Add(d.q, 1000)], 0>>}
    [] e.op = "t" -> {<<[d EXCEPT !.q = Add(d.q, 2000)], 0>>}
    [] OTHER -> {<<d, 0>>}

ContOk(h, d, ob) ==
  /\ ob.n = N(d) /\ ob.c = <<d.q>>
  /\ ob.bk = (IF d.q = <<>> THEN <<>> ELSE <<d.q[N(d)]>>)
  /\ Fn(ob.f1) = d.m1
  /\ h.dual = 1 => Fn(ob.f2) = d.m2

\* where the elements must live after the call, given what the call did (positions)
Prefix(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
IdsOk(h, s, e, ids2, d2) ==
  LET p == s.ids[e.o]  q == ids2[e.o]  d == s.d[e.o]
      gone(x) == SubSeq(p, 1, x) \o SubSeq(p, x + 2, Len(p))
      removed(x) == IF x < 0 \/ x >= Len(p) \/ (Stable(h) /\ x # Len(p) - 1) THEN p ELSE gone(x)
  IN
  CASE e.op = "i" -> q = p \/ (Len(q) = Len(p) + 1 /\ Prefix(p, q))
    [] e.op = "j" -> \/ Len(q) = Len(p) + 1 /\ Prefix(p, q)
                     \/ /\ Len(q) = Len(p)
                        /\ \A x \in 1..Len(p) : x # e.r + 1 => q[x] = p[x]
                        /\ Stable(h) => q = p
    [] e.op = "R" -> q = removed(e.a[1])
    [] e.op = "r" -> q = IF Bound(Map(d, e.a[1]), e.a[2]) THEN removed(Map(d, e.a[1])[e.a[2]]) ELSE p
    [] e.op \in {"c", "N"} -> q = <<>>
    [] e.op \in {"M", "A"} -> ids2[e.a[1]] = p
    [] OTHER -> q = p

Range(q) == {q[k] : k \in 1..Len(q)}

Step(h, s, e) ==
  LET idx(o) == {k \in 1..Len(e.obs) : e.obs[k].o = o}
      seen(o) == idx(o) # {}
      ob(o) == e.obs[CHOOSE k \in idx(o) : TRUE]
      op == e.k = "op"
      ids2 == [o \in Objs |-> IF seen(o) THEN ob(o).ids ELSE s.ids[o]]
      touched == IF ~op THEN {} ELSE {e.o} \cup (IF e.op \in {"K", "M", "Q", "A"} THEN {e.a[1]} ELSE {})
      ok2 == IF ~op THEN s.ok
             ELSE [o \in Objs |-> CASE o = e.o /\ e.op \in {"c", "N"} -> TRUE
                                    [] o = e.o /\ e.op \in {"M", "A"} -> FALSE
                                    [] e.op \in {"K", "M", "Q", "A"} /\ o = e.a[1] -> TRUE
                                    [] OTHER -> s.ok[o]]
      outs == IF ~op THEN {<<s.d, 0>>}
              ELSE IF e.op \in {"K", "Q", "M", "A"} THEN {<<[s.d EXCEPT ![e.a[1]] = s.d[e.o]], 0>>}
              ELSE {<<[s.d EXCEPT ![e.o] = x[1]], x[2]>> : x \in Outcomes(h, s.d[e.o], e)}
      fits(x) == /\ op => x[2] = e.r
                 /\ op /\ e.op \in {"a", "b", "m", "t"} => e.seen = s.d[e.o].q
                 /\ \A o \in Objs : ok2[o] => IF seen(o) THEN ContOk(h, x[1][o], ob(o))
                                              ELSE x[1][o] = s.d[o] /\ s.ok[o]
      \* IDENT keeps the bindings as observed; removals by term need them
      asSeen == [o \in Objs |-> IF seen(o) THEN [q |-> ob(o).c[1], m1 |-> Fn(ob(o).f1),
                                                 m2 |-> IF h.dual = 1 THEN Fn(ob(o).f2) ELSE Fn(ob(o).f1)]
                                ELSE s.d[o]]
      owned == UNION {Range(ids2[o]) : o \in {x \in Objs : ok2[x]}}
      total == Len(ids2[0]) + Len(ids2[1]) + Len(ids2[2])
  IN IF Judge = "CONT"
     THEN {[s EXCEPT !.d = x[1], !.ok = ok2] : x \in {y \in outs : fits(y)}}
     ELSE IF /\ op /\ Fixed(h) => IdsOk(h, s, e, ids2, asSeen)
             /\ Fixed(h) => \A o \in Objs \ touched : ok2[o] => ids2[o] = s.ids[o]
             /\ op /\ Fixed(h) /\ e.op \in {"K", "Q"} => ids2[e.o] = s.ids[e.o]
             /\ e.x = <<>>
             /\ (\A o \in Objs : ok2[o]) => e.live = total /\ Cardinality(owned) = total /\ -7 \notin owned
          THEN {[s EXCEPT !.d = asSeen, !.ids = ids2, !.ok = ok2]} ELSE {}

Post0(h, s, e) ==
  CASE e.k \in {"op", "obs"} -> Step(h, s, e)
    [] e.k = "end" -> IF Judge = "IDENT" => e.live = 0 /\ e.x = <<>> THEN {s} ELSE {}
    [] OTHER -> {}            \* Crash (memory error), Hang
=============================================================================
