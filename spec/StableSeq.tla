------------------------------ MODULE StableSeq ------------------------------
(* C21-C26: StableBlockVector and StableBlockDeque under scripts of calls on  *)
(* three container objects.                                                   *)
(*                                                                            *)
(* State: c, the sequence each container must hold; n, the size it reports;   *)
(* ad, where its elements live.  An event carries an observation (obs) of     *)
(* every object that looks different than before: size, contents as seen by   *)
(* every subscript view, front/back, addresses, iteration; l, how many live   *)
(* element objects there are inside and outside allocated blocks; x, misuse   *)
(* of element memory seen so far.                                             *)
(* A quiet call is not observed; a full observation follows later.            *)
(* Judge: CONT (C21, C22), ADDR (C23), LIFE (C24), COPY (C25), ITER (C26).    *)
EXTENDS TraceBase
CONSTANT Judge

Objs == 0..2
Rev(q) == [k \in 1..Len(q) |-> q[Len(q) + 1 - k]]
Min2(a, b) == IF a < b THEN a ELSE b
DropBack(q, k)  == SubSeq(q, 1, Len(q) - Min2(k, Len(q)))
DropFront(q, k) == SubSeq(q, Min2(k, Len(q)) + 1, Len(q))
Range(q) == {q[k] : k \in 1..Len(q)}
Keeps == Judge \in {"CONT", "COPY"}

Start0(h) == {[c |-> [o \in Objs |-> <<>>], n |-> [o \in Objs |-> 0], ad |-> [o \in Objs |-> <<>>]]}

Backs  == {"b", "m", "e"}
Fronts == {"f", "g", "h"}

\* contents after the call
Content(s, e) ==
  LET q == s.c[e.o] IN
  CASE e.op \in Backs -> [s.c EXCEPT ![e.o] = q \o e.a]
    [] e.op \in Fronts -> [s.c EXCEPT ![e.o] = Rev(e.a) \o q]
    [] e.op = "y" /\ e.a # <<>> -> [s.c EXCEPT ![e.o] = Append(q, q[e.a[1] + 1])]
    [] e.op = "z" /\ e.a # <<>> -> [s.c EXCEPT ![e.o] = <<q[e.a[1] + 1]>> \o q]
    [] e.op = "B" -> [s.c EXCEPT ![e.o] = DropBack(q, e.a[1])]
    [] e.op = "F" -> [s.c EXCEPT ![e.o] = DropFront(q, e.a[1])]
    [] e.op = "d" -> [s.c EXCEPT ![e.o] = DropFront(q \o e.a, Len(e.a))]
    [] e.op = "D" -> [s.c EXCEPT ![e.o] = DropBack(Rev(e.a) \o q, Len(e.a))]
    [] e.op \in {"a", "v"} -> [s.c EXCEPT ![e.o] = e.a]
    [] e.op = "P" -> [s.c EXCEPT ![e.o] = s.c[e.a[1]]]
    [] e.op \in {"c", "N"} -> [s.c EXCEPT ![e.o] = <<>>]
    [] e.op \in {"C", "Z"} -> [s.c EXCEPT ![e.o] = [k \in 1..e.a[2] |-> e.a[1]]]
    [] e.op \in {"K", "Q"} -> [s.c EXCEPT ![e.a[1]] = q]
    [] e.op \in {"M", "A"} -> [s.c EXCEPT ![e.a[1]] = q, ![e.o] = <<>>]
    [] OTHER -> s.c

SeqIsFB(q, fb) == IF q = <<>> THEN fb = <<>> ELSE fb = <<q[1], q[1], q[Len(q)], q[Len(q)]>>

ContOk(q, x) == /\ x.n = Len(q)
                /\ x.e = (IF q = <<>> THEN 2 ELSE 0)
                /\ x.c = <<q>>
                /\ SeqIsFB(q, x.fb)
                /\ x.thr = 10

IterOk(x) == /\ Len(x.c) = 1
             /\ x.w = <<x.c[1]>>
             /\ x.nav = <<x.c[1] \o <<0>>>>
             /\ x.eq = 0
             /\ x.be = (IF x.c[1] = <<>> THEN 4 ELSE 0)

\* addresses: what must have stayed where it was
IsPrefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
IsSuffix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, Len(b) - Len(a) + 1, Len(b)) = a
AddrOk(s, e, ad2) ==
  LET p == s.ad[e.o]  q == ad2[e.o] IN
  /\ CASE e.op \in Backs \cup {"y"} -> IsPrefix(p, q)
       [] e.op \in Fronts \cup {"z"} -> IsSuffix(p, q)
       [] e.op = "B" -> q = DropBack(p, e.a[1])
       [] e.op = "F" -> q = DropFront(p, e.a[1])
       [] e.op = "d" -> IsPrefix(DropFront(p, Len(e.a)), q)
       [] e.op = "D" -> IsSuffix(DropBack(p, Len(e.a)), q)
       [] e.op \in {"s", "x"} -> q = p
       [] e.op \in {"M", "A"} -> ad2[e.a[1]] = p
       [] OTHER -> TRUE
  /\ \A o \in Objs : o \notin ({e.o} \cup (IF e.op \in {"K", "Q", "M", "A"} THEN {e.a[1]} ELSE {})) => ad2[o] = s.ad[o]
  /\ e.op \in {"K", "Q"} => q = p
  /\ Cardinality(UNION {Range(ad2[o]) : o \in Objs}) = Len(ad2[0]) + Len(ad2[1]) + Len(ad2[2])

Sum(f) == f[0] + f[1] + f[2]

Step(s, e) ==
  LET idx(o) == {k \in 1..Len(e.obs) : e.obs[k].o = o}
      seen(o) == idx(o) # {}
      ob(o) == e.obs[CHOOSE k \in idx(o) : TRUE]
      c2 == IF e.k = "op" THEN Content(s, e) ELSE s.c
      n2 == [o \in Objs |-> IF seen(o) THEN ob(o).n ELSE s.n[o]]
      ad2 == [o \in Objs |-> IF Judge = "ADDR" /\ seen(o) THEN ob(o).a ELSE s.ad[o]]
  IN IF /\ Keeps => \A o \in Objs : IF seen(o) THEN ContOk(c2[o], ob(o)) ELSE c2[o] = s.c[o]
        /\ Judge = "ITER" => \A o \in Objs : seen(o) => IterOk(ob(o))
        /\ Judge = "ADDR" /\ e.k = "op" => AddrOk(s, e, ad2)
        /\ Judge = "LIFE" => e.l \in {<<>>, <<Sum(n2), 0>>} /\ e.x = <<>>  \* <<>>: elements without a life to count
     THEN {[c |-> IF Keeps THEN c2 ELSE s.c, n |-> n2, ad |-> ad2]} ELSE {}

Post0(h, s, e) ==
  CASE e.k = "obs" -> Step(s, e)
    [] e.k = "op" -> IF "thrown" \in DOMAIN e THEN {}
                      ELSE IF e.op = "x" /\ e.a # <<0>> THEN {}   \* the failure was not reported
                      ELSE IF "quiet" \in DOMAIN e THEN {[s EXCEPT !.c = IF Keeps THEN Content(s, e) ELSE s.c]}
                      ELSE Step(s, e)
    [] e.k = "end" -> IF Judge = "LIFE" => e.l = <<0, 0, 0>> /\ e.x = <<>> THEN {s} ELSE {}
    [] OTHER -> {}            \* Crash (memory error), Hang
=============================================================================
