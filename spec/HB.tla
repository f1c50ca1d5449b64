--------------------------------- MODULE HB ---------------------------------
(* C10: happens-before of the C++ memory model as a state machine over logs   *)
(* of the synchronisation and storage accesses the real code performs.        *)
(*   clk[t]   vector clock of thread t                                        *)
(*   rel[o]   clock released by mutex or atomic object o                      *)
(*   facq[t]  clocks seen by relaxed loads (an acquire fence acquires them)   *)
(*   frel[t]  clock of the last release fence (relaxed stores release it)     *)
(*   wr[x]    epoch <<t, c>> of the last write of storage x                   *)
(*   rd[x]    per thread, clock of its last read of storage x                 *)
(* Only mutexes, atomics with their actual memory orders, fences, thread      *)
(* start and join order anything.  A trace is accepted iff no two conflicting *)
(* accesses are unordered.                                                    *)
EXTENDS TraceBase

T(h) == 0..(h.n - 1)
Zero(h) == [t \in T(h) |-> 0]
Max(a, b) == IF a > b THEN a ELSE b
Join(h, a, b) == [t \in T(h) |-> Max(a[t], b[t])]
NoF == [x \in {} |-> 0]
Get(f, x, d) == IF x \in DOMAIN f THEN f[x] ELSE d
Put(f, x, v) == [y \in (DOMAIN f) \cup {x} |-> IF y = x THEN v ELSE f[y]]

StartHB(h) == {[clk |-> [t \in T(h) |-> [u \in T(h) |-> IF u = t THEN 1 ELSE 0]],
                rel |-> NoF, facq |-> [t \in T(h) |-> Zero(h)], frel |-> [t \in T(h) |-> Zero(h)],
                wr |-> NoF, rd |-> NoF]}

Tick(s, t) == [s EXCEPT !.clk[t][t] = @ + 1]
Acq(h, s, t, o) == [s EXCEPT !.clk[t] = Join(h, @, Get(s.rel, o, Zero(h)))]
IsAcq(x) == x % 2 = 1
IsRel(x) == x \div 2 = 1

Load(h, s, t, o, x) == IF IsAcq(x) THEN Acq(h, s, t, o)
                       ELSE [s EXCEPT !.facq[t] = Join(h, @, Get(s.rel, o, Zero(h)))]
Out(s, t, x) == IF IsRel(x) THEN s.clk[t] ELSE s.frel[t]

PostHB(h, s, e) ==
  LET t == e.t  o == e.o IN
  CASE e.k = "acq"  -> {Acq(h, s, t, o)}
    [] e.k = "rel"  -> {Tick([s EXCEPT !.rel = Put(@, o, s.clk[t])], t)}
    \* a reader's unlock orders it before later writers, not before other readers: joining is what the
    \* standard guarantees to the next exclusive owner
    [] e.k = "rrel" -> {Tick([s EXCEPT !.rel = Put(@, o, Join(h, Get(@, o, Zero(h)), s.clk[t]))], t)}
    [] e.k = "ald"  -> {Load(h, s, t, o, e.x)}
    [] e.k = "ast"  -> {Tick([s EXCEPT !.rel = Put(@, o, Out(s, t, e.x))], t)}
    [] e.k = "rmw"  -> LET l == Load(h, s, t, o, e.x) IN
                       {Tick([l EXCEPT !.rel = Put(@, o, Join(h, Get(@, o, Zero(h)), Out(l, t, e.x)))], t)}
    [] e.k = "fence" -> LET a == IF IsAcq(e.x) THEN [s EXCEPT !.clk[t] = Join(h, @, s.facq[t])] ELSE s
                        IN {IF IsRel(e.x) THEN Tick([a EXCEPT !.frel[t] = a.clk[t]], t) ELSE a}
    [] e.k = "fork" -> {Tick([s EXCEPT !.clk[o] = Join(h, @, s.clk[t])], t)}
    [] e.k = "join" -> {[s EXCEPT !.clk[t] = Join(h, @, s.clk[o])]}
    [] e.k = "rd"   -> LET w == Get(s.wr, o, <<t, 0>>) IN
                       IF w[2] > s.clk[t][w[1]] THEN {}
                       ELSE {[s EXCEPT !.rd = Put(@, o, [Get(s.rd, o, Zero(h)) EXCEPT ![t] = s.clk[t][t]])]}
    [] e.k = "wr"   -> LET w == Get(s.wr, o, <<t, 0>>)  r == Get(s.rd, o, Zero(h)) IN
                       IF w[2] > s.clk[t][w[1]] \/ (\E u \in T(h) : r[u] > s.clk[t][u]) THEN {}
                       ELSE {[s EXCEPT !.wr = Put(@, o, <<t, s.clk[t][t]>>), !.rd = Put(@, o, Zero(h))]}
    [] OTHER -> {}
=============================================================================
