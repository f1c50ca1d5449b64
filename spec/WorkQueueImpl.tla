--------------------------- MODULE WorkQueueImpl ---------------------------
(* WorkQueue as it is built: three two-vector queues (h m l), the worker      *)
(* loop, submission (push, pass through the queue lock, notify), taking with  *)
(* the medium counter, closing.  A step runs a thread from one point of       *)
(* synchronisation (lock, atomic, wait, notify, join, flag) to the next.      *)
(* s is the state of WorkQueueOps reached with the events so far, ok that     *)
(* each was allowed.  Paths (thread ids) become schedules for the real code.  *)
EXTENDS WorkQueueOps, TLC, Json, IOUtils
CONSTANTS Spurious,   \* budget of spurious wake-ups
          Timeouts,   \* budget of timeouts while something else can run
          Emit
VARIABLES g, s, ok, path
vars == <<g, s, ok, path>>

\* w workers; p[1]: calls of the main thread before the submitters start, p[2].. the submitters
Scens == JsonDeserialize(IOEnv.SCENS)
W(x) == Scens[x.sc].w
P(x) == Scens[x.sc].p
T == DOMAIN g.th
IsWorker(x, t) == t >= 1 /\ t <= W(x)
Prog(x, t) == P(x)[IF t = 0 THEN 1 ELSE t - W(x) + 1]
Subs(x) == {t \in DOMAIN x.th : t > W(x)}
HasClose(n) == \E a \in 1..Len(Scens[n].p) : \E b \in 1..Len(Scens[n].p[a]) : Scens[n].p[a][b].o = "close"
Over(x, t) == x.th[t].k > Len(Prog(x, t))
OpOf(x, t) == IF Over(x, t) THEN [o |-> "destroy"] ELSE Prog(x, t)[x.th[t].k]
\* block ids: a vector has n of them
Id(t, k, j) == 100 * (t + 1) + 10 * k + j
GateOf(x, b) == Prog(x, b \div 100 - 1)[(b \div 10) % 10].gs[(b % 10) + 1]
Ids(x, t) == LET o == OpOf(x, t) IN [j \in 1..o.n |-> Id(t, x.th[t].k, j - 1)]
Dummy == 0
None == -1
Q3 == {"h", "m", "l"}
Rev(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]

Start0(n) ==
  LET w == Scens[n].w  ts == 0..(w + Len(Scens[n].p) - 1) IN
  [sc |-> n, pu |-> [q \in Q3 |-> <<>>], pl |-> [q \in Q3 |-> <<>>], fl |-> [q \in Q3 |-> TRUE],
   Lu |-> [q \in Q3 |-> -1], Ll |-> [q \in Q3 |-> -1], LQ |-> -1,
   halt |-> FALSE, med |-> 0, ratio |-> DefaultRatio, ws |-> {}, gate |-> {}, jn |-> {},
   th |-> [t \in ts |-> [pc |-> IF t >= 1 /\ t <= w THEN "L0" ELSE "op", k |-> 1, q |-> "", c |-> "", v |-> None, a |-> <<>>, n |-> 0]],
   sp |-> Spurious, tb |-> Timeouts]

Goto(x, t, p) == [x EXCEPT !.th[t].pc = p]
Free(x, t) == [x EXCEPT !.Lu = [q \in Q3 |-> IF @[q] = t THEN -1 ELSE @[q]], !.Ll = [q \in Q3 |-> IF @[q] = t THEN -1 ELSE @[q]],
                        !.LQ = IF @ = t THEN -1 ELSE @]
FreeU(x, q) == [x EXCEPT !.Lu[q] = -1]
FreeL(x, q) == [x EXCEPT !.Ll[q] = -1]
FreeQ(x) == [x EXCEPT !.LQ = -1]
Out(x, ev) == [x |-> x, ev |-> ev]
Also(ev, r) == [x |-> r.x, ev |-> ev \o r.ev]
Ev(k, t) == [k |-> k, t |-> t]

\* ---- between points
\* the gates opened next, which are not points of their own
RECURSIVE Open(_, _)
Open(x, t) == IF Over(x, t) \/ OpOf(x, t).o # "open" THEN x
              ELSE Open([x EXCEPT !.gate = @ \cup {OpOf(x, t).g}, !.th[t].k = @ + 1], t)
\* where the main thread goes after its calls: join the submitters, open all gates, wait for the blocks, destroy
AllOpen(x) == [Goto(x, 0, IF HasClose(x.sc) THEN "D0" ELSE "F") EXCEPT !.gate = 1..9, !.th[0].n = 0]
AfterCalls(x) == IF Subs(x) # {} THEN [x EXCEPT !.th[0].pc = "J", !.th[0].n = W(x) + 1] ELSE AllOpen(x)
Destroy == <<[k |-> "i", t |-> 0, op |-> "destroy", a |-> <<>>]>>
\* t goes to its next call
Proceed(x0, t, e) ==
  LET x == Open(x0, t) IN
  IF Over(x, t) THEN IF t # 0 THEN Out(Goto(x, t, "done"), e)
                     ELSE LET u == AfterCalls(x) IN Out(u, e \o IF u.th[0].pc = "D0" THEN Destroy ELSE <<>>)
  ELSE Out(Goto(x, t, IF OpOf(x, t).o = "idle" THEN "ID" ELSE "op"), e)
Ret(x, t, r) ==
  LET y == Free(x, t)
      e == <<[k |-> "r", t |-> t, r |-> r]>>
  IN IF Over(x, t) THEN Out(Goto(y, t, "done"), e)            \* the destructor has returned
     ELSE Proceed([y EXCEPT !.th[t].k = @ + 1, !.th[t].q = "", !.th[t].c = "", !.th[t].v = None, !.th[t].a = <<>>, !.th[t].n = 0], t, e)

Call1(x, t, q, c) == [x EXCEPT !.th[t].q = q, !.th[t].c = c, !.th[t].v = None, !.th[t].pc = "T1"]   \* q.pop()
PushTo(x, t, q, a, c) == [x EXCEPT !.th[t].q = q, !.th[t].a = a, !.th[t].c = c, !.th[t].pc = "U1"]  \* q.push(a)

\* a worker has block v (or none) and goes on
Execute(x, t, v) ==
  IF v \in {None, Dummy} THEN Out(Goto(x, t, "L0"), <<>>)
  ELSE LET e == <<[k |-> "st", t |-> 100 + t, b |-> v, w |-> 1]>>
       IN IF GateOf(x, v) # 0 THEN Out([Goto(x, t, "G") EXCEPT !.th[t].v = v], e)
          ELSE Out([Goto(x, t, "L0") EXCEPT !.th[t].v = None], e \o <<[k |-> "en", t |-> 100 + t, b |-> v]>>)
Got(x, t, v) == LET y == [x EXCEPT !.th[t].q = "", !.th[t].c = "", !.th[t].v = None] IN
                IF IsWorker(x, t) THEN Execute(y, t, v) ELSE Ret(y, t, <<IF v = None THEN 0 ELSE v>>)
\* pop returned v
Popped(x0, t, v) ==
  LET c == x0.th[t].c  x == FreeL(x0, x0.th[t].q) IN
  CASE c = "h" -> IF v # None THEN Got(x, t, v) ELSE Out(Goto(x, t, "M1"), <<>>)
    [] c = "lr" -> IF v # None THEN Out([Goto(x, t, "M3") EXCEPT !.th[t].v = v], <<>>) ELSE Out(Call1(x, t, "m", "m"), <<>>)
    [] c = "m" -> IF v # None THEN Out([Goto(x, t, "M4") EXCEPT !.th[t].v = v], <<>>) ELSE Out(Call1(x, t, "l", "l"), <<>>)
    [] c = "l" -> Got(x, t, v)
\* checkPullandSwap, before (v = None) and after the element was taken
Check(x, t) == IF x.pl[x.th[t].q] = <<>> THEN Out(Goto(x, t, "CL"), <<>>)
               ELSE IF x.th[t].v = None THEN Out(Goto(x, t, "SA"), <<>>) ELSE Popped(x, t, x.th[t].v)
Swapped(x, t) == IF x.th[t].v = None THEN Out(Goto(x, t, "SA"), <<>>) ELSE Popped(x, t, x.th[t].v)
GetWork(x, t) == Out(Call1(x, t, "h", "h"), <<>>)

Closing(x, t) == OpOf(x, t).o \in {"close", "destroy"}
Pushed(x, t) == Out(Goto(x, t, "S1"), <<>>)
\* the next dummy block, or the last notification
NextDummy(x, t) == IF x.th[t].n < W(x) THEN Out(PushTo([x EXCEPT !.th[t].n = @ + 1], t, "h", <<Dummy>>, ""), <<>>)
                   ELSE Out(Goto(x, t, "XB"), <<>>)
Notified(x, t) == IF Closing(x, t) THEN NextDummy(x, t) ELSE Ret(x, t, <<>>)
Wake(x, u) == [x EXCEPT !.ws = @ \ {u}, !.th[u].pc = "RL"]
WakeAll(x) == [x EXCEPT !.ws = {}, !.th = [u \in DOMAIN @ |-> IF u \in x.ws THEN [@[u] EXCEPT !.pc = "RL"] ELSE @[u]]]
ClearNext(q) == CASE q = "h" -> "m" [] q = "m" -> "l"

First(o) == CASE o = "add" -> "U1" [] o = "take" -> "T1" [] o = "close" -> "Xq" [] o = "empty" -> "I1" [] o = "ratio" -> "R" [] o = "wcount" -> "WC"
NeedU == {"U1", "U3", "CL", "c2"}
NeedL == {"U2", "T1", "c1"}
NeedQ == {"QL", "RL", "S1", "Xq"}
AllDone(x, a) == a.sub \subseteq a.ended \cup a.taken
Started(x, t) == IsWorker(x, t) \/ t = 0 \/ x.th[0].k > Len(P(x)[1])
En(x, t, a) ==
  LET pc == x.th[t].pc  q == x.th[t].q IN
  /\ Started(x, t) /\ pc \notin {"done", "wait", "ID"}
  /\ pc \in NeedU => x.Lu[q] = -1
  /\ pc \in NeedL => x.Ll[q] = -1
  /\ pc \in NeedQ => x.LQ = -1
  /\ pc = "G" => GateOf(x, x.th[t].v) \in x.gate
  /\ pc = "J" => x.th[x.th[t].n].pc = "done"
  /\ pc = "Xj" => x.th[x.th[t].n].pc = "done"
  /\ pc = "F" => AllDone(x, a)

Busy(x, a) == \E u \in DOMAIN x.th : En(x, u, a)
\* a call that waits until nothing else can run
Idles(x, t) == Started(x, t) /\ x.th[t].pc = "ID"
Idle(x, t, a) == Idles(x, t) /\ ~Busy(x, a) /\ \A u \in DOMAIN x.th : Idles(x, u) => t <= u

Nonempty(x, t) == CASE IsWorker(x, t) -> (LET y == IF x.LQ = t THEN FreeQ(x) ELSE x IN GetWork(y, t))
                    [] OTHER -> Ret(x, t, <<0>>)
\* only one thread closes: the workers are joined once
JoinAll(x, t) == IF \A u \in DOMAIN x.th : IsWorker(x, u) => u \in x.jn THEN Ret(x, t, <<>>) ELSE Out([Goto(x, t, "Xj") EXCEPT !.th[t].n = 1], <<>>)

\* the action at the point of t (enabled); u is the waiter a notify_one wakes
Act(x0, t, u) ==
  LET pc == x0.th[t].pc
      q == x0.th[t].q
      a == x0.th[t].a
      x == IF pc \in NeedU THEN [x0 EXCEPT !.Lu[q] = t] ELSE IF pc \in NeedL THEN [x0 EXCEPT !.Ll[q] = t]
           ELSE IF pc \in NeedQ THEN [x0 EXCEPT !.LQ = t] ELSE x0
  IN CASE pc = "L0" -> Out(Goto(x, t, IF x.halt THEN "done" ELSE "I1"), <<>>)
       [] pc = "I1" -> IF x.fl["h"] THEN Out(Goto(x, t, "I2"), <<>>) ELSE Nonempty(x, t)
       [] pc = "I2" -> IF x.fl["m"] THEN Out(Goto(x, t, "I3"), <<>>) ELSE Nonempty(x, t)
       [] pc = "I3" -> IF ~x.fl["l"] THEN Nonempty(x, t)
                       ELSE IF ~IsWorker(x, t) THEN Ret(x, t, <<1>>)
                       ELSE IF x.LQ = t THEN Out(Goto(x, t, "W"), <<>>) ELSE Out(Goto(x, t, "QL"), <<>>)
       [] pc = "QL" -> Out(Goto(x, t, "H1"), <<>>)
       [] pc = "H1" -> IF x.halt THEN Out(Goto(FreeQ(x), t, "done"), <<>>) ELSE Out(Goto(x, t, "I1"), <<>>)
       [] pc = "W"  -> Out(Goto(FreeQ([x EXCEPT !.ws = @ \cup {t}]), t, "wait"), <<>>)
       [] pc = "RL" -> Out(Goto(x, t, "H2"), <<>>)
       [] pc = "H2" -> IF x.halt THEN Out(Goto(FreeQ(x), t, "done"), <<>>) ELSE GetWork(FreeQ(x), t)
       [] pc = "T1" -> Check(x, t)
       [] pc = "CL" -> IF x.pu[q] # <<>> THEN Swapped(FreeU([x EXCEPT !.pl[q] = Rev(x.pu[q]), !.pu[q] = <<>>], q), t)
                       ELSE Out(Goto(x, t, "CA"), <<>>)
       [] pc = "CA" -> Swapped(FreeU([x EXCEPT !.fl[q] = TRUE], q), t)
       [] pc = "SA" -> IF x.fl[q] THEN Popped(x, t, None)
                       ELSE LET L == Len(x.pl[q])
                            IN Check([x EXCEPT !.th[t].v = x.pl[q][L], !.pl[q] = SubSeq(@, 1, L - 1)], t)
       [] pc = "M1" -> Out([Goto(x, t, "M2") EXCEPT !.th[t].n = x.med], <<>>)
       [] pc = "M2" -> LET y == [x EXCEPT !.th[t].n = 0]
                       IN IF x.th[t].n >= x.ratio THEN Out(Goto(y, t, "E1"), <<>>) ELSE Out(Call1(y, t, "m", "m"), <<>>)
       [] pc = "E1" -> IF x.fl["l"] THEN Out(Call1(x, t, "m", "m"), <<>>) ELSE Out(Call1(x, t, "l", "lr"), <<>>)
       [] pc = "M3" -> Got([x EXCEPT !.med = 0], t, x.th[t].v)
       [] pc = "M4" -> Got([x EXCEPT !.med = @ + 1], t, x.th[t].v)
       [] pc = "G"  -> Out([Goto(x, t, "L0") EXCEPT !.th[t].v = None], <<[k |-> "en", t |-> 100 + t, b |-> x.th[t].v]>>)
       [] pc = "U1" -> IF x.pu[q] = <<>> THEN Out(Goto(FreeU(x, q), t, "U2"), <<>>) ELSE Pushed(FreeU([x EXCEPT !.pu[q] = @ \o a], q), t)
       [] pc = "U2" -> IF x.pl[q] = <<>> THEN Out(Goto([x EXCEPT !.pl[q] = Rev(a)], t, "A3"), <<>>) ELSE Out(Goto(x, t, "U3"), <<>>)
       [] pc = "U3" -> Pushed(FreeL(FreeU([x EXCEPT !.pu[q] = @ \o a], q), q), t)
       [] pc = "A3" -> Pushed(FreeL([x EXCEPT !.fl[q] = FALSE], q), t)
       [] pc = "S1" -> Out(Goto(FreeQ(x), t, IF ~Closing(x, t) /\ OpOf(x, t).all THEN "NA" ELSE "N1"), <<>>)
       [] pc = "N1" -> Notified(IF u = -1 THEN x ELSE Wake(x, u), t)
       [] pc = "NA" -> Notified(WakeAll(x), t)
       [] pc = "R"  -> Ret([x EXCEPT !.ratio = IF OpOf(x, t).n > 0 THEN OpOf(x, t).n ELSE DefaultRatio], t, <<>>)
       [] pc = "WC" -> Ret(x, t, <<IF x.halt THEN 0 ELSE W(x)>>)
       [] pc = "J"  -> LET y == IF x.th[t].n + 1 \in DOMAIN x.th THEN [x EXCEPT !.th[t].n = @ + 1]
                                ELSE AllOpen(x)
                       IN Out(y, IF y.th[t].pc = "D0" THEN Destroy ELSE <<>>)
       [] pc = "F"  -> Out(Goto(x, t, "D0"), <<[k |-> "rest"]>> \o Destroy)
       [] pc = "ID" -> Proceed([x EXCEPT !.th[t].k = @ + 1], t, <<[k |-> "idle"]>>)
       [] pc = "D0" -> IF x.halt THEN Ret(x, t, <<>>) ELSE Out(Goto(x, t, "Xq"), <<>>)
       [] pc = "Xq" -> Out(Goto(x, t, "X1"), <<>>)
       [] pc = "X1" -> IF x.halt THEN JoinAll(x, t) ELSE Out(Goto(x, t, "X2"), <<>>)   \* the lock is kept while joining
       [] pc = "X2" -> Out([Goto(FreeQ([x EXCEPT !.halt = TRUE]), t, "c1") EXCEPT !.th[t].q = "h"], <<>>)
       [] pc = "c1" -> Out(Goto(x, t, "c2"), <<>>)
       [] pc = "c2" -> Out(Goto([x EXCEPT !.pl[q] = <<>>, !.pu[q] = <<>>], t, "c3"), <<>>)
       [] pc = "c3" -> LET y == FreeU(FreeL([x EXCEPT !.fl[q] = TRUE], q), q)
                       IN IF q = "l" THEN Out([Goto(y, t, "XA") EXCEPT !.th[t].q = ""], <<>>)
                          ELSE Out([Goto(y, t, "c1") EXCEPT !.th[t].q = ClearNext(q)], <<>>)
       [] pc = "XA" -> NextDummy(WakeAll(x), t)
       [] pc = "XB" -> JoinAll(WakeAll(x), t)
       [] pc = "Xj" -> LET y == [x EXCEPT !.jn = @ \cup {x.th[t].n}]
                       IN IF x.th[t].n = W(x) THEN Ret(y, t, <<>>) ELSE Out([y EXCEPT !.th[t].n = @ + 1], <<>>)

\* ---- the abstract state after the events; the waiting sequences only serve the selection rule
Slim(a) == [a EXCEPT !.hi = <<>>, !.me = <<>>, !.lo = <<>>, !.cnt = 0]
Head1 == [cap |-> W(g)]
RECURSIVE Explain(_, _)
Explain(S, ev) == IF ev = <<>> THEN S ELSE Explain(UNION {PostW(Head1, a, Head(ev)) : a \in S}, Tail(ev))

OpName(o) == CASE o.o = "add" -> "add" \o o.q [] o.o = "empty" -> "isempty" [] OTHER -> o.o
Step(t, u) ==
  IF g.th[t].pc # "op" THEN Act(g, t, u)
  ELSE LET o == OpOf(g, t)
           i == <<[k |-> "i", t |-> t, op |-> OpName(o), a |-> IF o.o = "add" THEN Ids(g, t) ELSE IF o.o = "ratio" THEN <<o.n>> ELSE <<>>]>>
           y == CASE o.o = "add" -> PushTo(g, t, o.q, Ids(g, t), "") [] o.o = "take" -> Call1(g, t, "h", "h") [] OTHER -> Goto(g, t, First(o.o))
       IN IF En(y, t, s) THEN Also(i, Act(y, t, u)) ELSE Out(y, i)

Take(t) ==
  /\ En(g, t, s) \/ Idle(g, t, s)
  /\ \E u \in (IF g.th[t].pc = "N1" /\ g.ws # {} THEN g.ws ELSE {-1}) :
       LET r == Step(t, u)  S == Explain({s}, r.ev)
       IN /\ g' = r.x
          /\ ok' = (S # {})
          /\ s' = IF S # {} THEN Slim(CHOOSE a \in S : TRUE) ELSE s
          /\ path' = path \o " " \o ToString(t) \o (IF u # -1 /\ Cardinality(g.ws) > 1 THEN " " \o ToString(u) ELSE "")

Spur(t) == /\ g.th[t].pc = "wait" /\ g.sp > 0 /\ Busy(g, s)
           /\ g' = [Wake(g, t) EXCEPT !.sp = @ - 1]
           /\ UNCHANGED <<s, ok>> /\ path' = path \o " " \o ToString(100 + t)   \* 100: spurious
Timeout(t) == /\ g.th[t].pc = "wait" /\ g.tb > 0 /\ Busy(g, s)
              /\ g' = [Wake(g, t) EXCEPT !.tb = @ - 1]
              /\ UNCHANGED <<s, ok>> /\ path' = path \o " " \o ToString(t)

RECURSIVE BeginSubs(_, _)
BeginSubs(x, t) == IF t \notin DOMAIN x.th THEN x ELSE BeginSubs(Proceed(x, t, <<>>).x, t + 1)
Begin(n) == LET x == Start0(n) IN Proceed(BeginSubs(x, W(x) + 1), 0, <<>>).x
Init == /\ \E n \in 1..Len(Scens) : g = Begin(n)
        /\ s = LET a == CHOOSE b \in StartW([cap |-> 0]) : TRUE
               IN IF g.th[0].pc = "D0" THEN Slim(CHOOSE b \in PostW(Head1, a, Destroy[1]) : TRUE) ELSE a
        /\ ok = TRUE /\ path = ""
Next == \E t \in T : Take(t) \/ Spur(t) \/ Timeout(t)
Spec == Init /\ [][Next]_vars
EmitEdge == Emit => PrintT("EDGE:" \o ToString(g.sc) \o path')
NoPath == <<g, s, ok>>
NoHistory == <<[g EXCEPT !.tb = 0]>>
---------------------------------------------------------------------------
Allowed == ok
\* only timeouts can make something happen
Still == ~Busy(g, s) /\ ~\E t \in T : Idles(g, t)
Finished == g.th[0].pc = "done"
\* C35: nobody sleeps while work is waiting; C13: closing is not stuck; C11: no block is forgotten
Wakes == Still /\ ~Finished => WakeOK(Head1, s)
Closes1 == Still /\ ~Finished => CloseOK(s)
Forgets == Still /\ ~Finished => OnceOK(s)
\* the queues are not left with something to do behind an empty flag
Flags == Still => \A q \in Q3 : g.fl[q] = (g.pl[q] = <<>> /\ g.pu[q] = <<>>)
\* the destructor leaves no worker behind
Gone == Finished => \A t \in T : g.th[t].pc = "done"
=============================================================================
