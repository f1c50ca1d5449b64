--------------------------- MODULE WorkBlockGen ---------------------------
(* C14: the work block specification explored exhaustively (two slots, a      *)
(* bounded number of generations and futures); every transition is emitted as *)
(* a script: the shortest path to its source and the call.                    *)
EXTENDS WorkBlockOps, TLC
CONSTANTS MaxG, MaxH, MaxN, Emit
VARIABLES d, path
vars == <<d, path>>
view == d
s(x) == ToString(x)
Go(w, t) == path' = path \o " " \o w /\ d' = t
Two == {0, 1}
Have(o) == d.b[o].st = "ok"
Init == d = Empty /\ path = ""
Next ==
  \E o \in Two :
    \/ Go(s(o) \o ":D", Default(d, o))
    \/ d.b[o].st # "none" /\ Go(s(o) \o ":n", Destroy(d, o))
    \/ \E w \in {1, 2}, h \in {"F", "T", "U", "V"} :
         /\ h \in {"U", "V"} => d.b[o].st # "none"
         /\ Go(s(o) \o ":" \o h \o ":" \o s(w) \o ":0", Load(d, o, w))
    \/ Have(o) /\ \/ Go(s(o) \o ":e", Execute(d, o, FALSE))
                  \/ Go(s(o) \o ":r", Reset(d, o))
                  \/ Go(s(o) \o ":g", Future(d, o))
                  \/ Go(s(o) \o ":v", d)
                  \/ Go(s(o) \o ":m:" \o s(1 - o), MoveTo(d, o, 1 - o))
                  \/ d.b[1 - o].st # "none" /\ Go(s(o) \o ":a:" \o s(1 - o), MoveTo(d, o, 1 - o))
Spec == Init /\ [][Next]_vars
Bound == Len(d.gs) <= MaxG /\ Len(d.hs) <= MaxH /\ \A w \in Works : d.n[w] <= MaxN
EmitEdge == Emit => PrintT("EDGE:" \o path')
---------------------------------------------------------------------------
\* a generation belongs to at most one block and holds a result iff that block finished it
OneOwner == \A o, p \in Slots : (o # p /\ d.b[o].g # 0) => d.b[o].g # d.b[p].g
FinishedIffDelivered ==
  \A o \in Slots : (d.b[o].st = "ok" /\ d.b[o].w # 0) =>
     /\ d.b[o].g # 0
     /\ d.b[o].fin <=> d.gs[d.b[o].g] > 0
     /\ ~d.b[o].fin => d.gs[d.b[o].g] = 0
\* every run is the result of exactly one generation
Results == {g \in 1..Len(d.gs) : d.gs[g] > 0}
RunsDelivered == \A w \in Works : \A k \in 1..d.n[w] : \E g \in Results : d.gs[g] = Code(FALSE, w, k)
NoneTwice == \A g, k \in Results : d.gs[g] = d.gs[k] => g = k
Orphans == \A g \in 1..Len(d.gs) : d.gs[g] = 0 => \E o \in Slots : d.b[o].g = g
\* a delivered result never changes
Stays == [][\A g \in 1..Len(d.gs) : d.gs[g] # 0 => d'.gs[g] = d.gs[g]]_vars
===========================================================================
