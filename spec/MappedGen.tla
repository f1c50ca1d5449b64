------------------------------ MODULE MappedGen ------------------------------
(* The mapped containers' abstract specification explored exhaustively for a  *)
(* small universe; every transition is emitted as a script (the shortest path *)
(* to its source plus the call) that is then played on every class.           *)
EXTENDS MappedOps, TLC
CONSTANTS Dual, K, MaxN, HasIdx, HasTerm, Unnamed, Removal, Stab, Emit

VARIABLES d, path
vars == <<d, path>>
\* element values do not matter for where terms lead
view == <<N(d), d.m1, d.m2>>
Ts == 0..(K - 1)
Opt == -1..(K - 1)
T2 == IF Dual THEN Opt ELSE {-1}
Kinds == IF Dual THEN {1, 2} ELSE {1}
s(x) == ToString(x)

Init == d = Empty(Ts) /\ path = ""
Go(w, outs) == /\ path' = path \o " 0:" \o w
               /\ \E x \in outs : d' = x[1]
Next ==
  \/ \E t1 \in Opt, t2 \in T2 :
        /\ N(d) < MaxN
        /\ (t1 < 0 /\ t2 < 0) => Unnamed
        /\ \/ Go("i:" \o s(t1) \o ":" \o s(t2) \o ":0", Insert(d, t1, t2, N(d)))
           \/ (t1 >= 0 \/ t2 >= 0) /\ Go("j:" \o s(t1) \o ":" \o s(t2) \o ":0", Assign(d, t1, t2, N(d)))
  \/ HasIdx /\ \E k \in Kinds, t \in Ts, x \in 0..MaxN : Go("x:" \o s(k) \o ":" \o s(t) \o ":" \o s(x), AddIdx(d, k, t, x))
  \/ HasTerm /\ \E k, k2 \in Kinds, t, t2 \in Ts :
        Go("y:" \o s(k) \o ":" \o s(t) \o ":" \o s(k2) \o ":" \o s(t2), AddTerm(d, k, t, k2, t2))
  \/ Removal /\ \E x \in 0..MaxN : Go("R:" \o s(x), {<<RemoveAt(d, x, Stab), 0>>})
  \/ Removal /\ \E k \in Kinds, t \in Ts : Go("r:" \o s(k) \o ":" \o s(t), {<<RemoveTerm(d, k, t, Stab), 0>>})
  \/ Removal /\ Go("c", {<<Empty(Ts), 0>>})
Spec == Init /\ [][Next]_vars
EmitEdge == Emit => PrintT("EDGE:" \o path')
---------------------------------------------------------------------------
Inv == Sound(d)
\* removal: number the elements by position and follow every term
RemovalRight ==
  \A x \in 0..(N(d) - 1) :
    LET D == [d EXCEPT !.q = [k \in 1..N(d) |-> k]]
        R == RemoveAt(D, x, Stab)
    IN /\ \A k \in Kinds, t \in Ts :
            LET y == Map(d, k)[t] IN
            IF y = x \/ y = -1 THEN Map(R, k)[t] = -1 ELSE R.q[Map(R, k)[t] + 1] = y + 1
       /\ (~Stab \/ x = N(d) - 1) => N(R) = N(d) - 1 /\ \A k \in 1..N(R) : R.q[k] # x + 1
       /\ Sound(R)
\* a refused or ineffective call changes nothing, an insertion binds only what was named
OnlyNamed ==
  \A t1 \in Opt, t2 \in T2 : \A o \in Insert(d, t1, t2, 0) :
    /\ o[2] = -1 => o[1] = d
    /\ o[2] # -1 => o[2] = N(d) /\ \A t \in Ts : (t # t1 => o[1].m1[t] = d.m1[t]) /\ (t # t2 => o[1].m2[t] = d.m2[t])
    /\ o[2] # -1 => (t1 >= 0 => Bound(o[1].m1, t1)) /\ (t2 >= 0 => Bound(o[1].m2, t2))
=============================================================================
