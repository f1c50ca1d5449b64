---------------------------- MODULE MapFindGen ----------------------------
(* C33: every map content over a small universe, emitted as a script, and the *)
(* algebra the lookup function has to obey, checked on every content.         *)
EXTENDS MapFindOps, Sequences, TLC
CONSTANTS Keys, Values, Emit
VARIABLE m
Init == m \in UNION {[D -> Values] : D \in SUBSET Keys}
Spec == Init /\ [][FALSE]_m
RECURSIVE Render(_, _)
Render(f, D) == IF D = {} THEN ""
                ELSE LET k == CHOOSE x \in D : TRUE
                     IN " " \o ToString(k) \o "=" \o ToString(f[k]) \o Render(f, D \ {k})
EmitAll == Emit => PrintT("EDGE:" \o Render(m, DOMAIN m))
\* the answer with a default is the answer without one where there is one, whatever the mapped value
Algebra == \A k \in Keys, d \in Values :
             /\ Find(m, k, d) = (IF Opt(m, k)[1] = 1 THEN Opt(m, k)[2] ELSE d)
             /\ Opt(m, k)[1] = 0 => \A d2 \in Values : Find(m, k, d2) = d2
             /\ Opt(m, k)[1] = 1 => \A d2 \in Values : Find(m, k, d2) = Find(m, k, d)
=============================================================================
