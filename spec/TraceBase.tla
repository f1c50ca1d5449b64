----------------------------- MODULE TraceBase -----------------------------
(* Generic trace acceptance: a recorded trace is a behaviour of the           *)
(* specification iff the set of specification states compatible with the      *)
(* observed prefix never becomes empty.  TLC explores all recorded traces at  *)
(* once (one initial state per trace); the invariant Accepted names the first *)
(* event that no specification behaviour explains.                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Post(_, _, _),   \* (trace header, abstract state, event) -> set of abstract states
          Start(_)         \* trace header -> set of abstract states
VARIABLES tr, i, S

Traces == ndJsonDeserialize(IOEnv.TRACE)

TInit == /\ tr \in 1..Len(Traces)
         /\ i = 0
         /\ S = Start(Traces[tr])
TNext == /\ i < Len(Traces[tr].ev)
         /\ S # {}
         /\ i' = i + 1
         /\ tr' = tr
         /\ S' = UNION {Post(Traces[tr], s, Traces[tr].ev[i + 1]) : s \in S}
TSpec == TInit /\ [][TNext]_<<tr, i, S>>
Accepted == S # {}
=============================================================================
