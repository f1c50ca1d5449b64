--------------------------- MODULE WorkQueueTrace ---------------------------
(* Conformance of recorded schedules to WorkQueueOps. *)
EXTENDS WorkQueueOps, TraceBase
=============================================================================
