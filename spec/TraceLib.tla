----------------------------- MODULE TraceLib -----------------------------
(***************************************************************************)
(* What the trace specifications share: the recorded traces, the report of *)
(* a step that the specification does not allow, and counters (run TLC     *)
(* with one worker).                                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

\* always TRUE
Mismatch(rec) == PrintT("MISMATCH " \o ToJson(rec))

NCounters == 12
ASSUME \A i \in 1 .. NCounters : TLCSet(i, 0)

\* always TRUE
Count(i) == TLCSet(i, TLCGet(i) + 1)

PrintStats(names) ==
  PrintT("STATS " \o ToJson([i \in 1 .. Len(names) |-> [name |-> names[i], n |-> TLCGet(i)]]))
=============================================================================
