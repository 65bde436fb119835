---------------------------- MODULE ClientTrace ----------------------------
(***************************************************************************)
(* How an engine may use the parser it validates.  State: the cursor, i.e. *)
(* a stack of <<forest, index>>; the actions are the calls of the parser   *)
(* interface that were recorded, each with its enabling condition:         *)
(*   next  moves to the following sibling;  eof  only after the last one   *)
(*         and once;  err  the parser failed                               *)
(*   leaf, val (an accessor)  only at a node                               *)
(*   down  only at an inner node;  up  not at the root                     *)
(* After err no call may follow and the verdict has to be the error; else  *)
(* the verdict comes with the cursor back at the root.                     *)
(***************************************************************************)
EXTENDS TraceLib, FiniteSets

VARIABLES c, r, k, stack, state

vars == <<c, r, k, stack, state>>

Run == Cases[c].runs[r]
Top == stack[Len(stack)]
Forest == Top[1]
Idx == Top[2]                           \* 0: before the first node
AtNode == Idx >= 1 /\ Idx <= Len(Forest)
WithTop(i) == [stack EXCEPT ![Len(stack)] = <<Forest, i>>]

Enabled1(ev) ==
  /\ state = "run"
  /\ CASE ev = "next" -> Idx < Len(Forest)
       [] ev = "eof" -> Idx = Len(Forest)
       [] ev = "err" -> Idx <= Len(Forest)
       [] ev \in {"leaf", "val"} -> AtNode
       [] ev = "down" -> AtNode /\ ~Forest[Idx].leaf
       [] ev = "up" -> Len(stack) > 1
       [] OTHER -> FALSE

Begin(cc, rr) ==
  /\ c = cc /\ r = rr /\ k = 0 /\ state = "run"
  /\ stack = IF rr <= Len(Cases[cc].runs) THEN <<<<Cases[cc].runs[rr].shape, 0>>>> ELSE <<>>

Init == \E cc \in 1 .. Len(Cases) : Begin(cc, 1)

Bad(what) == Mismatch([id |-> Cases[c].id, run |-> r, at |-> k + 1, what |-> what, engine |-> Run.engine])

\* one recorded call
Call ==
  /\ r <= Len(Cases[c].runs)
  /\ k < Len(Run.log)
  /\ LET ev == Run.log[k + 1] IN
     IF ~Enabled1(ev)
     THEN Bad("call not allowed: " \o ev) /\ k' = Len(Run.log) /\ state' = "bad" /\ UNCHANGED <<c, r, stack>>
     ELSE /\ Count(1)
          /\ k' = k + 1
          /\ state' = IF ev = "err" THEN "failed" ELSE "run"
          /\ stack' = CASE ev \in {"next", "eof"} -> WithTop(Idx + 1)
                        [] ev = "down" -> Append(stack, <<Forest[Idx].c, 0>>)
                        [] ev = "up" -> SubSeq(stack, 1, Len(stack) - 1)
                        [] OTHER -> stack
          /\ UNCHANGED <<c, r>>

\* the verdict
Verdict ==
  /\ r <= Len(Cases[c].runs)
  /\ k = Len(Run.log)
  /\ CASE state = "failed" -> /\ Count(2)
                              /\ IF Run.out = "E" THEN TRUE ELSE Bad("read error not returned: " \o Run.out)
       [] state = "run" -> /\ Count(3)
                           /\ IF Run.out \in {"T", "F"} /\ Len(stack) # 1 THEN Bad("cursor not back at the root") ELSE TRUE
                           /\ IF Run.out = "P" \/ (Run.out = "E" /\ Run.plain) THEN Bad("verdict " \o Run.out) ELSE TRUE
       [] OTHER -> TRUE
  /\ c' = c /\ r' = r + 1 /\ k' = 0 /\ state' = "run"
  /\ stack' = IF r + 1 <= Len(Cases[c].runs) THEN <<<<Cases[c].runs[r + 1].shape, 0>>>> ELSE <<>>

Next == Call \/ Verdict

Done == PrintStats(<<"calls", "failed runs", "completed runs">>)
=============================================================================
