---------------------------- MODULE MatchTrace ----------------------------
(***************************************************************************)
(* Trace validation of the matching engines.  A trace is one grammar with  *)
(* a sequence of validations, in order, with the verdict of each engine    *)
(* ("T", "F", "E" error, "P" panic).  The specification of an engine has   *)
(* no memory: whatever it answered before, the next verdict is a function  *)
(* of (grammar, tree) alone, so the state is only the position in the      *)
(* trace, and a recorded verdict that differs is not a step of the         *)
(* specification (it is reported, and the trace goes on).                  *)
(*                                                                         *)
(* A run r: r.s the pattern of the grammar that is matched, r.t the tree,  *)
(* r.exp the verdict when it does not depend on the tree (a read error     *)
(* that the parser reported while the engine was reading), r.out verdicts. *)
(***************************************************************************)
EXTENDS Relapse, TraceLib

VARIABLES c, k

vars == <<c, k>>

Fixed(G, r) == ErrFree(G, r.t)

\* the verdicts that an engine may give on run r
Allowed(G, r) ==
  IF r.exp # "" THEN {r.exp}
  ELSE IF Fixed(G, r) THEN {IF Matches(G, G[r.s], r.t) THEN "T" ELSE "F"}
  ELSE {"T", "F", "E"}

Validate(G, r) ==
  LET ok == Allowed(G, r)
      wrong == {e \in DOMAIN r.out : r.out[e] \notin ok}
  IN /\ Count(IF r.exp # "" THEN 5 ELSE IF Fixed(G, r) THEN 1 ELSE 2)
     /\ Count(IF ok = {"T"} THEN 3 ELSE 4)
     /\ IF wrong = {} THEN TRUE ELSE Mismatch([id |-> Cases[c].id, run |-> k + 1, engines |-> wrong, allowed |-> ok])

Init == c \in 1 .. Len(Cases) /\ k = 0

Next == /\ k < Len(Cases[c].runs)
        /\ Validate(Cases[c].g, Cases[c].runs[k + 1])
        \* validating does not change the grammar
        /\ IF k = 0 /\ "same" \in DOMAIN Cases[c] /\ ~Cases[c].same
           THEN Mismatch([id |-> Cases[c].id, what |-> "the grammar was modified"]) ELSE TRUE
        /\ k' = k + 1
        /\ UNCHANGED c

Spec == Init /\ [][Next]_vars

Done == PrintStats(<<"verdict fixed", "verdict open (condition fails)", "valid", "not valid or open", "read error">>)
=============================================================================
