----------------------------- MODULE TypeTrace -----------------------------
(***************************************************************************)
(* Which expressions are accepted.  TypeOf is the type system of condition *)
(* expressions (see Typing); a trace is one expression that was composed in several     *)
(* ways, and each outcome has to be the one that the type system allows:   *)
(* "ok" for a well typed expression, "error" for any other.                *)
(***************************************************************************)
EXTENDS Typing, TraceLib

VARIABLES c, m

Judge(r, x) ==
  LET ok == Allowed(r.e) IN
  /\ Count(IF ok = {"ok"} THEN 1 ELSE IF ok = {"error"} THEN 2 ELSE 3)
  /\ IF x.made \in ok THEN TRUE ELSE Mismatch([id |-> r.id, via |-> x.via, got |-> x.made, allowed |-> ok, type |-> TypeOf(r.e)])
  /\ IF ok = {"ok"} /\ x.which \notin {"", "bool"} THEN Mismatch([id |-> r.id, via |-> x.via, which |-> x.which]) ELSE TRUE

Init == c \in 1 .. Len(Cases) /\ m = 1
Next == /\ m <= Len(Cases[c].made)
        /\ Judge(Cases[c], Cases[c].made[m])
        /\ m' = m + 1 /\ UNCHANGED c

Done == PrintStats(<<"well typed", "ill typed", "open">>)
=============================================================================
