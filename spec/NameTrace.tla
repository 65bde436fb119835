----------------------------- MODULE NameTrace -----------------------------
(***************************************************************************)
(* Name expressions: evaluated directly (eval), as a function (func), and  *)
(* turned into a function and back into a name expression (back).  A case  *)
(* has a name expression (r.n), or a function of the kind that names are   *)
(* made of (r.e), which need not have a name (r.n = <<>>).  The same       *)
(* function is used for all labels r.ls.                                   *)
(***************************************************************************)
EXTENDS Relapse, TraceLib

VARIABLES c, m

Want(r, l) == IF r.n # <<>> THEN NameOK(r.n[1], l) ELSE Truth(r.e[1], l)

Judge(r, made) ==
  IF made.made # "ok"
  THEN /\ Count(IF made.made = "error" THEN 1 ELSE 2)
       /\ IF r.n = <<>> /\ made.via = "back" /\ made.made = "error" THEN TRUE
          ELSE Mismatch([id |-> r.id, via |-> made.via, what |-> "not made: " \o made.made])
  ELSE \A i \in 1 .. Len(r.ls) :
         LET want == Want(r, r.ls[i]) IN
         /\ Count(IF want THEN 3 ELSE 4)
         /\ IF made.via = "back" /\ r.n = <<>> THEN Count(5) ELSE TRUE
         /\ IF made.outs[i].panic \/ made.outs[i].v # <<want>>
            THEN Mismatch([id |-> r.id, via |-> made.via, label |-> i, got |-> made.outs[i], want |-> want]) ELSE TRUE

Init == c \in 1 .. Len(Cases) /\ m = 0
Next == /\ m < Len(Cases[c].made)
        /\ Judge(Cases[c], Cases[c].made[m + 1])
        /\ m' = m + 1 /\ UNCHANGED c

Done == PrintStats(<<"functions without a name", "panics", "true", "false", "names of functions">>)
=============================================================================
