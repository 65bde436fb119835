------------------------------- MODULE EncLib -------------------------------
(***************************************************************************)
(* What the specifications of the encoders share.  A trace r is one call   *)
(* of an encoder: r.tree is the forest that the parser presented, r.failed *)
(* whether the parser reported a read error to it, r.bad the calls that it *)
(* was not entitled to make, r.out ok, err or panic.                       *)
(***************************************************************************)
EXTENDS Forests, Base64, TraceLib

VARIABLES c, k

\* the accessor that counts: the first one that has a value
Order == <<"int", "uint", "double", "bool", "string", "bytes">>
Chosen(l) == IF \E i \in 1 .. 6 : l[Order[i]] # <<>>
             THEN Order[CHOOSE i \in 1 .. 6 : l[Order[i]] # <<>> /\ \A j \in 1 .. i - 1 : l[Order[j]] = <<>>]
             ELSE "none"

Inf == <<4193280, 0, 0>>
NegInf == <<1023, 2097151, 2097151>>
IsFinite(d) == d # NaN /\ d # Inf /\ d # NegInf

\* want: what has to come out: "ok" with right, "err", or "any"
Judge(r, want, right) ==
  /\ Count(IF r.failed THEN 1 ELSE IF want = "ok" THEN 2 ELSE IF want = "err" THEN 3 ELSE 4)
  /\ IF r.out = "panic" THEN Mismatch([id |-> r.id, what |-> "panic", detail |-> r.detail])
     ELSE IF r.failed THEN (IF r.out = "err" THEN TRUE ELSE Mismatch([id |-> r.id, what |-> "a read error is lost"]))
     ELSE IF want = "err" THEN (IF r.out = "err" THEN TRUE ELSE Mismatch([id |-> r.id, what |-> "there has to be an error"]))
     ELSE IF want = "any" THEN TRUE
     ELSE IF r.out # "ok" THEN Mismatch([id |-> r.id, what |-> "an error", detail |-> r.detail])
     ELSE IF ~right THEN Mismatch([id |-> r.id, what |-> "something else is encoded"])
     ELSE IF r.bad # <<>> THEN Mismatch([id |-> r.id, what |-> "calls of the parser", bad |-> r.bad])
     ELSE TRUE

InitEnc == c \in 1 .. Len(Cases) /\ k = 0
NextEnc(J(_)) == k = 0 /\ J(Cases[c]) /\ k' = 1 /\ UNCHANGED c

EncStats == <<"read errors", "encoded", "cannot be encoded", "not judged">>
=============================================================================
