---------------------------- MODULE StoredTrace ----------------------------
(***************************************************************************)
(* A message of the syntax tree that is stored and loaded.  msg is the     *)
(* message (kind "lost" when it is not known any more).                    *)
(*   set v: it becomes v        marshal b, size: it is written             *)
(*   load b: a new message is made from b     merge b: b is read into it   *)
(*   check v: it is looked at                                              *)
(***************************************************************************)
EXTENDS Stored, TraceLib

VARIABLES c, k, kind, msg

Bad(r, s, what) == Mismatch([id |-> r.id, step |-> k + 1, op |-> s.op, what |-> what, out |-> s.out])

Read(r, s, old) ==
  LET d == Decode(s.b, 1, Len(s.b) + 1, r.root, old) IN
  /\ kind' = IF d[1] = "doc" /\ s.out = "ok" THEN "doc" ELSE "lost"
  /\ msg' = IF d[1] = "doc" THEN d[2] ELSE Default(r.root)
  /\ Count(IF d[1] = "doc" THEN 2 ELSE IF d[1] = "junk" THEN 3 ELSE 4)
  /\ CASE d[1] = "doc" -> IF s.out # "ok" THEN Bad(r, s, "it can be read")
                          ELSE IF s.v = d[2] THEN TRUE ELSE Bad(r, s, <<"not the message that was written", d[2], s.v>>)
       [] d[1] = "junk" -> IF s.out = "err" THEN TRUE ELSE Bad(r, s, "this cannot be read")
       [] OTHER -> TRUE

Step(r, s) ==
  IF s.out = "panic" THEN Bad(r, s, "no panic") /\ UNCHANGED <<kind, msg>>
  ELSE CASE s.op = "set" -> kind' = "doc" /\ msg' = s.v
    [] s.op = "marshal" ->
         /\ UNCHANGED <<kind, msg>>
         /\ LET d == Decode(s.b, 1, Len(s.b) + 1, r.root, Default(r.root)) IN
            IF kind # "doc" THEN TRUE
            ELSE /\ Count(1)
                 /\ IF s.out # "ok" THEN Bad(r, s, "it can be written")
                    ELSE IF s.size # Len(s.b) THEN Bad(r, s, "the size")
                    ELSE IF d # <<"doc", msg>> THEN Bad(r, s, <<"not the message", d>>)
                    ELSE TRUE
    [] s.op = "load" -> Read(r, s, Default(r.root))
    [] s.op = "merge" -> IF kind = "doc" THEN Read(r, s, msg) ELSE UNCHANGED <<kind, msg>>

Init == c \in 1 .. Len(Cases) /\ k = 0 /\ kind = "lost" /\ msg = <<>>
Next == LET r == Cases[c] IN
        /\ k < Len(r.steps)
        /\ Step(r, r.steps[k + 1])
        /\ k' = k + 1 /\ UNCHANGED c
Seen == <<c, k>>
Done == PrintStats(<<"written", "read", "refused", "open">>)
=============================================================================
