----------------------------- MODULE UserTrace -----------------------------
(***************************************************************************)
(* Functions that a program registers.  r.regs: attempts to register; what *)
(* is not the constructor of a function is refused and not known           *)
(* afterwards.  r.fns: what was registered, in order, each with its name,  *)
(* the types of its parameters, its type, what it does (see EvUser), what  *)
(* its constructor does (plain, ok: returns no error, fail: an error) and  *)
(* whether it always says that it has a variable.  r.e: an expression that *)
(* uses them next to the built-in functions; it is accepted when it is     *)
(* well typed and no constructor fails, and evaluates on every label to    *)
(* what its parts say.                                                     *)
(***************************************************************************)
EXTENDS Typing, TraceLib

VARIABLES c, m, k

\* the kinds of things that are registered
Good == {"plain", "ok", "interface"}

Reg(r, x) ==
  /\ Count(IF x.what \in Good THEN 1 ELSE 2)
  /\ IF x.out = (IF x.what \in Good THEN "ok" ELSE "panic") /\ x.known = (x.what \in Good) THEN TRUE
     ELSE Mismatch([id |-> r.id, what |-> "Register", reg |-> x])

Judge(r, e, made, i) ==
  LET l == r.ls[i]
      out == made.outs[i]
      want == Ev(e, l)
      fixed == ~LogicFails(e, l)
      wrong == IF out.panic THEN TRUE
               ELSE IF ~fixed THEN FALSE
               ELSE IF made.engine THEN want[1] /\ out.v # <<want[2]>>
               ELSE IF want[1] THEN out.v # <<want[2]>>
               ELSE out.v # <<>>
  IN /\ Count(IF ~fixed THEN 5 ELSE IF want[1] THEN 6 ELSE 7)
     /\ IF r.e.t = "bool" /\ want = Val(TRUE) THEN Count(8) ELSE TRUE
     /\ IF wrong THEN Mismatch([id |-> r.id, via |-> made.via, label |-> i, got |-> out, want |-> want]) ELSE TRUE

Init == c \in 1 .. Len(Cases) /\ m = 0 /\ k = 0

Next ==
  LET r == Cases[c] IN
  /\ m <= Len(r.made)
  /\ UNCHANGED c
  /\ IF m = 0 THEN (\A i \in 1 .. Len(r.regs) : Reg(r, r.regs[i])) /\ m' = 1 /\ k' = 0
     ELSE LET made == r.made[m]
              e == Resolve(r.e, r.fns)
              want == IF r.e.t = "bool" THEN Allowed(e) ELSE IF CtorFails(e) THEN {"error"} ELSE {"ok"}
          IN IF k = 0 /\ made.made \notin want
             THEN Mismatch([id |-> r.id, via |-> made.via, made |-> made.made, allowed |-> want]) /\ m' = m + 1 /\ k' = 0
             ELSE /\ IF k = 0 THEN Count(IF made.made = "ok" THEN 3 ELSE 4) ELSE TRUE
                  /\ IF k < Len(made.outs) THEN Judge(r, e, made, k + 1) /\ k' = k + 1 /\ m' = m
                     ELSE m' = m + 1 /\ k' = 0

Done == PrintStats(<<"registered", "refused", "accepted expressions", "ill typed expressions", "open", "values", "errors", "true">>)
=============================================================================
