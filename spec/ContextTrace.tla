--------------------------- MODULE ContextTrace ---------------------------
(***************************************************************************)
(* Functions of a context.  A prepared grammar has a context, none at      *)
(* first.  Actions: give a prepared grammar a new context (set), change    *)
(* the value of a context that exists (change), validate a tree (run).     *)
(* The functions ctxint(), ctxstring() and ctxbool() of a condition give   *)
(* the values of the context that their own prepared grammar has at that   *)
(* moment; without a context they fail.                                    *)
(***************************************************************************)
EXTENDS Relapse, TraceLib

VARIABLES c, k,
          held,      \* prepared grammar -> number of its context, 0: none
          vals       \* context -> its values

NoValues == [ctxint |-> <<>>, ctxstring |-> <<>>, ctxbool |-> <<>>]

\* conditions see the label and the context
RECURSIVE With(_, _)
With(t, v) == [i \in 1 .. Len(t) |-> [l |-> t[i].l @@ v, c |-> With(t[i].c, v)]]

Start == held = <<0, 0>> /\ vals = <<>>
Init == c \in 1 .. Len(Cases) /\ k = 0 /\ Start

Allowed(G, t) == IF ErrFree(G, t) THEN {IF Valid(G, t) THEN "T" ELSE "F"} ELSE {"T", "F", "E"}

Step(r, s) ==
  CASE s.op = "new" -> \* a new context, not yet given to anything
         /\ vals' = Append(vals, s.v) /\ UNCHANGED held
    [] s.op = "set" -> held' = [held EXCEPT ![s.m] = s.x] /\ UNCHANGED vals
    [] s.op = "change" -> vals' = [vals EXCEPT ![s.x] = s.v] /\ UNCHANGED held
    [] s.op = "run" ->
         LET v == IF held[s.m] = 0 THEN NoValues ELSE vals[held[s.m]]
             t == With(s.t, v)
             ok == Allowed(r.g, t)
         IN /\ UNCHANGED <<held, vals>>
            /\ Count(IF ok = {"T"} THEN 1 ELSE IF ok = {"F"} THEN 2 ELSE 3)
            /\ IF s.out \in ok THEN TRUE ELSE Mismatch([id |-> r.id, step |-> k + 1, got |-> s.out, allowed |-> ok, context |-> v])

Next == LET r == Cases[c] IN
        /\ k < Len(r.steps)
        /\ Step(r, r.steps[k + 1])
        /\ k' = k + 1 /\ UNCHANGED c

Done == PrintStats(<<"true", "false", "open (a condition fails)">>)
=============================================================================
