----------------------------- MODULE FuncTrace -----------------------------
(***************************************************************************)
(* Evaluation of functions.  A trace is one expression, made into a        *)
(* function in several ways (from text, from ast constructors, from the    *)
(* constructors of funcs), and evaluated on a sequence of labels by the    *)
(* same function value: what a function answers depends on the label that  *)
(* was set last and on nothing before.                                     *)
(***************************************************************************)
EXTENDS Funcs, TraceLib

VARIABLES c, m, k

\* the expression with every comparison of a constant with a variable turned
\* around, e.g. ge(2,$int) becomes le(2,$int): what is printed for it as "<= 2"
RECURSIVE NoVars(_)
NoVars(e) == e.k # "var" /\ (e.k = "const" \/ \A i \in 1 .. Len(e.a) : NoVars(e.a[i]))
Mirror == [lt |-> "gt", gt |-> "lt", le |-> "ge", ge |-> "le"]
RECURSIVE Swap(_)
Swap(e) ==
  IF e.k \in {"const", "var"} THEN e
  ELSE IF e.k = "fn" /\ e.n \in DOMAIN Mirror /\ NoVars(e.a[1]) /\ e.a[2].k = "var" THEN [e EXCEPT !.n = Mirror[e.n]]
  ELSE [e EXCEPT !.a = [i \in 1 .. Len(e.a) |-> Swap(e.a[i])]]

\* a known finding: the shorthand of such a comparison keeps the operator
Sig(r, made, i) ==
  LET s == Swap(r.e) IN
  IF made.via = "sprint" /\ s # r.e /\ ~made.outs[i].panic /\ made.outs[i].v # <<>> /\ Ev(s, r.ls[i]) = Val(made.outs[i].v[1]) THEN "shorthand-swap" ELSE ""

\* out: [v |-> <<value>> or <<>>, panic |-> BOOLEAN]
Judge(r, made, i) ==
  LET l == r.ls[i]
      out == made.outs[i]
      want == Ev(r.e, l)
      wrong == IF out.panic THEN TRUE
               ELSE IF LogicFails(r.e, l) THEN FALSE
               ELSE IF want[1] THEN (out.v = <<>>) \/ (out.v # <<want[2]>>)
               ELSE out.v # <<>>
  IN /\ Count(IF LogicFails(r.e, l) THEN 1 ELSE IF want[1] THEN 2 ELSE 3)
     /\ IF r.e.t = "bool" /\ want = Val(TRUE) THEN Count(4) ELSE TRUE
     /\ IF wrong THEN Mismatch([id |-> r.id, sig |-> Sig(r, made, i), via |-> made.via, label |-> i, got |-> out, want |-> want]) ELSE TRUE

Init == c \in 1 .. Len(Cases) /\ m = 1 /\ k = 0

Next ==
  LET r == Cases[c] IN
  /\ m <= Len(r.made)
  /\ LET made == r.made[m] IN
     IF made.made # "ok"
     THEN Mismatch([id |-> r.id, via |-> made.via, what |-> "not made: " \o made.made]) /\ m' = m + 1 /\ k' = 0
     ELSE IF k < Len(made.outs) THEN Judge(r, made, k + 1) /\ k' = k + 1 /\ m' = m
     ELSE m' = m + 1 /\ k' = 0
  /\ UNCHANGED c

Done == PrintStats(<<"open (a logical operand fails)", "values", "errors", "true">>)
=============================================================================
