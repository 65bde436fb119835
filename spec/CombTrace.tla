----------------------------- MODULE CombTrace -----------------------------
(***************************************************************************)
(* The combinators.  A trace is a tree of combinator calls x (x.f the      *)
(* combinator, x.c its child patterns, and its other arguments), and what  *)
(* validating a tree with the grammar that they constructed gave: as it    *)
(* was constructed (built) and printed and parsed (printed).               *)
(* Meaning says what each combinator means.                                *)
(***************************************************************************)
EXTENDS Relapse, TraceLib

VARIABLES c, k

Bin(kind, a, b) == [k |-> kind, a |-> a, b |-> b]
RECURSIVE Fold(_, _)
Fold(kind, ps) == IF Len(ps) = 1 THEN ps[1] ELSE Bin(kind, ps[1], Fold(kind, Tail(ps)))

Un(kind, a) == [k |-> kind, a |-> a]
In(n, ps) == [k |-> "tree", n |-> n, a |-> Fold("concat", ps)]
AnyName == [k |-> "any"]
RECURSIVE Choice(_)
Choice(ns) == IF Len(ns) = 1 THEN ns[1] ELSE [k |-> "or", a |-> ns[1], b |-> Choice(Tail(ns))]

RECURSIVE Meaning(_)
Meaning(x) ==
  LET ps == [i \in 1 .. Len(x.c) |-> Meaning(x.c[i])] IN
  CASE x.f = "Any" -> [k |-> "zany"]
    [] x.f = "None" -> Un("not", [k |-> "zany"])
    [] x.f = "Eval" -> [k |-> "ref", r |-> x.r]
    [] x.f = "Value" -> [k |-> "leaf", e |-> x.e]
    [] x.f = "InOrder" -> Fold("concat", ps)
    [] x.f = "AllOf" -> Fold("and", ps)
    [] x.f = "AnyOf" -> Fold("or", ps)
    [] x.f = "InAnyOrder" -> Fold("inter", ps)
    [] x.f = "OppositeOf" -> Un("not", ps[1])
    [] x.f = "Many" -> Un("star", ps[1])
    [] x.f = "Maybe" -> Un("opt", ps[1])
    [] x.f \in {"In", "Elem"} -> In(x.n[1], ps)
    [] x.f = "InAny" -> In(AnyName, ps)
    [] x.f = "InAnyExcept" -> In([k |-> "not", a |-> x.n[1]], ps)
    [] x.f = "InAnyOf" -> In(Choice(x.n), ps)
    [] x.f = "InPath" -> Un("contains", In(x.n[1], ps))
    [] x.f = "InAnyPath" -> Un("contains", In(AnyName, ps))

Grammar(r) == [x \in DOMAIN r.g |-> Meaning(r.g[x])]

Run(r, G, t) ==
  LET ok == IF ErrFree(G, t.t) THEN {IF Valid(G, t.t) THEN "T" ELSE "F"} ELSE {"T", "F", "E"}
      wrong == {e \in DOMAIN t.out : t.out[e] \notin ok}
  IN /\ Count(IF ok = {"T"} THEN 1 ELSE IF ok = {"F"} THEN 2 ELSE 3)
     /\ IF wrong = {} THEN TRUE ELSE Mismatch([id |-> r.id, via |-> wrong, got |-> t.out, allowed |-> ok])

Init == c \in 1 .. Len(Cases) /\ k = 0
Next == /\ k = 0
        /\ k' = 1
        /\ LET r == Cases[c]
               G == Grammar(r)
           IN /\ IF r.intact THEN TRUE ELSE Mismatch([id |-> r.id, what |-> "an argument was modified"])
              /\ \A i \in 1 .. Len(r.runs) : Run(r, G, r.runs[i])
        /\ UNCHANGED c

Done == PrintStats(<<"valid", "not valid", "open (a condition fails)">>)
=============================================================================
