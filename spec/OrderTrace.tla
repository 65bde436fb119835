---------------------------- MODULE OrderTrace ----------------------------
(***************************************************************************)
(* Functions are ordered and hashed: interning, merging and the memo       *)
(* tables rely on it.  A trace is a set of functions made from the         *)
(* expressions es, with the recorded sign of Compare and the answer of     *)
(* Equal for every ordered pair, and every Hash.  The steps visit the      *)
(* triples; each has to satisfy the laws of a total order that is          *)
(* consistent with equality, with hashing and with what functions compute. *)
(***************************************************************************)
EXTENDS Funcs, TraceLib

VARIABLES c, i

Cm(r, a, b) == r.cmp[a][b]
N(r) == Len(r.es)

\* two expressions that certainly compute the same / different values on l
Differ(a, b, l) == /\ ~LogicFails(a, l) /\ ~LogicFails(b, l)
                   /\ a.t = b.t /\ Ev(a, l) # Ev(b, l)

Pair(r, a, b) ==
  (IF a = b /\ Cm(r, a, b) # 0 THEN {"not reflexive"} ELSE {})
  \cup (IF Cm(r, a, b) # -Cm(r, b, a) THEN {"not antisymmetric"} ELSE {})
  \cup (IF r.eq[a][b] # (Cm(r, a, b) = 0) THEN {"Equal does not agree with Compare"} ELSE {})
  \cup (IF Cm(r, a, b) = 0 /\ r.hash[a] # r.hash[b] THEN {"equal with different hashes"} ELSE {})
  \cup (IF r.es[a] = r.es[b] /\ ~r.eq[a][b] THEN {"the same expression is not equal"} ELSE {})
  \cup (IF r.eq[a][b] /\ r.es[a].t # r.es[b].t THEN {"equal with different types"} ELSE {})
  \cup (IF r.eq[a][b] /\ \E k \in 1 .. Len(r.ls) : Differ(r.es[a], r.es[b], r.ls[k]) THEN {"equal functions compute different values"} ELSE {})

Triple(r, a, b, d) ==
  IF Cm(r, a, b) <= 0 /\ Cm(r, b, d) <= 0 /\ Cm(r, a, d) > 0 THEN {"not transitive"} ELSE {}

(* A known finding: functions of one kind with the same hash are ordered   *)
(* by their parts, functions of different kinds by how they are printed,   *)
(* which together need not be an order.                                    *)
RECURSIVE HasVar(_)
HasVar(e) == e.k \in {"var", "ctx"} \/ (e.k \in {"fn", "list", "op"} /\ ((e.k = "fn" /\ e.n = "print") \/ (\E x \in 1 .. Len(e.a) : HasVar(e.a[x]))))
Kind(e) == <<e.k, HasVar(e), e.t, IF e.k = "fn" THEN <<e.n, [x \in 1 .. Len(e.a) |-> e.a[x].t]>> ELSE <<>>>>
Mixed(r, s) == Cardinality({r.hash[x] : x \in s}) = 1 /\ Cardinality({Kind(r.es[x]) : x \in s}) > 1
Sig(r, a, wrong) ==
  IF wrong = {"not transitive"} /\ \A b \in 1 .. N(r), d \in 1 .. N(r) : Triple(r, a, b, d) = {} \/ Mixed(r, {a, b, d})
  THEN "kinds-cycle" ELSE ""

Judge(r, a) ==
  LET wrong == UNION ({Pair(r, a, b) : b \in 1 .. N(r)} \cup {Triple(r, a, b, d) : b \in 1 .. N(r), d \in 1 .. N(r)})
  IN /\ \A b \in 1 .. N(r) : Count(IF r.eq[a][b] THEN 1 ELSE IF r.hash[a] = r.hash[b] THEN 2 ELSE 3)
     /\ IF wrong = {} THEN TRUE ELSE Mismatch([id |-> r.id, sig |-> Sig(r, a, wrong), function |-> a, wrong |-> wrong])

Init == c \in 1 .. Len(Cases) /\ i = 1
Next == /\ i <= (IF Cases[c].ok THEN N(Cases[c]) ELSE 1)
        /\ IF Cases[c].ok THEN Judge(Cases[c], i) ELSE Mismatch([id |-> Cases[c].id, what |-> Cases[c].detail])
        /\ i' = i + 1 /\ UNCHANGED c

Done == PrintStats(<<"equal pairs", "colliding pairs", "different pairs">>)
=============================================================================
