---------------------------- MODULE SmallTrace ----------------------------
(***************************************************************************)
(* Small grammars (GrammarGen) run on all small trees.  Record r: grammar  *)
(* g, trees ts, verdicts out: engine -> one verdict for each tree, and, if *)
(* there is one, another grammar h that is to have the same language.      *)
(* With record: only trees that are records.                               *)
(***************************************************************************)
EXTENDS Relapse, TraceLib

VARIABLES c, k

None == [double |-> <<>>, int |-> <<>>, uint |-> <<>>, bool |-> <<>>, string |-> <<>>, bytes |-> <<>>]
LabelOf == [a |-> [None EXCEPT !.string = << <<97>> >>], b |-> [None EXCEPT !.string = << <<98>> >>], one |-> [None EXCEPT !.int = << IntKey(1) >>]]
\* (every label once in a list of siblings)
RECURSIVE Tree(_), Distinct(_)
Tree(s) == [i \in 1 .. Len(s) |-> [l |-> LabelOf[IF s[i][1] = "1" THEN "one" ELSE s[i][1]], c |-> Tree(s[i][2])]]
Distinct(s) == /\ \A i, j \in 1 .. Len(s) : i < j => s[i][1] # s[j][1]
               /\ \A i \in 1 .. Len(s) : Distinct(s[i][2])

Judge(r, i) ==
  LET t == Tree(r.ts[i])
      want == IF Valid(r.g, t) THEN "T" ELSE "F"
      wrong == {e \in DOMAIN r.out : r.out[e][i] # want}
  IN /\ Count(IF want = "T" THEN 1 ELSE 2)
     /\ IF wrong = {} THEN TRUE ELSE Mismatch([id |-> r.id, tree |-> r.ts[i], engines |-> wrong, want |-> want])
     /\ IF "h" \notin DOMAIN r THEN TRUE
        ELSE IF (want = "T") = Valid(r.h, t) THEN TRUE
        ELSE Mismatch([id |-> r.id, tree |-> r.ts[i], simplified |-> r.h, want |-> want])

Init == c \in 1 .. Len(Cases) /\ k = 0
Next == LET r == Cases[c] IN
        /\ k = 0
        /\ \A i \in 1 .. Len(r.ts) : IF r.record /\ ~Distinct(r.ts[i]) THEN TRUE ELSE Judge(r, i)
        /\ k' = 1 /\ UNCHANGED c
Done == PrintStats(<<"valid", "not valid">>)
=============================================================================
