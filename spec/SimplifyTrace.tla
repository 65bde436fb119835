--------------------------- MODULE SimplifyTrace ---------------------------
(***************************************************************************)
(* The simplifier: from every grammar g it makes a grammar h with the same *)
(* language.  The step is checked on sampled trees and on every forest of  *)
(* up to three nodes and depth two over the labels ls (and, for a          *)
(* simplifier that may assume records, only on those that are records).    *)
(***************************************************************************)
EXTENDS Relapse, TraceLib

VARIABLES c, k

Distinct(s) == \A i, j \in 1 .. Len(s) : i < j =>
                 \A t \in DOMAIN s[i].l : s[i].l[t] = <<>> \/ s[j].l[t] = <<>> \/ s[i].l[t] # s[j].l[t]
RECURSIVE IsRecord(_)
IsRecord(s) == Distinct(s) /\ \A i \in 1 .. Len(s) : IsRecord(s[i].c)

Leaf(l) == [l |-> l, c |-> <<>>]
SeqsUpTo(S, n) == UNION {[1 .. i -> S] : i \in 0 .. n}

\* every small forest over a sequence of labels
Forests(ls) ==
  LET leaves == {Leaf(ls[i]) : i \in 1 .. Len(ls)}
      flat == SeqsUpTo(leaves, 2)
      nodes == {[l |-> ls[i], c |-> f] : i \in 1 .. Len(ls), f \in SeqsUpTo(leaves, 1)}
  IN SeqsUpTo(nodes, 2) \cup [1 .. 3 -> leaves] \cup {<<[l |-> ls[i], c |-> f]>> : i \in 1 .. Len(ls), f \in flat}

Same(r, t) ==
  IF r.record /\ ~IsRecord(t) THEN TRUE
  ELSE IF ~ErrFree(r.g, t) \/ ~ErrFree(r.h, t) THEN Count(1)
  ELSE /\ Count(2)
       /\ IF Valid(r.g, t) THEN Count(3) ELSE TRUE
       /\ IF Valid(r.g, t) = Valid(r.h, t) THEN TRUE
          ELSE Mismatch([id |-> r.id, tree |-> t, valid |-> Valid(r.g, t)])

Init == c \in 1 .. Len(Cases) /\ k = 0

Next == LET r == Cases[c] IN
        /\ k <= Len(r.ts)
        /\ IF ~r.ok THEN (IF k = 0 THEN Mismatch([id |-> r.id, what |-> r.detail]) ELSE TRUE)
           ELSE IF k < Len(r.ts) THEN Same(r, r.ts[k + 1])
           ELSE \A t \in Forests(r.ls) : Same(r, t)
        /\ k' = k + 1
        /\ UNCHANGED c

Done == PrintStats(<<"condition fails", "compared trees", "valid">>)
=============================================================================
