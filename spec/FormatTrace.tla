--------------------------- MODULE FormatTrace ---------------------------
(***************************************************************************)
(* Formatting a grammar.  A gap is what is between two tokens: a sequence  *)
(* of pieces, which are comments (k is "line" or "block", s is the comment *)
(* without surrounding space) and space (k is "ws", s is the space).       *)
(* A trace has the tokens, their gaps and the syntax tree before and after *)
(* formatting, and the gaps after formatting what was formatted.           *)
(***************************************************************************)
EXTENDS TraceLib

VARIABLES c, done

Comment(p) == p.k # "ws"
Comments(gap) == LET s == SelectSeq(gap, Comment) IN [i \in 1 .. Len(s) |-> s[i].s]

Tidy(before, after) ==
  /\ Comments(before) = Comments(after)
  /\ before = <<>> => after = <<>>
  \* between two tokens there is at most one space or line break, and only where there was space
  /\ Comments(before) = <<>> =>
        \/ after = <<>>
        \/ Len(after) = 1 /\ (after[1].s = " " \/ (after[1].s = "\n" /\ before[Len(before)].nl > 0))
  \* at most one empty line between comments, nothing after a line comment but a line break
  /\ \A i \in 1 .. Len(after) : after[i].k = "ws" => after[i].nl <= 2

BadGaps(r) == {i \in 1 .. Len(r.before) : ~Tidy(r.before[i], r.after[i])}

Judge(r) ==
  IF r.failed # "" THEN Mismatch([id |-> r.id, what |-> r.failed])
  ELSE /\ Count(1)
       /\ IF \E i \in 1 .. Len(r.before) : Comments(r.before[i]) # <<>> THEN Count(2) ELSE TRUE
       /\ IF r.ast = r.ast2 THEN TRUE ELSE Mismatch([id |-> r.id, what |-> "the syntax tree changed", from |-> r.ast, to |-> r.ast2])
       /\ IF Len(r.before) # Len(r.after) THEN Mismatch([id |-> r.id, what |-> "tokens were merged or split"])
          ELSE IF BadGaps(r) # {} THEN Mismatch([id |-> r.id, what |-> "gaps", gaps |-> [i \in BadGaps(r) |-> <<r.before[i], r.after[i]>>]])
          ELSE TRUE
       /\ IF r.again = r.after THEN TRUE ELSE Mismatch([id |-> r.id, what |-> "formatting again changes it"])

Init == c \in 1 .. Len(Cases) /\ done = FALSE
Next == ~done /\ Judge(Cases[c]) /\ done' = TRUE /\ UNCHANGED c

Done == PrintStats(<<"formatted", "with comments">>)
=============================================================================
