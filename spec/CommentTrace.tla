--------------------------- MODULE CommentTrace ---------------------------
(***************************************************************************)
(* Comments.  r.gaps: what is between the tokens of a text (and at its     *)
(* ends), each a sequence of pieces as they are written: comments and      *)
(* white space.  r.spaces: the white space that the syntax tree of the     *)
(* text holds, each with its pieces and what it says about its comments.   *)
(***************************************************************************)
EXTENDS TraceLib

VARIABLES c, done

Starts(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
Line(s) == Starts(s, "//")
Block(s) == Starts(s, "/*")
Comment(s) == Line(s) \/ Block(s)
Content(s) == IF Line(s) THEN SubSeq(s, 3, Len(s) - 1) ELSE SubSeq(s, 3, Len(s) - 2)
Newline(s) == \E i \in 1 .. Len(s) : SubSeq(s, i, i) = "\n"

Map(s, F(_)) == [i \in 1 .. Len(s) |-> F(s[i])]

\* the syntax tree holds exactly what is between the tokens
Times(s, x) == Len(SelectSeq(s, LAMBDA y : y = x))
Kept(r) == LET ps == Map(r.spaces, LAMBDA x : x.pieces)
               S == {ps[i] : i \in 1 .. Len(ps)} \cup {r.gaps[i] : i \in 1 .. Len(r.gaps)}
           IN \A x \in S \ {<<>>} : Times(ps, x) = Times(r.gaps, x)

\* the comment that is attached to what follows: "open" when white space with a
\* line break follows a block comment
Attached(ps) ==
  LET cs == {i \in 1 .. Len(ps) : Comment(ps[i])} IN
  IF cs = {} THEN {""}
  ELSE LET l == CHOOSE i \in cs : \A j \in cs : j <= i
           after == {i \in l + 1 .. Len(ps) : Newline(ps[i])}
       IN IF after = {} THEN {ps[l]} ELSE IF Line(ps[l]) THEN {""} ELSE {"", ps[l]}

Says(x) ==
  LET cs == SelectSeq(x.pieces, Comment) IN
  /\ x.has = (cs # <<>>)
  /\ x.comments = cs
  /\ x.contents = Map(cs, Content)
  /\ x.attached \in Attached(x.pieces)
  /\ x.hasattached = (x.attached # "")

Judge(r) ==
  /\ Count(1)
  /\ IF r.failed # "" THEN Mismatch([id |-> r.id, what |-> r.failed])
     ELSE /\ IF Kept(r) THEN TRUE ELSE Mismatch([id |-> r.id, what |-> "not the white space of the text"])
          /\ \A i \in 1 .. Len(r.spaces) :
               LET x == r.spaces[i] IN
               /\ IF SelectSeq(x.pieces, Comment) # <<>> THEN Count(2) /\ (IF x.attached # "" THEN Count(3) ELSE TRUE) ELSE TRUE
               /\ IF Says(x) THEN TRUE ELSE Mismatch([id |-> r.id, what |-> "comments", space |-> x])

Init == c \in 1 .. Len(Cases) /\ done = FALSE
Next == ~done /\ Judge(Cases[c]) /\ done' = TRUE /\ UNCHANGED c

Done == PrintStats(<<"texts", "with comments", "attached">>)
=============================================================================
