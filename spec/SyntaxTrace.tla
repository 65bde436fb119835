--------------------------- MODULE SyntaxTrace ---------------------------
(***************************************************************************)
(* The syntax of grammars.  A trace is one text, as its sequence of tokens *)
(* (see Syntax), and what parsing the text gave: an error, or the syntax   *)
(* tree, also after printing it and parsing what was printed.              *)
(***************************************************************************)
EXTENDS TraceLib, Syntax

VARIABLES c, done

Judge(r) ==
  LET T == Trees(r.toks)
      want == IF T = {} THEN {<<"error">>} ELSE T
  IN /\ Count(IF T = {} THEN 2 ELSE 1)
     /\ IF Cardinality(T) > 1 THEN Mismatch([id |-> r.id, what |-> "the specification is ambiguous", trees |-> T]) ELSE TRUE
     /\ IF r.ast \in want THEN TRUE ELSE Mismatch([id |-> r.id, what |-> "syntax tree", got |-> r.ast, want |-> want])
     /\ IF T = {} THEN TRUE
        ELSE /\ IF r.again \in want THEN TRUE ELSE Mismatch([id |-> r.id, what |-> "the printed grammar parses to another tree", got |-> r.again, want |-> want])
             /\ IF r.lossless THEN TRUE ELSE Mismatch([id |-> r.id, what |-> "space or comments are lost by printing", printed |-> r.printed])

Init == c \in 1 .. Len(Cases) /\ done = FALSE
Next == ~done /\ Judge(Cases[c]) /\ done' = TRUE /\ UNCHANGED c

Done == PrintStats(<<"accepted", "refused">>)
=============================================================================
