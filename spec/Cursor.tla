------------------------------ MODULE Cursor ------------------------------
(***************************************************************************)
(* The parser interface as a state machine over a forest (see Forests).    *)
(* pos is the position: at each level the index of the current node, 0     *)
(* before the first Next.                                                  *)
(* Actions of a client: init (with document d), reset, next, down, up,     *)
(* leaf (IsLeaf), get (all accessors), walk (a complete walk from the      *)
(* start).  A client only moves Down from, and only asks, a current node,  *)
(* and it calls nothing but Up after the end of the siblings.              *)
(***************************************************************************)
EXTENDS Forests, TraceLib

VARIABLES c, k,
          kind,    \* what the current document is: "doc", "lenient", "junk", or "none" at first
          forest,
          pos

RECURSIVE Level(_, _)
Level(F, p) == IF Len(p) = 1 THEN F ELSE Level(F[p[1]].c, Tail(p))

Cur == Level(forest, pos)[pos[Len(pos)]]
Here == pos[Len(pos)]
Top == [pos EXCEPT ![Len(pos)] = Here + 1]

Bad(r, s, want) == Mismatch([id |-> r.id, step |-> k + 1, op |-> s.op, got |-> s, want |-> want, pos |-> pos])

\* one call s of the trace r; document d is D(r, d) = <<kind, forest>>
Step(r, s, D(_, _)) ==
  IF s.out = "panic" THEN Bad(r, s, "no panic") /\ UNCHANGED <<kind, forest, pos>>
  ELSE
  CASE s.op = "init" ->
         LET d == D(r, s.d) IN
         /\ kind' = d[1] /\ forest' = d[2] /\ pos' = <<0>>
         /\ IF d[1] = "doc" /\ s.out # "ok" THEN Bad(r, s, "ok") ELSE TRUE
    [] s.op = "reset" ->
         /\ UNCHANGED <<kind, forest>> /\ pos' = <<0>>
         /\ IF kind = "doc" /\ s.out # "ok" THEN Bad(r, s, "ok") ELSE TRUE
    [] s.op = "walk" ->
         /\ UNCHANGED <<kind, forest, pos>>
         /\ Count(IF kind = "doc" THEN 1 ELSE IF kind = "junk" THEN 2 ELSE 3)
         /\ CASE kind = "doc" -> IF s.out = "ok" /\ Same(forest, s.tree) THEN TRUE ELSE Bad(r, s, forest)
              [] kind = "junk" -> IF s.out = "err" THEN TRUE ELSE Bad(r, s, "an error")
              [] OTHER -> TRUE
    [] kind # "doc" -> UNCHANGED <<kind, forest, pos>>
    [] s.op = "next" ->
         LET more == Here < Len(Level(forest, pos))
             want == IF more THEN "ok" ELSE "eof" IN
         /\ UNCHANGED forest /\ pos' = Top
         /\ kind' = IF s.out = want THEN kind ELSE "lost"
         /\ Count(4)
         /\ IF s.out = want THEN TRUE ELSE Bad(r, s, want)
    [] s.op = "down" -> UNCHANGED <<kind, forest>> /\ pos' = Append(pos, 0)
    [] s.op = "up" -> UNCHANGED <<kind, forest>> /\ pos' = SubSeq(pos, 1, Len(pos) - 1)
    [] s.op = "leaf" ->
         /\ UNCHANGED <<forest, pos>>
         /\ kind' = IF s.out = (IF Cur.leaf THEN "T" ELSE "F") THEN kind ELSE "lost"
         /\ IF s.out = (IF Cur.leaf THEN "T" ELSE "F") THEN TRUE ELSE Bad(r, s, Cur.leaf)
    [] s.op = "get" ->
         /\ UNCHANGED <<kind, forest, pos>>
         /\ Count(5)
         /\ IF Agrees(Cur, s.got) THEN TRUE ELSE Bad(r, s, Cur)

InitCursor == c \in 1 .. Len(Cases) /\ k = 0 /\ kind = "none" /\ forest = <<>> /\ pos = <<0>>

NextCursor(D(_, _)) ==
  LET r == Cases[c] IN
  /\ k < Len(r.steps)
  /\ Step(r, r.steps[k + 1], D)
  /\ k' = k + 1 /\ UNCHANGED c

Seen == <<c, k>>   \* determines the rest

CursorStats == <<"documents walked", "malformed documents walked", "lenient documents walked", "next calls", "accessor calls">>
=============================================================================
