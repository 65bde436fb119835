---------------------------- MODULE JsonEncTrace ----------------------------
(***************************************************************************)
(* The JSON encoder: the text, read as JSON, denotes the forest.  Nodes    *)
(* labelled with strings are the members of an object (of several with one *)
(* name the last counts), nodes labelled with numbers the elements of an   *)
(* array, a leaf is its value (bytes in base 64), and nothing is null.     *)
(* Levels that mix these are not judged.                                   *)
(***************************************************************************)
EXTENDS EncLib, JsonText

IsElem(n) == ~n.leaf /\ n.l.int # <<>>
IsMember(n) == ~n.leaf /\ n.l.int = <<>> /\ n.l.string # <<>>
Nameless(n) == ~n.leaf /\ n.l.int = <<>> /\ n.l.string = <<>>

Shape(F) ==
  IF F = <<>> THEN "nothing"
  ELSE IF Len(F) = 1 /\ F[1].leaf THEN "leaf"
  ELSE IF \A i \in 1 .. Len(F) : IsElem(F[i]) THEN "array"
  ELSE IF \A i \in 1 .. Len(F) : IsMember(F[i]) THEN "object"
  ELSE "mixed"

RECURSIVE Open(_)
Open(F) ==
  \/ Shape(F) = "mixed" /\ ~ \A i \in 1 .. Len(F) : IsMember(F[i]) \/ Nameless(F[i])
  \/ \E i \in 1 .. Len(F) : Open(F[i].c) \/ (F[i].l.string # <<>> /\ ~Utf8From(F[i].l.string[1], 1))

RECURSIVE Hopeless(_)
Hopeless(F) ==
  \/ \E i \in 1 .. Len(F) : Nameless(F[i]) \/ Hopeless(F[i].c)
  \/ Shape(F) = "leaf" /\ Chosen(F[1].l) = "double" /\ ~IsFinite(F[1].l.double[1])

\* what comes to nothing because it is overwritten need not be an error
RECURSIVE Twice(_)
Twice(F) == \/ \E i, j \in 1 .. Len(F) : i # j /\ IsMember(F[i]) /\ F[i].l.string = F[j].l.string
            \/ \E i \in 1 .. Len(F) : Twice(F[i].c)

\* the leaf l and the leaf w of a JSON text
SameLeaf(l, w) ==
  LET a == Chosen(l) IN
  CASE a = "none" -> w.l = NoVal /\ w.free = {}
    [] a = "bytes" -> w.l.string = <<B64(l.bytes[1])>>
    [] OTHER -> w.l[a] = l[a]

RECURSIVE Denotes(_, _)
Denotes(W, F) ==
  CASE Shape(F) = "nothing" -> W = <<>> \/ W = <<Leaf(NoVal, {})>>
    [] Shape(F) = "leaf" -> Len(W) = 1 /\ W[1].leaf /\ SameLeaf(F[1].l, W[1])
    [] Shape(F) = "array" -> /\ Len(W) = Len(F)
                             /\ \A i \in 1 .. Len(F) : ~W[i].leaf /\ W[i].l.int # <<>> /\ Denotes(W[i].c, F[i].c)
    [] Shape(F) = "object" ->
         /\ \A i \in 1 .. Len(W) : ~W[i].leaf /\ W[i].l.string # <<>>
         /\ \A i, j \in 1 .. Len(W) : i # j => W[i].l.string # W[j].l.string
         /\ {W[i].l.string : i \in 1 .. Len(W)} = {F[i].l.string : i \in 1 .. Len(F)}
         /\ \A i \in 1 .. Len(W) :
              LET last == CHOOSE x \in 1 .. Len(F) : F[x].l.string = W[i].l.string /\ \A y \in x + 1 .. Len(F) : F[y].l.string # W[i].l.string
              IN Denotes(W[i].c, F[last].c)
    [] OTHER -> FALSE

Right(r) ==
  LET v == Val(r.b, Ws(r.b, 1), r.nums) IN
  v[1] > 0 /\ v[3] /\ Ws(r.b, v[1]) > Len(r.b) /\ Utf8From(r.b, 1) /\ Denotes(v[2], r.tree)

JudgeJson(r) == LET want == IF Open(r.tree) THEN "any" ELSE IF Hopeless(r.tree) THEN (IF Twice(r.tree) THEN "any" ELSE "err") ELSE "ok"
                IN Judge(r, want, IF want = "ok" /\ r.out = "ok" THEN Right(r) ELSE TRUE)

Init == InitEnc
Next == NextEnc(JudgeJson)
Done == PrintStats(EncStats)
=============================================================================
