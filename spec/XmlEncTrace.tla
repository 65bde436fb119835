---------------------------- MODULE XmlEncTrace ----------------------------
(***************************************************************************)
(* The XML encoder: what it writes is the content of an element, and read  *)
(* as XML it denotes the forest: a node with a name is an element with     *)
(* that name, a leaf is its value as text (bytes in base 64), and adjacent *)
(* texts cannot be told apart.  Names and characters that XML does not     *)
(* have are not judged.                                                    *)
(***************************************************************************)
EXTENDS EncLib, XmlText

Colon(t) == \E i \in 1 .. Len(t) : t[i] = 58
IsName(t) == Name(t, 1)[1] = Len(t) + 1 /\ ~Colon(t)
Nameless(n) == ~n.leaf /\ (Chosen(n.l) = "none" \/ (Chosen(n.l) = "string" /\ n.l.string[1] = <<>>))
Named(n) == ~n.leaf /\ Chosen(n.l) = "string" /\ IsName(n.l.string[1])

TextOk(t) == Utf8From(t, 1) /\ \A i \in 1 .. Len(t) : t[i] >= 32 \/ t[i] \in {9, 10, 13}

RECURSIVE Open(_), Hopeless(_)
Open(F) == \E i \in 1 .. Len(F) :
  IF F[i].leaf THEN Chosen(F[i].l) = "string" /\ ~TextOk(F[i].l.string[1])
  ELSE Open(F[i].c) \/ ~(Named(F[i]) \/ Nameless(F[i]))
Hopeless(F) == \E i \in 1 .. Len(F) : ~F[i].leaf /\ (Nameless(F[i]) \/ Hopeless(F[i].c))

TRUEText == <<116, 114, 117, 101>>
FALSEText == <<102, 97, 108, 115, 101>>
Plain(l) == Chosen(l) \in {"string", "bytes", "bool", "none"}
TextOf(l) == CASE Chosen(l) = "string" -> l.string[1]
               [] Chosen(l) = "bytes" -> B64(l.bytes[1])
               [] Chosen(l) = "bool" -> IF l.bool[1] THEN TRUEText ELSE FALSEText
               [] OTHER -> <<>>

\* the content: elements and runs of leaves that have text
RECURSIVE Items(_, _, _)
FlushRun(run) == IF run = <<>> THEN <<>> ELSE <<[leaf |-> TRUE, run |-> run]>>
Items(F, i, run) ==
  IF i > Len(F) THEN FlushRun(run)
  ELSE IF ~F[i].leaf THEN FlushRun(run) \o <<[leaf |-> FALSE, node |-> F[i]]>> \o Items(F, i + 1, <<>>)
  ELSE IF Plain(F[i].l) /\ TextOf(F[i].l) = <<>> THEN Items(F, i + 1, run)
  ELSE Items(F, i + 1, Append(run, F[i].l))

RECURSIVE Concat(_, _)
Concat(run, i) == IF i > Len(run) THEN <<>> ELSE TextOf(run[i]) \o Concat(run, i + 1)

\* w is the leaf with the texts of the run
SameText(run, w) ==
  IF \A i \in 1 .. Len(run) : Plain(run[i]) THEN w.l.string = <<Concat(run, 1)>>
  ELSE IF Len(run) > 1 THEN TRUE
  ELSE LET l == run[1]
           a == Chosen(l) IN
       IF a = "double" /\ ~IsFinite(l.double[1]) THEN TRUE
       ELSE w.l[a] = l[a] /\ a \notin w.free

RECURSIVE Denotes(_, _)
Denotes(W, F) ==
  LET I == Items(F, 1, <<>>) IN
  /\ Len(W) = Len(I)
  /\ \A i \in 1 .. Len(I) :
       /\ W[i].leaf = I[i].leaf
       /\ IF W[i].leaf THEN SameText(I[i].run, W[i])
          ELSE W[i].l.string = I[i].node.l.string /\ Denotes(W[i].c, I[i].node.c)

Right(r) ==
  LET s == <<60, 114, 62>> \o r.b \o <<60, 47, 114, 62>>
      x == Element(s, 2, r, r.nums)
  IN Utf8From(r.b, 1) /\ x[1] = Len(s) + 1 /\ Denotes(x[2].c, r.tree)

JudgeXml(r) == LET want == IF Open(r.tree) THEN "any" ELSE IF Hopeless(r.tree) THEN "err" ELSE "ok"
               IN Judge(r, want, IF want = "ok" /\ r.out = "ok" THEN Right(r) ELSE TRUE)

Init == InitEnc
Next == NextEnc(JudgeXml)
Done == PrintStats(EncStats)
=============================================================================
