----------------------------- MODULE EndTrace -----------------------------
(***************************************************************************)
(* End to end: a grammar, documents in one of the formats as bytes, and    *)
(* the verdicts of the engines over the real parser of the format.  The    *)
(* specification takes nothing from the parser: it decodes the bytes to a  *)
(* forest and matches that.  A parser and a prepared grammar are used for  *)
(* several documents; the specification has no memory of the former ones.  *)
(* A record: f the format, pre, msgs, root, nums as for the parser of the  *)
(* format, docs, runs: [d: document, out: engine -> T, F, E, P].           *)
(***************************************************************************)
EXTENDS Relapse, TraceLib

J == INSTANCE JsonText
X == INSTANCE XmlText
P == INSTANCE ProtoWire
Y == INSTANCE YamlText
R == INSTANCE GoValues

VARIABLES c, k

\* <<"doc", "lenient" or "junk", forest>>
Doc(r, d) ==
  CASE r.f = "json" -> J!DocOf(d)
    [] r.f = "xml" -> X!DocOf(r, d)
    [] r.f = "yaml" -> Y!DocOf(d)
    [] r.f = "reflect" -> R!DocOf(d)
    [] r.f = "proto" -> P!Fields(r.msgs, d.b, 1, Len(d.b) + 1, 1, <<>>, "doc")

RECURSIVE Free(_)
Free(F) == \E i \in 1 .. Len(F) : F[i].free # {} \/ Free(F[i].c)

Allowed(r, x) ==
  LET d == Doc(r, r.docs[x.d]) IN
  IF d[1] = "doc" /\ ~Free(d[2]) /\ ErrFree(r.g, d[2])
  THEN {IF Matches(r.g, r.g["main"], d[2]) THEN "T" ELSE "F"}
  ELSE {"T", "F", "E"}

FormatNo == [json |-> 4, xml |-> 5, yaml |-> 6, reflect |-> 7, proto |-> 8]

Validate(r, x) ==
  LET ok == Allowed(r, x)
      wrong == {e \in DOMAIN x.out : x.out[e] \notin ok}
  IN /\ Count(IF ok = {"T"} THEN 1 ELSE IF ok = {"F"} THEN 2 ELSE 3)
     /\ Count(IF ok = {"T"} THEN FormatNo[r.f] ELSE 9)
     /\ IF wrong = {} THEN TRUE ELSE Mismatch([id |-> r.id, run |-> k + 1, doc |-> x.d, engines |-> wrong, allowed |-> ok])

Init == c \in 1 .. Len(Cases) /\ k = 0
Next == /\ k < Len(Cases[c].runs)
        /\ Validate(Cases[c], Cases[c].runs[k + 1])
        /\ k' = k + 1
        /\ UNCHANGED c

Done == PrintStats(<<"valid", "not valid", "open", "valid json", "valid xml", "valid yaml", "valid reflect", "valid proto">>)
=============================================================================
