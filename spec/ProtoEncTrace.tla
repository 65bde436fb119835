--------------------------- MODULE ProtoEncTrace ---------------------------
(***************************************************************************)
(* The protocol buffer encoder: the bytes, decoded by the same description *)
(* (see ProtoWire), have the fields of the forest that the description     *)
(* knows, in their order, with their values; a field without a value is    *)
(* left out, and a value of another type is an error.                      *)
(***************************************************************************)
EXTENDS EncLib, ProtoWire

Accessor(t) == CASE t \in {"double", "float"} -> "double"
                 [] t \in {"int64", "int32", "enum", "sfixed32", "sfixed64", "sint32", "sint64"} -> "int"
                 [] t \in {"uint64", "uint32", "fixed32", "fixed64"} -> "uint"
                 [] OTHER -> t

Known(ms, m, n) == ~n.leaf /\ n.l.string # <<>> /\ \E i \in 1 .. Len(ms[m].fields) : ms[m].fields[i].name = n.l.string[1]
FieldOf(ms, m, n) == ms[m].fields[CHOOSE i \in 1 .. Len(ms[m].fields) : ms[m].fields[i].name = n.l.string[1]]

\* values that the type does not have are not judged
InRange(t, v) ==
  CASE t \in {"int32", "enum", "sfixed32", "sint32"} ->
         (v[1] = Zero22 /\ v[2] < 1024) \/ (v[1] = Zero22 - 1 /\ v[2] >= LB - 1024)
    [] t \in {"uint32", "fixed32"} -> v[1] = 0 /\ v[2] < 2048
    [] t = "float" -> IF v[1] >= LB \/ v = NaN THEN v[3] = 0 /\ v[2] % 256 = 0 ELSE v[3] = LB - 1 /\ v[2] % 256 = 255
    [] OTHER -> TRUE

\* V: what is below a single field, or below one element
RECURSIVE Open(_, _, _), Hopeless(_, _, _)
OpenVal(ms, f, V) ==
  IF f.t = "msg" THEN Open(ms, f.m, V) ELSE \E i \in 1 .. Len(V) :
    \/ Len(V) > 1 \/ ~V[i].leaf
    \/ LET v == V[i].l[Accessor(f.t)] IN v # <<>> /\ ~InRange(f.t, v[1])
Open(ms, m, F) == \E i \in 1 .. Len(F) :
  \/ F[i].leaf \/ F[i].l.string = <<>>
  \/ /\ Known(ms, m, F[i])
     /\ LET f == FieldOf(ms, m, F[i])
            V == F[i].c IN
        IF f.rep THEN \E j \in 1 .. Len(V) : V[j].leaf \/ V[j].l.int = <<>> \/ OpenVal(ms, f, V[j].c)
        ELSE OpenVal(ms, f, V)

HopelessVal(ms, f, V) ==
  IF f.t = "msg" THEN Hopeless(ms, f.m, V) ELSE V # <<>> /\ V[1].l[Accessor(f.t)] = <<>>
Hopeless(ms, m, F) == \E i \in 1 .. Len(F) :
  /\ Known(ms, m, F[i])
  /\ LET f == FieldOf(ms, m, F[i])
         V == F[i].c IN
     IF f.rep THEN \E j \in 1 .. Len(V) : HopelessVal(ms, f, V[j].c) ELSE HopelessVal(ms, f, V)

\* the fields with values, in order: runs of elements are not set apart
RECURSIVE Flat(_, _, _, _), FlatElems(_, _, _, _)
FlatVal(ms, f, V) ==
  IF f.t = "msg" THEN <<[n |-> f.name, m |-> Flat(ms, f.m, V, 1)]>>
  ELSE IF V = <<>> THEN <<>> ELSE <<[n |-> f.name, v |-> V[1].l[Accessor(f.t)]]>>
FlatElems(ms, f, V, i) == IF i > Len(V) THEN <<>> ELSE FlatVal(ms, f, V[i].c) \o FlatElems(ms, f, V, i + 1)
Flat(ms, m, F, i) ==
  IF i > Len(F) THEN <<>>
  ELSE (IF ~Known(ms, m, F[i]) THEN <<>>
        ELSE LET f == FieldOf(ms, m, F[i]) IN
             IF f.rep THEN FlatElems(ms, f, F[i].c, 1) ELSE FlatVal(ms, f, F[i].c))
       \o Flat(ms, m, F, i + 1)

Right(r) ==
  LET x == Fields(r.msgs, r.b, 1, Len(r.b) + 1, 1, <<>>, "doc") IN
  x[1] = "doc" /\ Flat(r.msgs, 1, x[2], 1) = Flat(r.msgs, 1, r.tree, 1)

JudgeProto(r) == LET want == IF Open(r.msgs, 1, r.tree) THEN "any" ELSE IF Hopeless(r.msgs, 1, r.tree) THEN "err" ELSE "ok"
                 IN Judge(r, want, IF want = "ok" /\ r.out = "ok" THEN Right(r) ELSE TRUE)

Init == InitEnc
Next == NextEnc(JudgeProto)
Done == PrintStats(EncStats)
=============================================================================
