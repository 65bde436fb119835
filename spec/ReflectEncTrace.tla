-------------------------- MODULE ReflectEncTrace --------------------------
(***************************************************************************)
(* The reflect encoder: the struct that it was given (r.type, zero before) *)
(* has the values of the forest that it has fields for.  A type t is       *)
(* [g: struct, f: fields], [g: slice, e: type], [g: ptr, e: type],         *)
(* [g: scalar, a: accessor, lo, hi: range of integers, f32] or [g: opaque];*)
(* the value v of a struct is a sequence, of a slice a sequence, of a      *)
(* pointer <<>> or <<value>>, of a scalar itself, of an opaque one <<>>.   *)
(* A leaf without a value stands for nil, and leaves a zero value.         *)
(***************************************************************************)
EXTENDS EncLib

RECURSIVE Zero(_)
Zero(t) == CASE t.g = "struct" -> [i \in 1 .. Len(t.f) |-> Zero(t.f[i].t)]
             [] t.g = "scalar" -> t.zero
             [] OTHER -> <<>>

IsNull(V) == Len(V) = 1 /\ V[1].leaf /\ Chosen(V[1].l) = "none"

RECURSIVE Base(_)
Base(t) == IF t.g = "ptr" THEN Base(t.e) ELSE t

Between(v, t) == Lex(t.lo, v) <= 0 /\ Lex(v, t.hi) <= 0
IsFloat32(v) == IF v[1] >= LB \/ v = NaN THEN v[3] = 0 /\ v[2] % 256 = 0 ELSE v[3] = LB - 1 /\ v[2] % 256 = 255

IsField(t, n) == ~n.leaf /\ n.l.string # <<>> /\ \E i \in 1 .. Len(t.f) : t.f[i].name = n.l.string[1]
FieldOf(t, n) == CHOOSE i \in 1 .. Len(t.f) : t.f[i].name = n.l.string[1]

\* what is not judged
RECURSIVE Open(_, _)
Open(u, V) ==
  LET t == Base(u) IN
  \/ Len(V) > 1 /\ \E i \in 1 .. Len(V) : V[i].leaf
  \/ CASE t.g = "struct" ->
            \E i \in 1 .. Len(V) : /\ IsField(t, V[i])
                                   /\ \/ Open(t.f[FieldOf(t, V[i])].t, V[i].c)
                                      \/ \E j \in 1 .. i - 1 : IsField(t, V[j]) /\ FieldOf(t, V[j]) = FieldOf(t, V[i])
       [] t.g = "slice" -> \E i \in 1 .. Len(V) : Open(t.e, V[i].c)
       [] t.g = "scalar" -> t.f32 /\ Len(V) = 1 /\ V[1].leaf /\ V[1].l.double # <<>> /\ ~IsFloat32(V[1].l.double[1])
       [] OTHER -> FALSE

RECURSIVE Hopeless(_, _)
Hopeless(u, V) ==
  LET t == Base(u) IN
  IF V = <<>> \/ IsNull(V) THEN FALSE
  ELSE CASE t.g = "struct" -> V[1].leaf \/ \E i \in 1 .. Len(V) : V[i].l.string = <<>> \/ (IsField(t, V[i]) /\ Hopeless(t.f[FieldOf(t, V[i])].t, V[i].c))
         [] t.g = "slice" -> V[1].leaf \/ \E i \in 1 .. Len(V) : V[i].l.int = <<>> \/ Hopeless(t.e, V[i].c)
         [] t.g = "scalar" -> ~V[1].leaf \/ V[1].l[t.a] = <<>> \/ (t.a \in {"int", "uint"} /\ ~Between(V[1].l[t.a][1], t))
         [] OTHER -> TRUE

RECURSIVE Value(_, _)
Value(t, V) ==
  IF IsNull(V) THEN Zero(t)
  ELSE CASE t.g = "ptr" -> IF V = <<>> /\ Base(t).g \in {"scalar", "opaque"} THEN <<>> ELSE <<Value(t.e, V)>>
         [] t.g = "struct" ->
              [i \in 1 .. Len(t.f) |->
                 LET at == {j \in 1 .. Len(V) : IsField(t, V[j]) /\ FieldOf(t, V[j]) = i}
                 IN IF at = {} THEN Zero(t.f[i].t) ELSE Value(t.f[i].t, V[CHOOSE j \in at : TRUE].c)]
         [] t.g = "slice" -> [i \in 1 .. Len(V) |-> Value(t.e, V[i].c)]
         [] t.g = "scalar" -> IF V = <<>> THEN t.zero ELSE V[1].l[t.a][1]
         [] OTHER -> <<>>

JudgeReflect(r) ==
  LET want == IF Open(r.type, r.tree) \/ IsNull(r.tree) THEN "any" ELSE IF Hopeless(r.type, r.tree) THEN "err" ELSE "ok"
  IN Judge(r, want, IF want = "ok" /\ r.out = "ok" THEN r.v = Value(r.type, r.tree) ELSE TRUE)

Init == InitEnc
Next == NextEnc(JudgeReflect)
Done == PrintStats(EncStats)
=============================================================================
