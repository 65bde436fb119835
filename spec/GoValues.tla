--------------------------- MODULE GoValues ---------------------------
(***************************************************************************)
(* Go values as forests.  A value is [g: what it is, ...]: a struct with   *)
(* fields f (sequence of [name, x]), a slice with elements e, a pointer to *)
(* x, nil (a pointer or a slice), a scalar [t: accessor, v: value], bytes  *)
(* v, or opaque (a map, function, array, ...).  The fields of a struct are *)
(* labelled with their names, except that nil fields are left out; the     *)
(* elements of a slice are labelled with their index.                      *)
(***************************************************************************)
EXTENDS Forests

RECURSIVE Forest(_), FieldsOf(_, _)

NodeOf(l, x) == Inner(l, Forest(x))

FieldsOf(f, i) ==
  IF i > Len(f) THEN <<>>
  ELSE IF f[i].x.g = "nil" THEN FieldsOf(f, i + 1)
  ELSE <<NodeOf([NoVal EXCEPT !.string = <<f[i].name>>], f[i].x)>> \o FieldsOf(f, i + 1)

Forest(x) ==
  CASE x.g = "ptr" -> Forest(x.x)
    [] x.g = "struct" -> FieldsOf(x.f, 1)
    [] x.g = "slice" -> [i \in 1 .. Len(x.e) |-> NodeOf([NoVal EXCEPT !.int = <<IntKey(i - 1)>>], x.e[i])]
    [] x.g = "scalar" -> <<Leaf([NoVal EXCEPT ![x.t] = <<x.v>>], {})>>
    [] OTHER -> <<Leaf(NoVal, {})>>

DocOf(d) == <<"doc", Forest(d)>>
=============================================================================
