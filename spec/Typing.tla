------------------------------- MODULE Typing -------------------------------
(***************************************************************************)
(* The type system of condition expressions.  Programs can register        *)
(* functions of their own: Resolve gives every use of one its description, *)
(* the first one that was registered with the name and the types of the    *)
(* parameters (see UserTrace).                                             *)
(***************************************************************************)
EXTENDS Funcs

Singles == {"double", "int", "uint", "bool", "string", "bytes"}
Lists == {"doubles", "ints", "uints", "bools", "strings", "byteses"}
ListOf(t) == CHOOSE l \in Lists : ElemType(l) = t

\* the type of fn(ins), or "none"
Sig(n, ins) ==
  LET k == Len(ins) IN
  CASE n \in {"eq", "ne"} -> IF k = 2 /\ ins[1] = ins[2] /\ ins[1] \in Singles THEN "bool" ELSE "none"
    [] n \in {"lt", "le", "gt", "ge"} -> IF k = 2 /\ ins[1] = ins[2] /\ Ordered(ins[1]) THEN "bool" ELSE "none"
    [] n \in {"and", "or"} -> IF ins = <<"bool", "bool">> THEN "bool" ELSE "none"
    [] n = "not" -> IF ins = <<"bool">> THEN "bool" ELSE "none"
    [] n = "contains" -> IF k = 2 /\ (ins = <<"string", "string">> \/ (ins[1] \in {"string", "int", "uint"} /\ ins[2] = ListOf(ins[1])))
                         THEN "bool" ELSE "none"
    [] n \in {"hasPrefix", "hasSuffix", "eqFold", "regex"} -> IF ins = <<"string", "string">> THEN "bool" ELSE "none"
    [] n \in {"toLower", "toUpper"} -> IF ins = <<"string">> THEN "string" ELSE "none"
    [] n = "type" -> IF k = 1 /\ ins[1] \in Singles THEN "bool" ELSE "none"
    [] n = "length" -> IF k = 1 /\ ins[1] \in Lists \cup {"string", "bytes"} THEN "int" ELSE "none"
    [] n = "elem" -> IF k = 2 /\ ins[1] \in Lists /\ ins[2] = "int" THEN ElemType(ins[1]) ELSE "none"
    [] n = "range" -> IF k = 3 /\ ins[1] \in Lists /\ ins[2] = "int" /\ ins[3] = "int" THEN ins[1] ELSE "none"
    [] n = "print" -> IF k = 1 THEN ins[1] ELSE "none"
    [] n = "now" -> IF k = 0 THEN "int" ELSE "none"
    [] OTHER -> "none"

\* op x as a function
AsFn(e, t) == LET f == CHOOSE f \in DOMAIN OpFn : OpFn[f] = e.n
                  v == [k |-> "var", t |-> IF t \in Lists THEN ElemType(t) ELSE t]
              IN IF f = "regex" THEN [k |-> "fn", n |-> f, a |-> <<e.a[1], [k |-> "var", t |-> "string"]>>]
                 ELSE IF f = "type" THEN [k |-> "fn", n |-> f, a |-> <<e.a[1]>>]
                 ELSE [k |-> "fn", n |-> f, a |-> <<v, e.a[1]>>]

RECURSIVE TypeOf(_)
TypeOf(e) ==
  CASE e.k \in {"const", "var"} -> e.t
    [] e.k = "list" -> IF \A i \in 1 .. Len(e.a) : TypeOf(e.a[i]) = ElemType(e.t) THEN e.t ELSE "none"
    [] e.k = "fn" -> LET ins == [i \in 1 .. Len(e.a) |-> TypeOf(e.a[i])]
                     IN IF \E i \in 1 .. Len(ins) : ins[i] = "none" THEN "none" ELSE Sig(e.n, ins)
    [] e.k = "user" -> e.t
    [] e.k = "op" -> LET t == TypeOf(e.a[1]) IN IF t = "none" THEN "none" ELSE TypeOf(AsFn(e, t))

RECURSIVE Literal(_)
Literal(e) == e.k = "const" \/ (e.k = "list" /\ \A i \in 1 .. Len(e.a) : Literal(e.a[i]))
RECURSIVE HasVar(_)
HasVar(e) == e.k = "var" \/ (e.k = "fn" /\ e.n = "now") \/ (e.k = "user" /\ e.f.always) \/ (e.k # "const" /\ \E i \in 1 .. Len(e.a) : HasVar(e.a[i]))

BadRegex == {<<40>>, <<91>>, <<42>>, <<97, 41>>}     \* ( [ * a)

\* what has to be constant in fn(a): "yes" it is, "no" it is not, "open" when
\* it has no variables but is not a literal
ConstArgs(n, a) ==
  LET p == IF n = "regex" /\ Len(a) = 2 THEN 1
           ELSE IF n = "contains" /\ Len(a) = 2 /\ TypeOf(a[2]) \in Lists THEN 2 ELSE 0
  IN IF p = 0 THEN "yes"
     ELSE IF HasVar(a[p]) THEN "no"
     ELSE IF ~Literal(a[p]) THEN "open"
     ELSE IF n = "regex" /\ a[p].v \in BadRegex THEN "no" ELSE "yes"

RECURSIVE Consts(_)
Consts(e) ==
  IF e.k \in {"const", "var"} THEN {"yes"}
  ELSE LET x == IF e.k = "op" THEN AsFn(e, TypeOf(e.a[1])) ELSE e
       IN UNION {Consts(x.a[i]) : i \in 1 .. Len(x.a)} \cup (IF x.k = "fn" THEN {ConstArgs(x.n, x.a)} ELSE {})

RECURSIVE CtorFails(_)
CtorFails(e) == e.k \notin {"const", "var"} /\ ((e.k = "user" /\ e.f.ctor = "fail") \/ \E i \in 1 .. Len(e.a) : CtorFails(e.a[i]))

Allowed(e) ==
  IF TypeOf(e) # "bool" \/ CtorFails(e) THEN {"error"}
  ELSE LET cs == Consts(e) IN
       IF "no" \in cs THEN {"error"} ELSE IF "open" \in cs THEN {"ok", "error"} ELSE {"ok"}

RECURSIVE Resolve(_, _)
Resolve(e, fns) ==
  IF e.k \in {"const", "var"} THEN e
  ELSE LET x == [e EXCEPT !.a = [i \in 1 .. Len(e.a) |-> Resolve(e.a[i], fns)]] IN
       IF e.k # "fn" THEN x
       ELSE LET ins == [i \in 1 .. Len(x.a) |-> TypeOf(x.a[i])]
                hits == {i \in 1 .. Len(fns) : fns[i].n = e.n /\ fns[i].ins = ins}
            IN IF Sig(e.n, ins) # "none" \/ hits = {} THEN x
               ELSE LET f == fns[CHOOSE i \in hits : \A j \in hits : i <= j]
                    IN [k |-> "user", n |-> e.n, t |-> f.out, f |-> f, a |-> x.a]
=============================================================================
