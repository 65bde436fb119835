------------------------------- MODULE Funcs -------------------------------
(***************************************************************************)
(* Evaluation of condition expressions against one label.  A label answers *)
(* each of the six typed accessors with <<v>> or with <<>> (an error).     *)
(* A result is <<TRUE, v>>, or <<FALSE>> for an error.                     *)
(***************************************************************************)
EXTENDS Values

Err == <<FALSE>>
Val(v) == <<TRUE, v>>

Ordered(t) == t \in {"double", "int", "uint", "bytes"}

Cmp(op, t, a, b) ==
  IF t = "double" /\ (a = NaN \/ b = NaN) THEN op = "ne"
  ELSE CASE op = "eq" -> a = b
         [] op = "ne" -> a # b
         [] op = "lt" -> Lex(a, b) < 0
         [] op = "le" -> Lex(a, b) <= 0
         [] op = "gt" -> Lex(a, b) > 0
         [] op = "ge" -> Lex(a, b) >= 0

OpFn == [eq |-> "==", ne |-> "!=", lt |-> "<", gt |-> ">", le |-> "<=", ge |-> ">=",
         regex |-> "~=", contains |-> "*=", hasPrefix |-> "^=", hasSuffix |-> "$=", type |-> "::"]

ElemType(t) == CASE t = "doubles" -> "double" [] t = "ints" -> "int" [] t = "uints" -> "uint"
                 [] t = "bools" -> "bool" [] t = "strings" -> "string" [] t = "byteses" -> "bytes"
IsListType(t) == t \in {"doubles", "ints", "uints", "bools", "strings", "byteses"}
Single(t) == IF IsListType(t) THEN ElemType(t) ELSE t

\* `op x`  is  fn($t, x);  regex takes the expression first; type only looks at x
Desugar(e) ==
  LET f == CHOOSE f \in DOMAIN OpFn : OpFn[f] = e.n
      x == e.a[1]
      v == [k |-> "var", t |-> Single(x.t)]
  IN IF f = "regex" THEN [k |-> "fn", n |-> f, t |-> "bool", re |-> e.re,
                          a |-> <<x, [k |-> "var", t |-> "string"]>>]
     ELSE IF f = "type" THEN [k |-> "fn", n |-> f, t |-> "bool", a |-> <<x>>]
     ELSE [k |-> "fn", n |-> f, t |-> "bool", a |-> <<v, x>>]

\* index of the n'th element (0 based key), negative indexes count modulo the
\* length from the end
Idx(k, n) == IF NegKey(k) THEN ModKey(k, n) ELSE IF IsSmallInt(k) THEN SmallInt(k) ELSE 1000000

RECURSIVE Ev(_, _)
RECURSIVE EvList(_, _, _, _)

EvList(as, l, i, acc) ==
  IF i > Len(as) THEN Val(acc)
  ELSE LET r == Ev(as[i], l) IN IF r[1] THEN EvList(as, l, i + 1, Append(acc, r[2])) ELSE Err

EvFn(e, l) ==
  LET n == e.n
      a1 == e.a[1]
      r1 == Ev(e.a[1], l)
      r2 == Ev(e.a[2], l)
      r3 == Ev(e.a[3], l)
  IN
  CASE n = "not" -> Val(~(r1[1] /\ r1[2]))
    [] n = "and" -> IF ~r1[1] THEN Err ELSE IF ~r1[2] THEN Val(FALSE) ELSE r2
    [] n = "or" -> IF r1[1] /\ r1[2] THEN Val(TRUE) ELSE r2
    [] n \in {"eq", "ne", "lt", "le", "gt", "ge"} ->
         IF r1[1] /\ r2[1] THEN Val(Cmp(n, a1.t, r1[2], r2[2])) ELSE Val(FALSE)
    [] n = "type" -> Val(r1[1])
    [] n = "contains" ->
         IF r1[1] /\ r2[1]
         THEN IF e.a[2].t = "string" THEN Val(HasSub(r2[2], r1[2])) ELSE Val(SeqMem(r1[2], r2[2]))
         ELSE Err
    [] n = "hasPrefix" -> IF r1[1] /\ r2[1] THEN Val(IsPrefix(r2[2], r1[2])) ELSE Err
    [] n = "hasSuffix" -> IF r1[1] /\ r2[1] THEN Val(IsSuffix(r2[2], r1[2])) ELSE Err
    [] n = "eqFold" -> IF r1[1] /\ r2[1] THEN Val(LowerS(r1[2]) = LowerS(r2[2])) ELSE Err
    [] n = "toLower" -> IF r1[1] THEN Val(LowerS(r1[2])) ELSE Err
    [] n = "toUpper" -> IF r1[1] THEN Val(UpperS(r1[2])) ELSE Err
    [] n = "regex" -> IF r2[1] THEN Val(ReMatch(e.re, r2[2])) ELSE Err
    [] n = "length" -> IF r1[1] THEN Val(IntKey(Len(r1[2]))) ELSE Err
    [] n = "elem" ->
         IF ~r1[1] \/ ~r2[1] THEN Err
         ELSE LET len == Len(r1[2]) IN
              IF len = 0 THEN Err
              ELSE LET i == Idx(r2[2], len) IN IF i >= len THEN Err ELSE Val(r1[2][i + 1])
    [] n = "range" ->
         IF ~r1[1] \/ ~r2[1] \/ ~r3[1] THEN Err
         ELSE LET len == Len(r1[2]) IN
              IF len = 0 THEN Err
              ELSE LET i == Idx(r2[2], len)
                       j == Idx(r3[2], len)
                   IN IF i > len \/ j > len \/ i > j THEN Err ELSE Val(SubSeq(r1[2], i + 1, j))
    [] n = "print" -> r1

\* a function that the program registered: e.f says what it does (see UserTrace)
EvUser(e, l) ==
  LET f == e.f
      rs == [i \in 1 .. Len(e.a) |-> Ev(e.a[i], l)]
  IN
  CASE f.how = "const" -> Val(f.v)
    [] f.how = "err" -> Err
    [] f.how = "arg" -> rs[f.i]
    [] f.how = "count" -> Val(IntKey(Cardinality({i \in 1 .. Len(rs) : rs[i][1]})))
    [] f.how = "all" -> Val(\A i \in 1 .. Len(rs) : rs[i][1])
    [] f.how = "same" -> IF rs[1][1] /\ rs[2][1] THEN Val(rs[1][2] = rs[2][2]) ELSE Err
    [] f.how = "pick" -> IF ~rs[1][1] THEN Err ELSE IF rs[1][2] THEN rs[2] ELSE rs[3]

Ev(e, l) ==
  CASE e.k = "user" -> EvUser(e, l)
    [] e.k = "const" -> Val(e.v)
    [] e.k = "var" -> IF l[e.t] = <<>> THEN Err ELSE Val(l[e.t][1])
    [] e.k = "ctx" -> IF l[e.n] = <<>> THEN Err ELSE Val(l[e.n][1])    \* see ContextTrace
    [] e.k = "list" -> EvList(e.a, l, 1, <<>>)
    [] e.k = "op" -> EvFn(Desugar(e), l)
    [] e.k = "fn" -> EvFn(e, l)

(***************************************************************************)
(* The truth of a condition is only fixed when it does not fail: an engine *)
(* may rewrite and(x,true) to x, not(not(x)) to x and so on, which is the  *)
(* same for values but not for errors.  So a condition "fails" on a label  *)
(* when it evaluates to an error or when any and/or/not in it has an       *)
(* operand that is an error.  Other errors under a comparison or type()    *)
(* are swallowed by definition.                                            *)
(***************************************************************************)
RECURSIVE LogicFails(_, _)
LogicFails(e, l) ==
  IF e.k \in {"const", "var", "ctx"} THEN FALSE
  ELSE \E i \in 1 .. Len(e.a) :
         \/ e.k = "fn" /\ e.n \in {"not", "and", "or"} /\ ~Ev(e.a[i], l)[1]
         \/ LogicFails(e.a[i], l)

Fails(e, l) == ~Ev(e, l)[1] \/ LogicFails(e, l)

Truth(e, l) == LET r == Ev(e, l) IN r[1] /\ r[2]

=============================================================================
