------------------------------ MODULE Syntax ------------------------------
(***************************************************************************)
(* The syntax of grammars, on tokens (t: the token or its class, v: what   *)
(* it denotes, q: what an identifier denotes as a name, sp: there is space *)
(* or a comment before it).  Syntax trees are written in prefix form, as a *)
(* sequence of strings.  XAt(s, i) is the set of all <<j, tree>> such that *)
(* the tokens i .. j-1 of s are an X.                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Ops == {"==", "!=", "<", ">", ">=", "<=", "~=", "*=", "^=", "$=", "::"}

At(s, i) == IF i <= Len(s) THEN s[i].t ELSE "end"

\* the results R, each followed by the token t
Then(s, R, t) == {<<x[1] + 1, x[2]>> : x \in {x \in R : At(s, x[1]) = t}}

RECURSIVE ExprAt(_, _), ExprsAt(_, _, _, _)
\* the expressions after those in acc, with commas in between
ExprsAt(s, i, n, acc) ==
  UNION {{<<x[1], n + 1, acc \o x[2]>>}
           \cup (IF At(s, x[1]) = "," THEN ExprsAt(s, x[1] + 1, n + 1, acc \o x[2]) ELSE {}) : x \in ExprAt(s, i)}

ArgsAt(s, i, head, close) ==
  {<<y[1] + 1, head \o <<ToString(y[2])>> \o y[3]>> : y \in {y \in ({<<i, 0, <<>>>>} \cup ExprsAt(s, i, 0, <<>>)) : At(s, y[1]) = close}}

BuiltInAt(s, i) == IF At(s, i) \in Ops THEN {<<x[1], <<"op", s[i].t>> \o x[2]>> : x \in ExprAt(s, i + 1)} ELSE {}

ExprAt(s, i) ==
  CASE At(s, i) = "lit" -> {<<i + 1, <<"lit", s[i].v>>>>}
    [] At(s, i) = "var" -> {<<i + 1, <<"var", s[i].v>>>>}
    [] At(s, i) = "id" /\ At(s, i + 1) = "(" -> ArgsAt(s, i + 2, <<"fn", s[i].v>>, ")")
    [] At(s, i) = "ltype" /\ At(s, i + 1) = "{" -> ArgsAt(s, i + 2, <<"list", s[i].v>>, "}")
    [] OTHER -> BuiltInAt(s, i)

AllExprAt(s, i) ==
  IF At(s, i) = "->" THEN {<<x[1], <<"->">> \o x[2]>> : x \in ExprAt(s, i + 1)} ELSE BuiltInAt(s, i)

RECURSIVE NameAt(_, _), ChoiceAt(_, _, _)
\* left, and what follows it with "|" in between
ChoiceAt(s, i, left) ==
  {<<i, left>>} \cup (IF At(s, i) = "|" THEN UNION {ChoiceAt(s, x[1], <<"choice">> \o left \o x[2]) : x \in NameAt(s, i + 1)} ELSE {})

NameAt(s, i) ==
  CASE At(s, i) = "_" -> {<<i + 1, <<"any">>>>}
    [] At(s, i) = "lit" -> {<<i + 1, <<"name", s[i].v>>>>}
    [] At(s, i) = "id" -> {<<i + 1, <<"name", s[i].q>>>>}
    [] At(s, i) = "!" /\ At(s, i + 1) = "(" -> {<<x[1], <<"except">> \o x[2]>> : x \in Then(s, NameAt(s, i + 2), ")")}
    [] At(s, i) = "(" ->
         UNION {{<<z[1], <<"choice">> \o x[2] \o z[2]>> : z \in Then(s, UNION {ChoiceAt(s, y[1], y[2]) : y \in NameAt(s, x[1])}, ")")}
                  : x \in Then(s, NameAt(s, i + 1), "|")}
    [] OTHER -> {}

RECURSIVE PatAt(_, _), SeqAt(_, _, _, _, _), DepthAt(_, _)
SeqAt(s, i, sep, kind, left) ==
  {<<i, left>>} \cup (IF At(s, i) = sep THEN UNION {SeqAt(s, x[1], sep, kind, <<kind>> \o left \o x[2]) : x \in PatAt(s, i + 1)} ELSE {})

\* first sep pattern { sep pattern } [sep] close; first has been read
RestAt(s, first, sep, kind, close, extra) ==
  LET seqs == UNION {SeqAt(s, x[1], sep, kind, x[2]) : x \in PatAt(s, first[1] + 1)}
      ends == Then(s, seqs, close) \cup (IF extra THEN Then(s, Then(s, seqs, sep), close) ELSE {})
  IN IF At(s, first[1]) = sep THEN {<<y[1], <<kind>> \o first[2] \o y[2]>> : y \in ends} ELSE {}

\* what can follow a name without a colon
DepthAt(s, i) ==
  CASE At(s, i) = "[" -> UNION {RestAt(s, x, ",", "concat", "]", TRUE) : x \in PatAt(s, i + 1)}
    [] At(s, i) = "{" -> UNION {RestAt(s, x, ";", "inter", "}", TRUE) : x \in PatAt(s, i + 1)}
    [] At(s, i) = "." -> {<<x[1], <<"contains">> \o x[2]>> : x \in PatAt(s, i + 1)}
    [] OTHER -> AllExprAt(s, i)

AsLeaf(s, i) == LET D == DepthAt(s, i) IN
  IF At(s, i) \in {"[", "{", "."} THEN D ELSE {<<x[1], <<"leaf">> \o x[2]>> : x \in D}

TreeAt(s, i) ==
  UNION {{<<x[1], <<"tree">> \o n[2] \o x[2]>> : x \in (IF At(s, n[1]) = ":" THEN PatAt(s, n[1] + 1) ELSE AsLeaf(s, n[1]))} : n \in NameAt(s, i)}

ParenAt(s, i) ==
  UNION {LET c1 == At(s, x[1] + 1) IN
         (IF At(s, x[1]) = ")" /\ c1 = "*" THEN {<<x[1] + 2, <<"star">> \o x[2]>>}
          ELSE IF At(s, x[1]) = ")" /\ c1 = "?" THEN {<<x[1] + 2, <<"opt">> \o x[2]>>}
          ELSE RestAt(s, x, "|", "or", ")", FALSE) \cup RestAt(s, x, "&", "and", ")", FALSE)) : x \in PatAt(s, i + 1)}

PatAt(s, i) ==
  CASE At(s, i) = "<empty>" -> {<<i + 1, <<"empty">>>>}
    [] At(s, i) = "*" -> {<<i + 1, <<"zany">>>>}
    [] At(s, i) = "@" -> IF At(s, i + 1) = "id" /\ ~s[i + 1].sp THEN {<<i + 2, <<"ref", s[i + 1].v>>>>} ELSE {}
    [] At(s, i) = "(" -> ParenAt(s, i) \cup TreeAt(s, i)
    [] At(s, i) = "!" -> (IF At(s, i + 1) = "(" THEN {<<x[1], <<"not">> \o x[2]>> : x \in Then(s, PatAt(s, i + 2), ")")} ELSE {}) \cup TreeAt(s, i)
    [] At(s, i) \in {"_", "lit", "id"} -> TreeAt(s, i)
    [] OTHER -> AsLeaf(s, i)

RECURSIVE DeclsAt(_, _, _)
DeclsAt(s, i, acc) ==
  {<<i, acc>>}
    \cup (IF At(s, i) = "#" /\ At(s, i + 1) = "id" /\ At(s, i + 2) = "="
          THEN UNION {DeclsAt(s, x[1], acc \o <<"decl", s[i + 1].v>> \o x[2]) : x \in PatAt(s, i + 3)} ELSE {})

\* the syntax trees of the whole text
Trees(s) ==
  IF \E i \in 1 .. Len(s) : s[i].t = "bad" THEN {}
  ELSE LET tops == {<<x[1], <<"top">> \o x[2]>> : x \in PatAt(s, 1)}
           all == UNION {DeclsAt(s, x[1], x[2]) : x \in tops \cup {<<1, <<>>>>}}
       IN {x[2] : x \in {x \in all : x[1] = Len(s) + 1 /\ Len(x[2]) > 0}}
=============================================================================
