----------------------------- MODULE AstTrace -----------------------------
(***************************************************************************)
(* What the abstract syntax tree of patterns promises.  A trace has three  *)
(* patterns (their syntax trees in prefix form, with the texts that they   *)
(* were parsed from), what Compare, Equal and Hash said about them, a      *)
(* clone of the first one that was modified afterwards, and the nodes that *)
(* Walk visited.                                                           *)
(***************************************************************************)
EXTENDS TraceLib, FiniteSets

VARIABLES c, done

Sign(n) == IF n < 0 THEN -1 ELSE IF n > 0 THEN 1 ELSE 0

\* the nodes of a syntax tree in the order of a walk: <<next position, kinds>>
RECURSIVE NameNodes(_, _), PatNodes(_, _), SkipExpr(_, _), SkipExprs(_, _, _)
SkipExprs(s, i, n) == IF n = 0 THEN i ELSE SkipExprs(s, SkipExpr(s, i), n - 1)
Num(x) == CHOOSE n \in 0 .. 100 : ToString(n) = x
SkipExpr(s, i) ==
  CASE s[i] = "->" -> SkipExpr(s, i + 1)
    [] s[i] \in {"lit", "var"} -> i + 2
    [] s[i] = "op" -> SkipExpr(s, i + 2)
    [] s[i] \in {"fn", "list"} -> SkipExprs(s, i + 3, Num(s[i + 2]))
NameNodes(s, i) ==
  CASE s[i] = "any" -> <<i + 1, <<"NameExpr", "AnyName">>>>
    [] s[i] = "name" -> <<i + 2, <<"NameExpr", "Name">>>>
    [] s[i] = "except" -> LET a == NameNodes(s, i + 1) IN <<a[1], <<"NameExpr", "AnyNameExcept">> \o a[2]>>
    [] s[i] = "choice" -> LET a == NameNodes(s, i + 1)
                              b == NameNodes(s, a[1]) IN <<b[1], <<"NameExpr", "NameChoice">> \o a[2] \o b[2]>>
NodeOf == [empty |-> "Empty", zany |-> "ZAny", leaf |-> "LeafNode", tree |-> "TreeNode", contains |-> "Contains", ref |-> "Reference",
           concat |-> "Concat", inter |-> "Interleave", or |-> "Or", and |-> "And", star |-> "ZeroOrMore", opt |-> "Optional", not |-> "Not"]
PatNodes(s, i) ==
  LET me == <<"Pattern", NodeOf[s[i]]>> IN
  CASE s[i] \in {"empty", "zany"} -> <<i + 1, me>>
    [] s[i] = "ref" -> <<i + 2, me>>
    [] s[i] = "leaf" -> <<SkipExpr(s, i + 1), me>>
    [] s[i] = "tree" -> LET a == NameNodes(s, i + 1)
                            b == PatNodes(s, a[1]) IN <<b[1], me \o a[2] \o b[2]>>
    [] s[i] \in {"contains", "star", "opt", "not"} -> LET a == PatNodes(s, i + 1) IN <<a[1], me \o a[2]>>
    [] OTHER -> LET a == PatNodes(s, i + 1)
                    b == PatNodes(s, a[1]) IN <<b[1], me \o a[2] \o b[2]>>

N == 3
Idx == 1 .. N

Wrong(r) ==
  LET cmp(i, j) == Sign(r.cmp[i][j])
      eq(i, j) == r.eq[i][j]
  IN   {<<"Compare is not 0 for the same", i>> : i \in {i \in Idx : cmp(i, i) # 0}}
  \cup {<<"Compare is not antisymmetric", p>> : p \in {p \in Idx \X Idx : cmp(p[1], p[2]) # -cmp(p[2], p[1])}}
  \cup {<<"Compare is not transitive", p>> : p \in {p \in Idx \X Idx \X Idx : cmp(p[1], p[2]) <= 0 /\ cmp(p[2], p[3]) <= 0 /\ cmp(p[1], p[3]) > 0}}
  \cup {<<"Equal is not Compare = 0", p>> : p \in {p \in Idx \X Idx : eq(p[1], p[2]) # (cmp(p[1], p[2]) = 0)}}
  \cup {<<"equal, with different hashes", p>> : p \in {p \in Idx \X Idx : eq(p[1], p[2]) /\ r.hash[p[1]] # r.hash[p[2]]}}
  \cup {<<"equal, with different trees", p>> : p \in {p \in Idx \X Idx : eq(p[1], p[2]) /\ r.asts[p[1]] # r.asts[p[2]]}}
  \cup {<<"not equal, parsed from the same text", p>> : p \in {p \in Idx \X Idx : ~eq(p[1], p[2]) /\ r.texts[p[1]] = r.texts[p[2]]}}
  \cup {<<"grammars: Equal differs from that of their patterns", p>> : p \in {p \in Idx \X Idx : r.geq[p[1]][p[2]] # eq(p[1], p[2])}}
  \cup (IF r.cloneEq THEN {} ELSE {<<"a clone is not equal">>})
  \cup (IF r.cloneText THEN {} ELSE {<<"a clone prints as something else">>})
  \cup (IF r.intact THEN {} ELSE {<<"modifying a clone modifies the original">>})
  \cup (IF r.walk = PatNodes(r.asts[1], 1)[2] THEN {} ELSE {<<"walk", r.walk, PatNodes(r.asts[1], 1)[2]>>})

Judge(r) ==
  IF r.failed # "" THEN Mismatch([id |-> r.id, what |-> r.failed])
  ELSE LET w == Wrong(r) IN
       /\ Count(1)
       /\ IF r.eq[1][2] THEN Count(2) ELSE Count(3)
       /\ IF w = {} THEN TRUE ELSE Mismatch([id |-> r.id, wrong |-> w])

Init == c \in 1 .. Len(Cases) /\ done = FALSE
Next == ~done /\ Judge(Cases[c]) /\ done' = TRUE /\ UNCHANGED c

Done == PrintStats(<<"triples", "first two equal", "first two different">>)
=============================================================================
