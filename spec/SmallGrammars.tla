---------------------------- MODULE SmallGrammars ----------------------------
(***************************************************************************)
(* All small grammars and all small trees.  Patterns have                  *)
(* at most SIZE operators and atoms over two names, a condition (== 1) and *)
(* the two constants.  With REC > 0 also all grammars of a main pattern    *)
(* and a pattern r that refers to itself or is referred to (below a name), *)
(* of at most REC operators and atoms each.  Trees have at most NODES      *)
(* nodes with labels a, b and 1.                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS SIZE, REC, NODES

Atoms == {[k |-> "empty"], [k |-> "zany"], [k |-> "leaf"]}
Names == {"a", "!a", "_"}
Unary == {"not", "opt", "star", "contains"}
Binary == {"concat", "or", "and", "inter"}

\* patterns of exactly n operators and atoms
RECURSIVE Pats(_, _)
Pats(n, refs) ==
  IF n = 0 THEN {}
  ELSE (IF n = 1 THEN Atoms ELSE {})
       \cup (IF n = 2 /\ refs THEN {[k |-> "tree", n |-> x, a |-> [k |-> "ref"]] : x \in Names} ELSE {})
       \cup (IF n = 1 THEN {}
             ELSE LET S == Pats(n - 1, refs) IN
                  {[k |-> u, a |-> p] : u \in Unary, p \in S} \cup {[k |-> "tree", n |-> x, a |-> p] : x \in Names, p \in S})
       \cup UNION {LET A == Pats(m, refs)  B == Pats(n - 1 - m, refs) IN {[k |-> b, a |-> p, b |-> q] : b \in Binary, p \in A, q \in B} : m \in 1 .. n - 2}

UpTo(n, refs) == UNION {Pats(m, refs) : m \in 1 .. n}

RECURSIVE Refs(_)
Refs(p) == CASE p.k = "ref" -> TRUE
             [] p.k \in Unary \cup {"tree"} -> Refs(p.a)
             [] p.k \in Binary -> Refs(p.a) \/ Refs(p.b)
             [] OTHER -> FALSE

Grammars == {[main |-> p] : p \in UpTo(SIZE, FALSE)}
            \cup {[main |-> p, r |-> q] : p \in {x \in UpTo(REC, TRUE) : Refs(x)}, q \in UpTo(REC, TRUE)}

Labels == {"a", "b", "1"}
RECURSIVE Forests(_)
Forests(n) == IF n = 0 THEN {<<>>}
              ELSE UNION {{<<<<l, ch>>>> \o rest : l \in Labels, ch \in Forests(m), rest \in Forests(n - 1 - m)} : m \in 0 .. n - 1}
TreeSet == UNION {Forests(n) : n \in 0 .. NODES}

=============================================================================
