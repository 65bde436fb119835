--------------------------- MODULE GrammarTrace ---------------------------
(***************************************************************************)
(* What the code says about grammars: HasRecursion (a pattern reaches      *)
(* itself through references without passing a tree node), Nullable (it    *)
(* matches the empty forest), and that a grammar that refers to something  *)
(* undefined, or has no main pattern, is refused with an error.            *)
(***************************************************************************)
EXTENDS Relapse, TraceLib

VARIABLES c, done

\* references of a pattern that are not below a tree node / all of them
RECURSIVE RefsOf(_, _)
RefsOf(p, deep) ==
  CASE p.k = "ref" -> {p.r}
    [] p.k = "tree" -> IF deep THEN RefsOf(p.a, deep) ELSE {}
    [] p.k \in {"not", "opt", "star", "contains"} -> RefsOf(p.a, deep)
    [] p.k \in {"concat", "or", "and", "inter"} -> RefsOf(p.a, deep) \cup RefsOf(p.b, deep)
    [] OTHER -> {}

Defined(r) == DOMAIN r.g \ (IF r.nomain THEN {"main"} ELSE {})

RECURSIVE Reach(_, _, _)
Reach(r, S, n) == IF n = 0 THEN S
                  ELSE Reach(r, S \cup UNION {RefsOf(r.g[x], FALSE) : x \in S \cap Defined(r)}, n - 1)

LeftRecursive(r) == \E x \in Defined(r) : x \in Reach(r, RefsOf(r.g[x], FALSE), Cardinality(DOMAIN r.g))

Closed(r) == \A x \in Defined(r) : RefsOf(r.g[x], TRUE) \subseteq Defined(r)

B(b) == IF b THEN "T" ELSE "F"

Judge(r) ==
  LET lr == LeftRecursive(r)
      cl == Closed(r) /\ ~r.nomain
  IN /\ Count(IF lr THEN 1 ELSE 2)
     /\ IF r.rec # B(lr) THEN Mismatch([id |-> r.id, what |-> "HasRecursion", said |-> r.rec, is |-> lr])
        ELSE IF lr THEN TRUE
        ELSE IF ~cl THEN /\ Count(3)
                         /\ LET w == {e \in DOMAIN r.out : r.out[e] # "E"} IN
                            IF w = {} THEN TRUE ELSE Mismatch([id |-> r.id, what |-> "undefined reference accepted", engines |-> w])
        ELSE /\ \A i \in 1 .. Len(r.nullable) :
                  LET x == r.nullable[i]
                      v == B(Matches(r.g, r.g[x.name], <<>>))
                  IN /\ Count(4)
                     /\ IF x.v = v THEN TRUE ELSE Mismatch([id |-> r.id, what |-> "Nullable", name |-> x.name, said |-> x.v])
             /\ LET v == B(Valid(r.g, r.t))
                    w == {e \in DOMAIN r.out : r.out[e] # v}
                IN IF ErrFree(r.g, r.t) /\ w # {} THEN Mismatch([id |-> r.id, what |-> "verdict", engines |-> w]) ELSE Count(5)

Init == c \in 1 .. Len(Cases) /\ done = FALSE
Next == ~done /\ Judge(Cases[c]) /\ done' = TRUE /\ UNCHANGED c

Done == PrintStats(<<"left recursive", "not left recursive", "undefined or no main", "nullable", "verdicts">>)
=============================================================================
