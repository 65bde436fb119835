------------------------------ MODULE Relapse ------------------------------
(***************************************************************************)
(* The meaning of relapse grammars.  A forest is a sequence of nodes       *)
(* [l |-> label, c |-> forest]; a leaf is a node without children.         *)
(* Ends(G,p,s,i): positions j such that p matches s[i+1..j].               *)
(***************************************************************************)
EXTENDS Funcs

RECURSIVE NameOK(_, _)
NameOK(n, l) ==
  CASE n.k = "any" -> TRUE
    [] n.k = "name" -> l[n.t] # <<>> /\ l[n.t][1] = n.v
    [] n.k = "not" -> ~NameOK(n.a, l)
    [] n.k = "or" -> NameOK(n.a, l) \/ NameOK(n.b, l)

\* all ways to split a sequence in two complementary subsequences
Pick(s, S) == LET F[i \in 0 .. Len(s)] == IF i = 0 THEN <<>> ELSE IF i \in S THEN Append(F[i - 1], s[i]) ELSE F[i - 1]
              IN F[Len(s)]

RECURSIVE Arms(_)
Arms(p) == IF p.k = "inter" THEN Arms(p.a) \o Arms(p.b) ELSE <<p>>

RECURSIVE Ends(_, _, _, _)
RECURSIVE StarClose(_, _, _, _, _)

Matches(G, p, s) == Len(s) \in Ends(G, p, s, 0)

StarClose(G, p, s, done, todo) ==
  IF todo = {} THEN done
  ELSE LET d2 == done \cup todo
           nxt == UNION {Ends(G, p, s, i) : i \in todo}
       IN StarClose(G, p, s, d2, nxt \ d2)

Ends(G, p, s, i) ==
  LET n == Len(s) IN
  CASE p.k = "empty" -> {i}
    [] p.k = "zany" -> i .. n
    [] p.k = "leaf" -> IF i < n /\ s[i + 1].c = <<>> /\ Truth(p.e, s[i + 1].l) THEN {i + 1} ELSE {}
    [] p.k = "tree" -> IF i < n /\ NameOK(p.n, s[i + 1].l) /\ Matches(G, p.a, s[i + 1].c) THEN {i + 1} ELSE {}
    [] p.k = "concat" -> UNION {Ends(G, p.b, s, j) : j \in Ends(G, p.a, s, i)}
    [] p.k = "or" -> Ends(G, p.a, s, i) \cup Ends(G, p.b, s, i)
    [] p.k = "and" -> Ends(G, p.a, s, i) \cap Ends(G, p.b, s, i)
    [] p.k = "not" -> (i .. n) \ Ends(G, p.a, s, i)
    [] p.k = "opt" -> {i} \cup Ends(G, p.a, s, i)
    [] p.k = "star" -> StarClose(G, p.a, s, {}, {i})
    [] p.k = "contains" -> LET ks == UNION {Ends(G, p.a, s, j) : j \in i .. n}
                           IN {j \in i .. n : \E k \in ks : k <= j}
    [] p.k = "inter" -> LET w == SubSeq(s, i + 1, n)
                            arms == Arms(p)
                            sub == SUBSET (1 .. Len(w))
                            \* the sets of positions that the first m arms can take together
                            taken[m \in 0 .. Len(arms)] ==
                              IF m = 0 THEN {{}}
                              ELSE LET T == {S \in sub : Matches(G, arms[m], Pick(w, S))}
                                   IN {x[1] \cup x[2] : x \in {y \in taken[m - 1] \X T : y[1] \cap y[2] = {}}}
                        IN {j \in i .. n : (1 .. (j - i)) \in taken[Len(arms)]}
    [] p.k = "ref" -> Ends(G, G[p.r], s, i)

Valid(G, s) == Matches(G, G["main"], s)

(***************************************************************************)
(* A run is error free when no condition of the grammar fails on any label *)
(* of the tree.  Only then is the verdict fixed: an engine may or may not  *)
(* come across a failing condition.                                        *)
(***************************************************************************)
\* no condition of pattern p fails on a label of L
RECURSIVE NoFail(_, _)
NoFail(p, L) ==
  CASE p.k = "leaf" -> \A l \in L : ~Fails(p.e, l)
    [] p.k \in {"tree", "not", "opt", "star", "contains"} -> NoFail(p.a, L)
    [] p.k \in {"concat", "or", "and", "inter"} -> NoFail(p.a, L) /\ NoFail(p.b, L)
    [] OTHER -> TRUE

RECURSIVE Labels(_)
Labels(s) == UNION {{s[i].l} \cup Labels(s[i].c) : i \in 1 .. Len(s)}

ErrFree(G, s) == LET L == Labels(s) IN \A r \in DOMAIN G : NoFail(G[r], L)

=============================================================================
