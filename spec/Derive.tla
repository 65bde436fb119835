------------------------------ MODULE Derive ------------------------------
(***************************************************************************)
(* The algorithm of the engines, as a state machine that reads a tree      *)
(* event by event, checked against the meaning in Relapse: for every small *)
(* grammar and tree, and for every choice of when to cut corners, what is  *)
(* left in the end matches nothing-at-all iff the tree is valid.           *)
(*                                                                         *)
(* ps are the patterns that the siblings from here on have to match.       *)
(* Entering a node asks the conditions of ps (calls) and goes on with a    *)
(* pattern for each; leaving it takes what is nullable back into ps        *)
(* (returns).  Corners: patterns that occur twice are kept once (zip), and *)
(* when ps consists of ZAny and its complement the rest of the siblings is *)
(* not looked at (escape).                                                 *)
(***************************************************************************)
EXTENDS Relapse, SmallGrammars, TLC

ZAny == [k |-> "zany"]
Nothing == [k |-> "not", a |-> ZAny]
Empty == [k |-> "empty"]

\* the patterns of SmallGrammars as those of Relapse
None == [double |-> <<>>, int |-> <<>>, uint |-> <<>>, bool |-> <<>>, string |-> <<>>, bytes |-> <<>>]
LabelOf(x) == CASE x = "a" -> [None EXCEPT !.string = << <<97>> >>]
                [] x = "b" -> [None EXCEPT !.string = << <<98>> >>]
                [] x = "1" -> [None EXCEPT !.int = << IntKey(1) >>]
NameA == [k |-> "name", t |-> "string", v |-> <<97>>]
NameOf(x) == CASE x = "a" -> NameA [] x = "!a" -> [k |-> "not", a |-> NameA] [] x = "_" -> [k |-> "any"]
IsOne == [k |-> "op", n |-> "==", t |-> "bool", a |-> << [k |-> "const", t |-> "int", v |-> IntKey(1)] >>]

RECURSIVE Full(_), Tree(_)
Full(p) == CASE p.k = "leaf" -> [k |-> "leaf", e |-> IsOne]
             [] p.k = "tree" -> [k |-> "tree", n |-> NameOf(p.n), a |-> Full(p.a)]
             [] p.k \in Unary -> [k |-> p.k, a |-> Full(p.a)]
             [] p.k \in Binary -> [k |-> p.k, a |-> Full(p.a), b |-> Full(p.b)]
             [] p.k = "ref" -> [k |-> "ref", r |-> "r"]
             [] OTHER -> p
Tree(s) == [i \in 1 .. Len(s) |-> [l |-> LabelOf(s[i][1]), c |-> Tree(s[i][2])]]

RECURSIVE Nullable(_, _), Calls(_, _), Ret(_, _, _)
Nullable(G, p) ==
  CASE p.k \in {"empty", "zany", "star", "opt"} -> TRUE
    [] p.k \in {"tree", "leaf"} -> FALSE
    [] p.k = "or" -> Nullable(G, p.a) \/ Nullable(G, p.b)
    [] p.k \in {"and", "concat", "inter"} -> Nullable(G, p.a) /\ Nullable(G, p.b)
    [] p.k = "not" -> ~Nullable(G, p.a)
    [] p.k = "contains" -> Nullable(G, p.a)
    [] p.k = "ref" -> Nullable(G, G[p.r])

Concat(p, q) == IF Nothing \in {p, q} THEN Nothing ELSE IF p = Empty THEN q ELSE IF q = Empty THEN p ELSE [k |-> "concat", a |-> p, b |-> q]
Or(p, q) == IF ZAny \in {p, q} THEN ZAny ELSE IF p = Nothing \/ p = q THEN q ELSE IF q = Nothing THEN p ELSE [k |-> "or", a |-> p, b |-> q]
And(p, q) == IF Nothing \in {p, q} THEN Nothing ELSE IF p = ZAny \/ p = q THEN q ELSE IF q = ZAny THEN p ELSE [k |-> "and", a |-> p, b |-> q]
Inter(p, q) == IF Nothing \in {p, q} THEN Nothing ELSE IF p = Empty THEN q ELSE IF q = Empty THEN p ELSE [k |-> "inter", a |-> p, b |-> q]
Not(p) == IF p.k = "not" THEN p.a ELSE [k |-> "not", a |-> p]

\* what contains and opt stand for
ContainsOf(p) == Concat(ZAny, Concat(p, ZAny))

\* the conditions of a pattern, each with what has to follow below the node
Calls(G, p) ==
  CASE p.k \in {"empty", "zany"} -> <<>>
    [] p.k = "tree" -> <<[n |-> p.n, then |-> p.a]>>
    [] p.k = "leaf" -> <<[e |-> p.e, then |-> Empty]>>
    [] p.k = "concat" -> IF Nullable(G, p.a) THEN Calls(G, p.a) \o Calls(G, p.b) ELSE Calls(G, p.a)
    [] p.k \in {"or", "and", "inter"} -> Calls(G, p.a) \o Calls(G, p.b)
    [] p.k \in {"not", "star", "opt"} -> Calls(G, p.a)
    [] p.k = "contains" -> Calls(G, ContainsOf(p.a))
    [] p.k = "ref" -> Calls(G, G[p.r])

Below(x, l) == IF (IF "n" \in DOMAIN x THEN NameOK(x.n, l) ELSE Truth(x.e, l)) THEN x.then ELSE Nothing

\* <<what is left of p, the answers that are left>>; nulls: which calls ended well
Ret(G, p, nulls) ==
  LET both(f(_, _)) == LET x == Ret(G, p.a, nulls)  y == Ret(G, p.b, x[2]) IN <<f(x[1], y[1]), y[2]>> IN
  CASE p.k = "empty" -> <<Nothing, nulls>>
    [] p.k = "zany" -> <<ZAny, nulls>>
    [] p.k \in {"tree", "leaf"} -> <<IF Head(nulls) THEN Empty ELSE Nothing, Tail(nulls)>>
    [] p.k = "concat" -> LET x == Ret(G, p.a, nulls)  left == Concat(x[1], p.b) IN
                         IF ~Nullable(G, p.a) THEN <<left, x[2]>>
                         ELSE LET y == Ret(G, p.b, x[2]) IN <<Or(left, y[1]), y[2]>>
    [] p.k = "or" -> both(Or)
    [] p.k = "and" -> both(And)
    [] p.k = "inter" -> both(LAMBDA x, y : Or(Inter(x, p.b), Inter(p.a, y)))
    [] p.k = "not" -> LET x == Ret(G, p.a, nulls) IN <<Not(x[1]), x[2]>>
    [] p.k = "star" -> LET x == Ret(G, p.a, nulls) IN <<Concat(x[1], p), x[2]>>
    [] p.k = "opt" -> Ret(G, p.a, nulls)
    [] p.k = "contains" -> Ret(G, ContainsOf(p.a), nulls)
    [] p.k = "ref" -> Ret(G, G[p.r], nulls)

VARIABLES G, forest,
          rest,   \* the siblings that are to be read, from the top down to the current level
          stack,  \* patterns and zip of the levels above
          ps
vars == <<G, forest, rest, stack, ps>>

Init == /\ \E g \in Grammars : G = [r \in DOMAIN g |-> Full(g[r])]
        /\ \E t \in TreeSet : forest = Tree(t)
        /\ rest = <<forest>> /\ stack = <<>> /\ ps = <<G["main"]>>

Siblings == rest[Len(rest)]
Above == SubSeq(rest, 1, Len(rest) - 1)

RECURSIVE CallsOf(_), RetOf(_, _, _)
CallsOf(qs) == IF qs = <<>> THEN <<>> ELSE Calls(G, Head(qs)) \o CallsOf(Tail(qs))
RetOf(g, qs, nulls) == IF qs = <<>> THEN <<>> ELSE LET x == Ret(g, Head(qs), nulls) IN <<x[1]>> \o RetOf(g, Tail(qs), x[2])

\* patterns of qs, each once, and for each of qs where it is now
Once(qs) == SelectSeq([i \in 1 .. Len(qs) |-> <<i, qs[i]>>], LAMBDA x : \A j \in 1 .. x[1] - 1 : qs[j] # x[2])
ZipOf(qs) == LET o == Once(qs) IN <<[i \in 1 .. Len(o) |-> o[i][2]], [i \in 1 .. Len(qs) |-> CHOOSE j \in 1 .. Len(o) : o[j][2] = qs[i]]>>

Enter == /\ Siblings # <<>>
         /\ LET nd == Head(Siblings)
                cs == CallsOf(ps)
                qs == [i \in 1 .. Len(cs) |-> Below(cs[i], nd.l)] IN
            /\ rest' = Above \o <<Tail(Siblings), nd.c>>
            /\ \/ ps' = qs /\ stack' = Append(stack, <<ps, [i \in 1 .. Len(qs) |-> i]>>)
               \/ LET z == ZipOf(qs) IN ps' = z[1] /\ stack' = Append(stack, <<ps, z[2]>>)
         /\ UNCHANGED <<G, forest>>

Leave == /\ Siblings = <<>> /\ stack # <<>>
         /\ LET top == stack[Len(stack)] IN
            ps' = RetOf(G, top[1], [i \in 1 .. Len(top[2]) |-> Nullable(G, ps[top[2][i]])])
         /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
         /\ rest' = Above /\ UNCHANGED <<G, forest>>

Escape == /\ Siblings # <<>> /\ \A i \in 1 .. Len(ps) : ps[i] \in {ZAny, Nothing}
          /\ rest' = Above \o << <<>> >> /\ UNCHANGED <<G, forest, stack, ps>>

Next == Enter \/ Leave \/ Escape
Spec == Init /\ [][Next]_vars

\* at every time the patterns at hand stand for the verdict of the rest
Refines == stack = <<>> => /\ Len(ps) = 1
                           /\ Matches(G, ps[1], Siblings) = Valid(G, forest)
\* and below, for what the node above is waiting for
Levels == \A i \in 1 .. Len(ps) : stack # <<>> /\ Siblings = <<>> => Matches(G, ps[i], <<>>) = Nullable(G, ps[i])
Ends0 == stack = <<>> /\ Siblings = <<>> => Nullable(G, ps[1]) = Valid(G, forest)
=============================================================================
