------------------------------ MODULE Forests ------------------------------
(***************************************************************************)
(* What a parser shows of a document.  A node has what its six typed       *)
(* accessors give (l: accessor -> <<>> for an error or <<value>>; the      *)
(* accessors in free can give anything), it is a leaf or not, and it has a *)
(* sequence c of children.                                                 *)
(***************************************************************************)
EXTENDS Values

Kinds == {"double", "int", "uint", "bool", "string", "bytes"}
NoVal == [double |-> <<>>, int |-> <<>>, uint |-> <<>>, bool |-> <<>>, string |-> <<>>, bytes |-> <<>>]

Leaf(l, free) == [l |-> l, free |-> free, leaf |-> TRUE, c |-> <<>>]
Inner(l, ch) == [l |-> l, free |-> {}, leaf |-> FALSE, c |-> ch]

Agrees(n, got) == \A kd \in Kinds \ n.free : n.l[kd] = got[kd]

\* a complete walk of F gave W: a sequence of [l, leaf, c]
RECURSIVE Same(_, _)
Same(F, W) ==
  /\ Len(F) = Len(W)
  /\ \A i \in 1 .. Len(F) : /\ F[i].leaf = W[i].leaf
                            /\ Agrees(F[i], W[i].l)
                            /\ Same(F[i].c, W[i].c)
=============================================================================
