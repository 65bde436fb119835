---------------------------- MODULE CursorGen ----------------------------
(***************************************************************************)
(* All client schedules of all small documents.  A document is a value:    *)
(* a leaf, a mapping or a sequence of values; SIZE bounds the number of    *)
(* values in it.  The client of module Cursor moves in it; every history   *)
(* of moves (N: Next, D: Down, U: Up) is a behaviour, printed when it is   *)
(* reached, so that the harness makes the same moves in the real parsers   *)
(* (and a Reset after them).                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANT SIZE
FORMAT == IOEnv.FORMAT

Leaf == [k |-> "leaf", c |-> <<>>]

\* values and sequences of values of exactly n values
RECURSIVE Vals(_), Seqs(_)
Vals(n) == (IF n = 1 THEN {Leaf} ELSE {}) \cup {[k |-> kd, c |-> s] : kd \in {"map", "seq"}, s \in Seqs(n - 1)}
Seqs(n) == IF n = 0 THEN {<<>>} ELSE UNION {{<<v>> \o s : v \in Vals(m), s \in Seqs(n - m)} : m \in 1 .. n}

RECURSIVE Everywhere(_, _)
Everywhere(P(_), v) == P(v) /\ \A i \in 1 .. Len(v.c) : Everywhere(P, v.c[i])

Child(v) == {v.c[i] : i \in 1 .. Len(v.c)}
Uniform(v) == v.k = "seq" => \A x, y \in Child(v) : x.k = y.k

\* what the format can write
Writable(v) ==
  CASE FORMAT = "json" -> TRUE
    [] FORMAT = "reflect" -> Everywhere(Uniform, v)
    [] FORMAT = "proto" -> /\ v.k = "map"
                           /\ Everywhere(LAMBDA x : Uniform(x) /\ (x.k = "seq" => x.c # <<>> /\ \A y \in Child(x) : y.k # "seq"), v)
    [] FORMAT = "yaml" -> /\ v.k # "leaf"
                          /\ Everywhere(LAMBDA x : (x.k # "leaf" => x.c # <<>>) /\ (x.k = "seq" => \A y \in Child(x) : y.k = "leaf" \/ (y.k = "map" /\ Len(y.c) = 1)), v)
    [] FORMAT = "xml" -> \* a sequence is an element whose leaves are attributes
                         /\ v.k = "map" /\ Len(v.c) = 1
                         /\ Everywhere(LAMBDA x : x.k = "seq" => \A i, j \in 1 .. Len(x.c) : i < j /\ x.c[j].k = "leaf" => x.c[i].k = "leaf", v)

Docs == {v \in UNION {Vals(n) : n \in 1 .. SIZE + (IF FORMAT \in {"xml", "proto", "yaml"} THEN 1 ELSE 0)} : Writable(v)}

VARIABLES doc,
          path,    \* at each level the number of the current node (0: before the first, one more than there are: after the last)
          been,    \* the client comes back Up from below the current node
          hist
vars == <<doc, path, been, hist>>

RECURSIVE At(_, _)
At(v, p) == IF p = <<>> THEN v ELSE At(v.c[p[1]], Tail(p))

Here == path[Len(path)]
Parent == At(doc, SubSeq(path, 1, Len(path) - 1))
\* a leaf shows itself as the only node below its label
Width == IF Parent.k = "leaf" THEN 1 ELSE Len(Parent.c)
AtLeaf == Parent.k = "leaf"

Does(op, p) == /\ path' = p /\ been' = (op = "U") /\ hist' = Append(hist, op) /\ UNCHANGED doc
               /\ PrintT("BEH " \o ToJson([doc |-> doc, ops |-> Append(hist, op)]))

Init == doc \in Docs /\ path = <<0>> /\ been = FALSE /\ hist = <<>>
Next == \/ Here <= Width /\ Does("N", [path EXCEPT ![Len(path)] = Here + 1])
        \/ Here \in 1 .. Width /\ ~AtLeaf /\ ~been /\ Does("D", Append(path, 0))
        \/ Len(path) > 1 /\ Does("U", SubSeq(path, 1, Len(path) - 1))
=============================================================================
