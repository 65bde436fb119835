----------------------------- MODULE SetsTrace -----------------------------
(***************************************************************************)
(* The sets that engines are built from.  A trace is a sequence of calls   *)
(* of one object, which is                                                 *)
(*  bits: a number of r.size bits, state s is the sequence of its bits,    *)
(*        lowest first; keep remembers what it was: a later inc does not   *)
(*        change what was kept                                             *)
(*  set:  a set of indexed elements (Ints, Pairs, Patterns, BitsSet), s is *)
(*        the sequence of elements in order of their index                 *)
(*  zip:  a list of patterns, zipped and unzipped                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TraceLib

VARIABLES c, k, s, kept

vars == <<c, k, s, kept>>

LowestFalse(b) == CHOOSE i \in 1 .. Len(b) : ~b[i] /\ \A j \in 1 .. i - 1 : b[j]
Inc(b) == LET z == LowestFalse(b) IN [i \in 1 .. Len(b) |-> IF i < z THEN FALSE ELSE IF i = z THEN TRUE ELSE b[i]]

IndexOf(q, x) == IF \E i \in 1 .. Len(q) : q[i] = x THEN (CHOOSE i \in 1 .. Len(q) : q[i] = x) - 1 ELSE -1

ZANY == [k |-> "zany"]
NOTZANY == [k |-> "not", a |-> [k |-> "zany"]]

\* in: the patterns; zipped; idx; back: unzipped; bits, bback: bits per zipped pattern, unzipped
ZipOK(x) ==
  LET rest == {x.in[i] : i \in 1 .. Len(x.in)} \ {ZANY, NOTZANY} IN
  /\ {x.zipped[i] : i \in 1 .. Len(x.zipped)} = rest
  /\ Cardinality(rest) = Len(x.zipped)
  /\ Len(x.idx) = Len(x.in)
  /\ \A i \in 1 .. Len(x.in) :
       IF x.in[i] = ZANY THEN x.idx[i] = -1
       ELSE IF x.in[i] = NOTZANY THEN x.idx[i] = -2
       ELSE x.idx[i] \in 0 .. Len(x.zipped) - 1 /\ x.zipped[x.idx[i] + 1] = x.in[i]
  /\ x.back = x.in
  /\ Len(x.bback) = Len(x.in)
  /\ \A i \in 1 .. Len(x.in) :
       x.bback[i] = IF x.idx[i] = -1 THEN TRUE ELSE IF x.idx[i] = -2 THEN FALSE ELSE x.bits[x.idx[i] + 1]

Want(x) ==
  CASE x.op = "get" -> s[x.i + 1]
    [] x.op = "equal" -> s = x.bits
    [] x.op = "kept" -> kept
    [] x.op = "list" -> s
    [] x.op = "index" -> IndexOf(s, x.x)
    [] x.op = "add" -> IF IndexOf(s, x.x) >= 0 THEN IndexOf(s, x.x) ELSE Len(s)
    [] OTHER -> x.out

OpNo == [set |-> 1, get |-> 1, inc |-> 2, equal |-> 3, keep |-> 4, kept |-> 4, list |-> 1, index |-> 5, add |-> 6, zip |-> 7]

Step(r, x) ==
  /\ Count(OpNo[x.op])
  /\ IF x.panic THEN Mismatch([id |-> r.id, step |-> k + 1, op |-> x.op, what |-> "panic"])
     ELSE IF x.op = "zip" THEN (IF ZipOK(x) THEN TRUE ELSE Mismatch([id |-> r.id, step |-> k + 1, op |-> "zip", got |-> x]))
     ELSE IF x.out = Want(x) THEN TRUE ELSE Mismatch([id |-> r.id, step |-> k + 1, op |-> x.op, got |-> x.out, want |-> Want(x)])
  /\ s' = CASE x.op = "set" -> [s EXCEPT ![x.i + 1] = x.b]
            [] x.op = "inc" -> Inc(s)
            [] x.op = "add" -> IF IndexOf(s, x.x) >= 0 THEN s ELSE Append(s, x.x)
            [] OTHER -> s
  /\ kept' = IF x.op = "keep" THEN s ELSE kept

Init == c \in 1 .. Len(Cases) /\ k = 0 /\ kept = <<>>
        /\ s = IF Cases[c].kind = "bits" THEN [i \in 1 .. Cases[c].size |-> FALSE] ELSE <<>>
Next == LET r == Cases[c] IN
  /\ k < Len(r.steps)
  /\ Step(r, r.steps[k + 1])
  /\ k' = k + 1 /\ UNCHANGED c

Seen == <<c, k>>
Done == PrintStats(<<"bits", "increments", "comparisons", "kept", "lookups", "additions", "zips">>)
=============================================================================
