------------------------------ MODULE Values ------------------------------
(***************************************************************************)
(* Typed values in an order preserving encoding (TLC integers have 32      *)
(* bits): int, uint and double are triples of limbs of 22, 21 and 21 bits  *)
(* that compare lexicographically; NaN is <<-1,0,0>>; strings and byte     *)
(* strings are sequences of bytes; lists are sequences of values.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

LB == 2097152            \* 2^21
Zero22 == 2097152        \* high limb of the int 0

NaN == <<-1, 0, 0>>

IntKey(n) == IF n >= 0 THEN <<Zero22, n \div LB, n % LB>>
             ELSE <<Zero22 - 1, LB - 1 + ((n + 1) \div LB), (n % LB)>>

IsSmallInt(k) == \/ k[1] = Zero22 /\ k[2] = 0
                 \/ k[1] = Zero22 - 1 /\ k[2] = LB - 1
SmallInt(k) == IF k[1] = Zero22 THEN k[3] ELSE k[3] - LB

\* the int with key k, modulo n (mathematical modulo, 0 < n < 2^9)
ModKey(k, n) ==
  LET b == LB % n
      hi == (k[1] - Zero22) % n
      v == (((hi * b) % n) * b + (k[2] % n) * b + (k[3] % n)) % n
  IN v

NegKey(k) == k[1] < Zero22

\* lexicographic order on sequences of naturals; a proper prefix is smaller
RECURSIVE LexCmp(_, _, _)
LexCmp(a, b, i) ==
  IF i > Len(a) /\ i > Len(b) THEN 0
  ELSE IF i > Len(a) THEN -1
  ELSE IF i > Len(b) THEN 1
  ELSE IF a[i] < b[i] THEN -1
  ELSE IF a[i] > b[i] THEN 1
  ELSE LexCmp(a, b, i + 1)

Lex(a, b) == LexCmp(a, b, 1)

IsPrefix(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
IsSuffix(p, s) == Len(p) <= Len(s) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
HasSub(p, s) == \E i \in 0 .. (Len(s) - Len(p)) : SubSeq(s, i + 1, i + Len(p)) = p

Lower(c) == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c
Upper(c) == IF c >= 97 /\ c <= 122 THEN c - 32 ELSE c
LowerS(s) == [i \in 1 .. Len(s) |-> Lower(s[i])]
UpperS(s) == [i \in 1 .. Len(s) |-> Upper(s[i])]

SeqMem(x, s) == \E i \in 1 .. Len(s) : s[i] = x

(***************************************************************************)
(* Regular expressions: REnds(r, s, i) is the set of positions at which a  *)
(* match of r that starts at position i can end.  Matching is unanchored.  *)
(***************************************************************************)
\* the length of the (valid UTF-8) character whose first byte is b; 0 in the middle
CharLen(b) == IF b < 128 THEN 1 ELSE IF b < 192 THEN 0 ELSE IF b < 224 THEN 2 ELSE IF b < 240 THEN 3 ELSE 4
AfterChar(s, i) == IF i < Len(s) /\ CharLen(s[i + 1]) > 0 THEN {i + CharLen(s[i + 1])} ELSE {}

RECURSIVE REnds(_, _, _)
RECURSIVE RClose(_, _, _, _)

RClose(r, s, done, todo) ==
  IF todo = {} THEN done
  ELSE LET nxt == UNION {REnds(r, s, i) : i \in todo}
           d2 == done \cup todo
       IN RClose(r, s, d2, nxt \ d2)

REnds(r, s, i) ==
  CASE r.r = "chr" -> IF i < Len(s) /\ s[i + 1] = r.c THEN {i + 1} ELSE {}
    [] r.r = "any" -> IF i < Len(s) /\ s[i + 1] # 10 THEN AfterChar(s, i) ELSE {}
    [] r.r = "cls" -> IF i < Len(s) /\ (SeqMem(s[i + 1], r.set) # r.neg) THEN AfterChar(s, i) ELSE {}
    [] r.r = "cat" -> UNION {REnds(r.b, s, j) : j \in REnds(r.a, s, i)}
    [] r.r = "alt" -> REnds(r.a, s, i) \cup REnds(r.b, s, i)
    [] r.r = "star" -> RClose(r.a, s, {}, {i})
    [] r.r = "plus" -> RClose(r.a, s, {}, REnds(r.a, s, i))
    [] r.r = "opt" -> {i} \cup REnds(r.a, s, i)
    [] r.r = "bol" -> IF i = 0 THEN {i} ELSE {}
    [] r.r = "eol" -> IF i = Len(s) THEN {i} ELSE {}
    [] r.r = "eps" -> {i}

ReMatch(r, s) == \E i \in 0 .. Len(s) : REnds(r, s, i) # {}

=============================================================================
