---------------------------- MODULE JsonText ----------------------------
(***************************************************************************)
(* JSON documents, from their bytes, as forests: the members of an object  *)
(* are nodes labelled with the name, the elements of an array are nodes    *)
(* labelled with their index, and a string, number, true, false or null is *)
(* a single leaf.  X(s, i) reads an X at i and gives <<j, ..., strict>>:   *)
(* j is the position after it, or 0 if there is no X.                      *)
(***************************************************************************)
EXTENDS Forests, Texts

RECURSIVE Ws(_, _)
Ws(s, i) == IF IsWs(Byte(s, i)) THEN Ws(s, i + 1) ELSE i

(* strings *)
\* the four hexadecimal digits after \u at i, or -1
U4(s, i) == IF Byte(s, i) = 92 /\ Byte(s, i + 1) = 117 /\ \A d \in 2 .. 5 : HexVal(Byte(s, i + d)) >= 0
            THEN ((HexVal(s[i + 2]) * 16 + HexVal(s[i + 3])) * 16 + HexVal(s[i + 4])) * 16 + HexVal(s[i + 5])
            ELSE -1

Simple == (34 :> 34) @@ (92 :> 92) @@ (47 :> 47) @@ (98 :> 8) @@ (102 :> 12) @@ (110 :> 10) @@ (114 :> 13) @@ (116 :> 9)

RECURSIVE StrIn(_, _, _)
StrIn(s, i, acc) ==
  LET b == Byte(s, i) IN
  IF b = 34 THEN <<i + 1, acc>>
  ELSE IF b < 32 THEN <<0, <<>>>>
  ELSE IF b # 92 THEN StrIn(s, i + 1, Append(acc, b))
  ELSE IF Byte(s, i + 1) \in DOMAIN Simple THEN StrIn(s, i + 2, Append(acc, Simple[s[i + 1]]))
  ELSE LET u == U4(s, i)
           v == U4(s, i + 6) IN
       IF u < 0 THEN <<0, <<>>>>
       ELSE IF u < 55296 \/ u > 57343 THEN StrIn(s, i + 6, acc \o Utf8(u))
       ELSE IF u < 56320 /\ v >= 56320 /\ v <= 57343 THEN StrIn(s, i + 12, acc \o Utf8(65536 + (u - 55296) * 1024 + (v - 56320)))
       ELSE StrIn(s, i + 6, acc \o Utf8(65533))

(* numbers *)
\* <<end, strict, end of the integer digits, end of the fraction, start of the exponent digits>>
Num(s, i) ==
  LET i1 == IF Byte(s, i) = 45 THEN i + 1 ELSE i
      i2 == IF Byte(s, i1) = 48 THEN i1 + 1 ELSE Digits(s, i1)
      i3 == IF Byte(s, i2) = 46 THEN Digits(s, i2 + 1) ELSE i2
      e == Byte(s, i3) \in {69, 101}
      i4 == IF e THEN (IF Byte(s, i3 + 1) \in {43, 45} THEN i3 + 2 ELSE i3 + 1) ELSE i3
      i5 == IF e THEN Digits(s, i4) ELSE i3
  IN <<i5, (i2 > i1) /\ (i3 = i2 \/ i3 > i2 + 1) /\ (~e \/ i5 > i4), i2, i3, i4>>

RECURSIVE SmallNat(_, _, _, _)
SmallNat(s, i, j, acc) == IF i >= j THEN acc ELSE IF acc > 1000 THEN acc ELSE SmallNat(s, i + 1, j, acc * 10 + (s[i] - 48))

RECURSIVE Trim(_)
Trim(d) == IF d # <<>> /\ d[Len(d)] = 48 THEN Trim(SubSeq(d, 1, Len(d) - 1)) ELSE d
RECURSIVE TrimL(_)
TrimL(d) == IF d # <<>> /\ d[1] = 48 THEN TrimL(Tail(d)) ELSE d

\* nums: the nearest double of every number in the document, from its text
NumLeaf(s, i, n, nums) ==
  LET text == SubSeq(s, i, n[1] - 1)
      neg == s[i] = 45
      d0 == IF neg THEN i + 1 ELSE i
      found == {x \in 1 .. Len(nums) : nums[x].x = text}
      dbl == IF found = {} THEN <<>> ELSE nums[CHOOSE x \in found : TRUE].d
      free == IF found = {} THEN {"double"} ELSE {}
      plain == n[3] = n[1]
      a == Nat64(s, d0, n[3], <<0, 0, 0>>)
      \* otherwise the digits and the power of ten
      ds == SubSeq(s, d0, n[3] - 1) \o (IF n[4] > n[3] THEN SubSeq(s, n[3] + 1, n[4] - 1) ELSE <<>>)
      ex == IF n[5] < n[1] THEN SmallNat(s, n[5], n[1], 0) * (IF Byte(s, n[5] - 1) = 45 THEN -1 ELSE 1) ELSE 0
      sig == TrimL(Trim(ds))
      pow == ex - (IF n[4] > n[3] THEN n[4] - n[3] - 1 ELSE 0) + (Len(ds) - Len(Trim(ds)))
      whole == sig = <<>> \/ (pow >= 0 /\ Len(sig) + pow <= 15)
      all == sig \o [x \in 1 .. (IF sig = <<>> THEN 0 ELSE pow) |-> 48]
      part == pow < 0 /\ pow >= -15 /\ Len(sig) <= 15
      l == [NoVal EXCEPT !.double = dbl]
  IN IF plain THEN Leaf([l EXCEPT !.int = IntOf(neg, a), !.uint = IF neg \/ a = <<>> THEN <<>> ELSE <<a>>], free)
     ELSE IF whole THEN Leaf([l EXCEPT !.int = IntOf(neg, Nat64(all, 1, Len(all) + 1, <<0, 0, 0>>))], free \cup {"uint"})
     ELSE Leaf(l, free \cup (IF part THEN {} ELSE {"int", "uint"}))

(* values *)
Word(s, i, w) == IF SubSeq(s, i, IF i + Len(w) - 1 > Len(s) THEN Len(s) ELSE i + Len(w) - 1) = w THEN i + Len(w) ELSE 0
True == <<116, 114, 117, 101>>
False == <<102, 97, 108, 115, 101>>
Null == <<110, 117, 108, 108>>

None == <<0, <<>>, FALSE>>
RECURSIVE Val(_, _, _), Members(_, _, _, _, _), Elems(_, _, _, _, _)

WordVal(s, i, w, l) == IF Word(s, i, w) = 0 THEN None ELSE <<Word(s, i, w), <<Leaf(l, {})>>, TRUE>>

Val(s, i, nums) ==
  LET b == Byte(s, i) IN
  CASE b = 123 -> Members(s, Ws(s, i + 1), nums, <<>>, TRUE)
    [] b = 91 -> Elems(s, Ws(s, i + 1), nums, <<>>, TRUE)
    [] b = 34 -> LET x == StrIn(s, i + 1, <<>>) IN IF x[1] = 0 THEN None ELSE <<x[1], <<Leaf([NoVal EXCEPT !.string = <<x[2]>>], {})>>, TRUE>>
    [] b = 45 \/ IsDigit(b) -> LET n == Num(s, i) IN <<n[1], <<IF n[2] THEN NumLeaf(s, i, n, nums) ELSE Leaf(NoVal, Kinds)>>, n[2] >>
    [] b = 116 -> WordVal(s, i, True, [NoVal EXCEPT !.bool = <<TRUE>>])
    [] b = 102 -> WordVal(s, i, False, [NoVal EXCEPT !.bool = <<FALSE>>])
    [] b = 110 -> WordVal(s, i, Null, NoVal)
    [] OTHER -> None

\* after { or a comma; a comma before the } is lenient
Members(s, i, nums, acc, strict) ==
  IF Byte(s, i) = 125 THEN <<i + 1, acc, strict /\ acc = <<>>>>
  ELSE IF Byte(s, i) # 34 THEN None
  ELSE LET x == StrIn(s, i + 1, <<>>)
           j == Ws(s, x[1])
           v == Val(s, Ws(s, j + 1), nums)
           e == Ws(s, v[1])
           acc2 == Append(acc, Inner([NoVal EXCEPT !.string = <<x[2]>>], v[2]))
       IN IF x[1] = 0 THEN None
          ELSE IF Byte(s, j) # 58 THEN None
          ELSE IF v[1] = 0 THEN None
          ELSE IF Byte(s, e) = 125 THEN <<e + 1, acc2, strict /\ v[3]>>
          ELSE IF Byte(s, e) = 44 THEN Members(s, Ws(s, e + 1), nums, acc2, strict /\ v[3])
          ELSE None

Elems(s, i, nums, acc, strict) ==
  IF Byte(s, i) = 93 THEN <<i + 1, acc, strict /\ acc = <<>>>>
  ELSE LET v == Val(s, i, nums)
           e == Ws(s, v[1])
           acc2 == Append(acc, Inner([NoVal EXCEPT !.int = <<IntKey(Len(acc))>>], v[2]))
       IN IF v[1] = 0 THEN None
          ELSE IF Byte(s, e) = 93 THEN <<e + 1, acc2, strict /\ v[3]>>
          ELSE IF Byte(s, e) = 44 THEN Elems(s, Ws(s, e + 1), nums, acc2, strict /\ v[3])
          ELSE None

\* a comma too many, text after the end and numbers without
\* digits need not be refused, nor bytes that are not UTF-8
DocOf(d) ==
  LET s == d.b
      v == Val(s, Ws(s, 1), d.nums)
  IN IF v[1] = 0 THEN <<"junk", <<>>>>
     ELSE IF v[3] /\ Ws(s, v[1]) > Len(s) /\ Utf8From(s, 1) THEN <<"doc", v[2]>>
     ELSE <<"lenient", <<>>>>

=============================================================================
