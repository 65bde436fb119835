------------------------------- MODULE Texts -------------------------------
(***************************************************************************)
(* Bytes of texts: digits, numbers of 64 bits and UTF-8.                   *)
(***************************************************************************)
EXTENDS Values

Byte(s, i) == IF i <= Len(s) THEN s[i] ELSE -1
IsWs(b) == b \in {32, 9, 10, 13}
IsDigit(b) == b >= 48 /\ b <= 57
HexVal(b) == IF b >= 48 /\ b <= 57 THEN b - 48 ELSE IF b >= 97 /\ b <= 102 THEN b - 87 ELSE IF b >= 65 /\ b <= 70 THEN b - 55 ELSE -1

RECURSIVE Digits(_, _)
Digits(s, i) == IF IsDigit(Byte(s, i)) THEN Digits(s, i + 1) ELSE i


\* numbers of 64 bits as limbs, most significant first; <<>> if there are more bits
RECURSIVE Nat64(_, _, _, _)
Nat64(s, i, j, acc) ==
  IF i >= j \/ acc = <<>> THEN acc
  ELSE LET z == acc[3] * 10 + (s[i] - 48)
           y == acc[2] * 10 + z \div LB
           x == acc[1] * 10 + y \div LB
       IN Nat64(s, i + 1, j, IF x >= 2 * LB THEN <<>> ELSE <<x, y % LB, z % LB>>)

Minus(a) == \* 2^63 - a
  LET z == 0 - a[3]
      y == (IF z < 0 THEN -1 ELSE 0) - a[2]
      x == Zero22 + (IF y < 0 THEN -1 ELSE 0) - a[1]
  IN <<x, y % LB, z % LB>>

IntOf(neg, a) ==
  IF a = <<>> THEN <<>>
  ELSE IF neg THEN (IF a[1] < Zero22 \/ a = <<Zero22, 0, 0>> THEN <<Minus(a)>> ELSE <<>>)
  ELSE (IF a[1] < Zero22 THEN <<<<a[1] + Zero22, a[2], a[3]>>>> ELSE <<>>)

Utf8(r) ==
  IF r < 128 THEN <<r>>
  ELSE IF r < 2048 THEN <<192 + r \div 64, 128 + (r % 64)>>
  ELSE IF r < 65536 THEN <<224 + r \div 4096, 128 + ((r \div 64) % 64), 128 + (r % 64)>>
  ELSE <<240 + r \div 262144, 128 + ((r \div 4096) % 64), 128 + ((r \div 64) % 64), 128 + (r % 64)>>

RECURSIVE Utf8From(_, _)
Tail8(s, i, n) == \A d \in 1 .. n : Byte(s, i + d) >= 128 /\ Byte(s, i + d) < 192
Utf8From(s, i) ==
  LET b == Byte(s, i)
      b2 == Byte(s, i + 1) IN
  IF b = -1 THEN TRUE
  ELSE IF b < 128 THEN Utf8From(s, i + 1)
  ELSE IF b >= 194 /\ b < 224 THEN Tail8(s, i, 1) /\ Utf8From(s, i + 2)
  ELSE IF b >= 224 /\ b < 240 THEN Tail8(s, i, 2) /\ (b # 224 \/ b2 >= 160) /\ (b # 237 \/ b2 < 160) /\ Utf8From(s, i + 3)
  ELSE IF b >= 240 /\ b < 245 THEN Tail8(s, i, 3) /\ (b # 240 \/ b2 >= 144) /\ (b # 244 \/ b2 < 144) /\ Utf8From(s, i + 4)
  ELSE FALSE
=============================================================================
