------------------------------ MODULE Base64 ------------------------------
(* the standard encoding of bytes as text, with padding *)
EXTENDS Integers, Sequences

Sextet(n) == IF n < 26 THEN 65 + n ELSE IF n < 52 THEN 71 + n ELSE IF n < 62 THEN n - 4 ELSE IF n = 62 THEN 43 ELSE 47

RECURSIVE B64(_)
B64(b) ==
  IF b = <<>> THEN <<>>
  ELSE LET x == b[1]
           y == IF Len(b) > 1 THEN b[2] ELSE 0
           z == IF Len(b) > 2 THEN b[3] ELSE 0
       IN << Sextet(x \div 4), Sextet((x % 4) * 16 + (y \div 16)),
             IF Len(b) > 1 THEN Sextet((y % 16) * 4 + (z \div 64)) ELSE 61,
             IF Len(b) > 2 THEN Sextet(z % 64) ELSE 61 >>
          \o (IF Len(b) > 3 THEN B64(SubSeq(b, 4, Len(b))) ELSE <<>>)
=============================================================================
