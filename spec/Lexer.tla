------------------------------- MODULE Lexer -------------------------------
(***************************************************************************)
(* The lexical grammar (relapse/bnf/lexer.bnf), on bytes.  A reader X(s,i) *)
(* reads what can be the beginning of an X as far as it can, and gives     *)
(* <<j, whole>>: the bytes i .. j-1 are the beginning of an X, and whether *)
(* they are one.                                                           *)
(***************************************************************************)
EXTENDS Texts

\* the bytes of a string
Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Bytes(x) == [i \in 1 .. Len(x) |-> 31 + CHOOSE k \in 1 .. Len(Ascii) : SubSeq(Ascii, k, k) = SubSeq(x, i, i)]

Words == {"<empty>", "[]bool", "[]int", "[]uint", "[]double", "[]string", "[][]byte", "true", "false", "=", "(", ")", "{", "}", ",", ";",
          "#", "&", "|", "[", "]", ":", "!", "*", "_", ".", "@", "->", "==", "!=", "<", ">", "<=", ">=", "~=", "*=", "^=", "$=", "::", "?"}
Vars == [bool_var |-> "$bool", int_var |-> "$int", uint_var |-> "$uint", double_var |-> "$double", string_var |-> "$string", bytes_var |-> "$[]byte"]
WordBytes == [w \in Words |-> Bytes(w)]
VarBytes == [v \in DOMAIN Vars |-> Bytes(Vars[v])]
IntHead == Bytes("int(")
UintHead == Bytes("uint(")
DoubleHead == Bytes("double(")
BytesHead == Bytes("[]byte{")

Alpha == {95} \cup 65 .. 90 \cup 97 .. 122
IdChar == Alpha \cup 48 .. 57
Oct == 48 .. 55
Hex == 48 .. 57 \cup 65 .. 70 \cup 97 .. 102
Ws == {32, 9, 10, 13}
But(b) == (0 .. 255) \ {b}

RECURSIVE Run(_, _, _)
Run(s, i, P) == IF i <= Len(s) /\ s[i] \in P THEN Run(s, i + 1, P) ELSE i

RECURSIVE Fixed(_, _, _, _)
Fixed(s, i, w, k) ==
  IF k > Len(w) THEN <<i, TRUE>> ELSE IF Byte(s, i) = w[k] THEN Fixed(s, i + 1, w, k + 1) ELSE <<i, FALSE>>
Word(s, i, w) == Fixed(s, i, w, 1)

\* exactly n bytes of P
Exactly(s, i, n, P) == LET j == Run(s, i, P) IN IF j >= i + n THEN <<i + n, TRUE>> ELSE <<j, FALSE>>

\* x, and then a single byte b
AndThen(s, x, b) == IF x[2] /\ Byte(s, x[1]) = b THEN <<x[1] + 1, TRUE>> ELSE <<x[1], FALSE>>

\* numbers
IntLit(s, i) ==
  IF Byte(s, i) = 48
  THEN (IF Byte(s, i + 1) \in {120, 88}
        THEN LET j == Run(s, i + 2, Hex) IN <<j, j > i + 2>>
        ELSE <<Run(s, i + 1, Oct), TRUE>>)
  ELSE LET j == Digits(s, i) IN <<j, j > i>>

Exponent(s, i) == \* at an e
  LET k == IF Byte(s, i + 1) \in {43, 45} THEN i + 2 ELSE i + 1
      j == Digits(s, k)
  IN <<j, j > k>>

FloatLit(s, i) ==
  LET d == Digits(s, i)
      f == Digits(s, d + 1)
      IsE(j) == Byte(s, j) \in {69, 101}
  IN IF Byte(s, d) = 46
     THEN (IF f = d + 1 THEN (IF IsE(f) THEN Exponent(s, f) ELSE <<f, FALSE>>)
           ELSE IF d > i /\ IsE(f) THEN Exponent(s, f) ELSE <<f, TRUE>>)
     ELSE IF d > i /\ IsE(d) THEN Exponent(s, d) ELSE <<d, FALSE>>

\* x or y: what comes further
Either(x, y) == IF x[1] > y[1] THEN x ELSE IF y[1] > x[1] THEN y ELSE <<x[1], x[2] \/ y[2]>>

Minus1(s, i) == IF Byte(s, i) = 45 THEN i + 1 ELSE i
DecInt(s, i) == \* without a cast
  LET k == Minus1(s, i) IN
  IF Byte(s, i) = 48 THEN <<i + 1, TRUE>> ELSE IF Byte(s, k) = 48 THEN <<k, FALSE>> ELSE LET j == Digits(s, k) IN <<j, j > k>>
Cast(s, i, head, sign, Num(_, _)) ==
  LET h == Word(s, i, head) IN IF h[2] THEN AndThen(s, Num(s, IF sign THEN Minus1(s, h[1]) ELSE h[1]), 41) ELSE h
Number(s, i) == Either(IntLit(s, i), FloatLit(s, i))

\* strings
Escape(s, i) == \* at a backslash
  LET b == Byte(s, i + 1) IN
  CASE b \in {97, 98, 102, 110, 114, 116, 118, 92, 39, 34} -> <<i + 2, TRUE>>
    [] b \in Oct -> Exactly(s, i + 1, 3, Oct)
    [] b = 120 -> Exactly(s, i + 2, 2, Hex)
    [] b = 117 -> Exactly(s, i + 2, 4, Hex)
    [] b = 85 -> Exactly(s, i + 2, 8, Hex)
    [] OTHER -> <<i + 1, FALSE>>

RECURSIVE Quoted(_, _)
Quoted(s, i) ==
  CASE i > Len(s) -> <<i, FALSE>>
    [] Byte(s, i) = 34 -> <<i + 1, TRUE>>
    [] Byte(s, i) = 92 -> LET e == Escape(s, i) IN IF e[2] THEN Quoted(s, e[1]) ELSE e
    [] OTHER -> Quoted(s, i + 1)
Raw(s, i) == AndThen(s, <<Run(s, i, But(96)), TRUE>>, 96)
StringLit(s, i) == IF Byte(s, i) = 34 THEN Quoted(s, i + 1) ELSE IF Byte(s, i) = 96 THEN Raw(s, i + 1) ELSE <<i, FALSE>>

\* the length of the character at i
Width(s, i) == LET n == IF s[i] >= 240 THEN 4 ELSE IF s[i] >= 224 THEN 3 ELSE IF s[i] >= 192 THEN 2 ELSE 1 IN
  IF i + n - 1 <= Len(s) /\ Utf8From(SubSeq(s, i, i + n - 1), 1) THEN n ELSE 1
CharLit(s, i) == \* at a quote
  IF i + 1 > Len(s) THEN <<i + 1, FALSE>>
  ELSE AndThen(s, IF s[i + 1] = 92 THEN Escape(s, i + 1) ELSE <<i + 1 + Width(s, i + 1), TRUE>>, 39)
ByteElem(s, i) == IF Byte(s, i) = 39 THEN CharLit(s, i) ELSE IntLit(s, i)

RECURSIVE Elems(_, _)
Elems(s, i) == \* from a byte on
  LET e == ByteElem(s, i)
      j == Run(s, e[1], Ws)
  IN IF ~e[2] THEN e
     ELSE IF Byte(s, j) = 44 THEN Elems(s, Run(s, j + 1, Ws))
     ELSE AndThen(s, <<j, TRUE>>, 125)
BytesLit(s, i) ==
  LET h == Word(s, i, BytesHead)
      j == Run(s, h[1], Ws)
  IN IF ~h[2] THEN h ELSE IF Byte(s, j) = 125 THEN <<j + 1, TRUE>> ELSE Elems(s, j)

\* space: comments, or white space
RECURSIVE EndBlock(_, _)
EndBlock(s, i) ==
  IF i > Len(s) THEN <<i, FALSE>> ELSE IF s[i] = 42 /\ Byte(s, i + 1) = 47 THEN <<i + 2, TRUE>> ELSE EndBlock(s, i + 1)
Space(s, i) ==
  CASE Byte(s, i) \in Ws -> <<Run(s, i, Ws), TRUE>>
    [] Byte(s, i) = 47 /\ Byte(s, i + 1) = 47 -> AndThen(s, <<Run(s, i + 2, But(10)), TRUE>>, 10)
    [] Byte(s, i) = 47 /\ Byte(s, i + 1) = 42 -> EndBlock(s, i + 2)
    [] Byte(s, i) = 47 -> <<i + 1, FALSE>>
    [] OTHER -> <<i, FALSE>>

Id(s, i) == IF Byte(s, i) \in Alpha THEN <<Run(s, i, IdChar), TRUE>> ELSE <<i, FALSE>>

\* what can be read at i: type -> <<j, whole>>
Readings(s, i) ==
  [w \in Words |-> Word(s, i, WordBytes[w])] @@ [v \in DOMAIN Vars |-> Word(s, i, VarBytes[v])]
  @@ [int_lit |-> Either(DecInt(s, i), Cast(s, i, IntHead, TRUE, IntLit)), uint_cast_lit |-> Cast(s, i, UintHead, FALSE, IntLit),
      double_cast_lit |-> Cast(s, i, DoubleHead, TRUE, Number), string_lit |-> StringLit(s, i), bytes_cast_lit |-> BytesLit(s, i),
      space |-> Space(s, i)]

\* the token at i: [t, j, far, rest].  It is the longest one; far is where it ends when the text
\* continues to look like a token (which is not there then) behind it, or j.  "INVALID": no token.
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
TokenAt(s, i) ==
  LET R == Readings(s, i)
      id == Id(s, i)
      far == Max({R[t][1] : t \in DOMAIN R} \cup {id[1]})
      ok == {t \in DOMAIN R : R[t] = <<far, TRUE>>}
  IN IF ok # {} THEN [t |-> CHOOSE t \in ok : TRUE, j |-> far]
     ELSE IF id = <<far, TRUE>> THEN [t |-> "id", j |-> far]
     ELSE [t |-> "INVALID", j |-> IF far <= Len(s) THEN far + Width(s, far) ELSE far]
=============================================================================
