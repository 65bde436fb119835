---------------------------- MODULE XmlText ----------------------------
(***************************************************************************)
(* XML documents, from their bytes, as forests: an element is a node       *)
(* labelled with its local name, its attributes come first, each a node    *)
(* labelled with the local name of the attribute with one leaf, the value, *)
(* and then its content: elements and the pieces of text that tags,        *)
(* comments and CDATA sections divide the content in.  Processing          *)
(* instructions are as if they were not there.  The prefixes of the parser *)
(* come before the strings of elements, attributes and text.               *)
(* X(s, i, ..) reads an X at i and gives <<j, ...>>: j is the position     *)
(* after it, 0 if it is not well formed (Bad0), -1 if the text ends in it. *)
(***************************************************************************)
EXTENDS Forests, Texts

IsSp(b) == b \in {32, 9, 10, 13}
IsStart(b) == (b >= 65 /\ b <= 90) \/ (b >= 97 /\ b <= 122) \/ b = 95
IsNameByte(b) == IsStart(b) \/ IsDigit(b) \/ b \in {46, 45}
IsName8(s, i) == Byte(s, i) = 195 /\ Byte(s, i + 1) >= 128 /\ Byte(s, i + 1) \notin {151, 183} \* À to ÿ

RECURSIVE Sp(_, _), NameEnd(_, _), Find(_, _, _)
Sp(s, i) == IF IsSp(Byte(s, i)) THEN Sp(s, i + 1) ELSE i
NameEnd(s, i) == IF IsNameByte(Byte(s, i)) THEN NameEnd(s, i + 1) ELSE IF IsName8(s, i) THEN NameEnd(s, i + 2) ELSE i
At(s, i, w) == \A d \in 1 .. Len(w) : Byte(s, i + d - 1) = w[d]
\* w is what is left at i, but cut off
Cut(s, i, w) == i + Len(w) - 1 > Len(s) /\ \A d \in 1 .. Len(w) : i + d - 1 <= Len(s) => s[i + d - 1] = w[d]
Find(s, i, w) == IF i + Len(w) - 1 > Len(s) THEN 0 ELSE IF At(s, i, w) THEN i ELSE Find(s, i + 1, w)

Fail(b) == IF b = -1 THEN -1 ELSE 0

\* a name with at most one colon: <<end, local name, whole name>>
Name(s, i) ==
  LET a == NameEnd(s, i)
      b == IF Byte(s, a) = 58 THEN NameEnd(s, a + 1) ELSE a
      start(x) == IsStart(Byte(s, x)) \/ IsName8(s, x)
  IN IF ~start(i) THEN <<Fail(Byte(s, i)), <<>>, <<>>>>
     ELSE IF a = b THEN <<IF Byte(s, a) >= 128 THEN 0 ELSE a, SubSeq(s, i, a - 1), SubSeq(s, i, a - 1)>>
     ELSE IF ~start(a + 1) \/ Byte(s, b) = 58 \/ Byte(s, b) >= 128 THEN <<Fail(Byte(s, a + 1)), <<>>, <<>>>>
     ELSE <<b, SubSeq(s, a + 1, b - 1), SubSeq(s, i, b - 1)>>

Entities == << <<<<97, 109, 112, 59>>, 38>>, <<<<108, 116, 59>>, 60>>, <<<<103, 116, 59>>, 62>>,
               <<<<97, 112, 111, 115, 59>>, 39>>, <<<<113, 117, 111, 116, 59>>, 34>> >>

RECURSIVE CharNum(_, _, _, _)
\* the number of a character reference: <<end, number or -1>>
CharNum(s, i, base, acc) ==
  LET h == HexVal(Byte(s, i)) IN
  IF Byte(s, i) = 59 THEN <<i + 1, acc>>
  ELSE IF Byte(s, i) = -1 THEN <<-1, -1>>
  ELSE IF h < 0 \/ h >= base \/ acc > 2000000 THEN <<0, -1>>
  ELSE CharNum(s, i + 1, base, acc * base + h)

IsChar(n) == n \in {9, 10, 13} \/ (n >= 32 /\ n < 55296) \/ (n >= 57344 /\ n <= 65533) \/ (n >= 65536 /\ n <= 1114111)

\* after an ampersand: <<end, bytes>>
Ref(s, i) ==
  IF Byte(s, i) = 35
  THEN LET hex == Byte(s, i + 1) = 120
           first == IF hex THEN i + 2 ELSE i + 1
           n == CharNum(s, first, IF hex THEN 16 ELSE 10, 0) IN
       IF n[1] = -1 THEN <<-1, <<>>>>
       ELSE IF n[1] = 0 \/ n[1] = first + 1 \/ ~IsChar(n[2]) THEN <<0, <<>>>>
       ELSE <<n[1], Utf8(n[2])>>
  ELSE LET e == {x \in 1 .. Len(Entities) : At(s, i, Entities[x][1])} IN
       IF e # {} THEN LET x == CHOOSE y \in e : TRUE IN <<i + Len(Entities[x][1]), <<Entities[x][2]>>>>
       ELSE IF Byte(s, NameEnd(s, i)) = -1 THEN <<-1, <<>>>> ELSE <<0, <<>>>>

(* leaves *)
RECURSIVE TrimSp(_)
TrimSp(t) == IF t = <<>> THEN t ELSE IF IsSp(t[1]) THEN TrimSp(Tail(t)) ELSE IF IsSp(t[Len(t)]) THEN TrimSp(SubSeq(t, 1, Len(t) - 1)) ELSE t
Trues == {<<49>>, <<116>>, <<84>>, <<116, 114, 117, 101>>, <<84, 82, 85, 69>>, <<84, 114, 117, 101>>}
Falses == {<<48>>, <<102>>, <<70>>, <<102, 97, 108, 115, 101>>, <<70, 65, 76, 83, 69>>, <<70, 97, 108, 115, 101>>}

TextLeaf(t, r, nums, free) ==
  LET sign == t # <<>> /\ t[1] \in {43, 45}
      neg == t # <<>> /\ t[1] = 45
      d0 == IF sign THEN 2 ELSE 1
      plain == Len(t) >= d0 /\ Digits(t, d0) = Len(t) + 1
      a == Nat64(t, d0, Len(t) + 1, <<0, 0, 0>>)
      found == {x \in 1 .. Len(nums) : nums[x].x = t}
      b == TrimSp(t)
  IN Leaf([double |-> IF found = {} THEN <<>> ELSE nums[CHOOSE x \in found : TRUE].d,
           int |-> IF plain THEN IntOf(neg, a) ELSE <<>>,
           uint |-> IF plain /\ ~sign /\ a # <<>> THEN <<a>> ELSE <<>>,
           bool |-> IF b \in Trues THEN <<TRUE>> ELSE IF b \in Falses THEN <<FALSE>> ELSE <<>>,
           string |-> <<r.pre.text \o t>>,
           bytes |-> <<t>>],
          free \cup (IF found = {} THEN {"double"} ELSE {}))

(* text; a line break is a line feed *)
RECURSIVE Quoted(_, _, _, _)
Quoted(s, i, q, acc) ==
  LET b == Byte(s, i) IN
  IF b = q THEN <<i + 1, acc>>
  ELSE IF b = -1 THEN <<-1, <<>>>>
  ELSE IF b = 60 \/ b < 32 \/ At(s, i, <<93, 93, 62>>) THEN <<0, <<>>>>   \* white space other than blanks is not judged
  ELSE IF b = 38 THEN LET x == Ref(s, i + 1) IN IF x[1] <= 0 THEN x ELSE Quoted(s, x[1], q, acc \o x[2])
  ELSE Quoted(s, i + 1, q, Append(acc, b))

RECURSIVE Raw(_, _, _, _)
Raw(s, i, e, acc) == \* from i to e
  IF i >= e THEN <<TRUE, acc>>
  ELSE IF s[i] = 13 THEN Raw(s, IF Byte(s, i + 1) = 10 /\ i + 1 < e THEN i + 2 ELSE i + 1, e, Append(acc, 10))
  ELSE IF s[i] < 32 /\ s[i] \notin {9, 10} THEN <<FALSE, acc>>
  ELSE Raw(s, i + 1, e, Append(acc, s[i]))

\* attributes, at the first byte after the name: <<end, forest, names, empty element>>
RECURSIVE Attrs(_, _, _, _, _, _)
Attrs(s, i, r, nums, acc, names) ==
  LET j == Sp(s, i)
      b == Byte(s, j) IN
  IF b = 62 THEN <<j + 1, acc, FALSE>>
  ELSE IF b = 47 THEN (IF Byte(s, j + 1) = 62 THEN <<j + 2, acc, TRUE>> ELSE <<Fail(Byte(s, j + 1)), acc, FALSE>>)
  ELSE IF b = -1 THEN <<-1, acc, FALSE>>
  ELSE IF j = i THEN <<0, acc, FALSE>>
  ELSE LET n == Name(s, j)
           e == Sp(s, n[1])
           q == Sp(s, e + 1)
           v == Quoted(s, q + 1, Byte(s, q), <<>>) IN
       IF n[1] <= 0 THEN <<n[1], acc, FALSE>>
       ELSE IF n[3] \in names THEN <<0, acc, FALSE>>
       ELSE IF Byte(s, e) # 61 THEN <<Fail(Byte(s, e)), acc, FALSE>>
       ELSE IF Byte(s, q) \notin {34, 39} THEN <<Fail(Byte(s, q)), acc, FALSE>>
       ELSE IF v[1] <= 0 THEN <<v[1], acc, FALSE>>
       ELSE Attrs(s, v[1], r, nums, Append(acc, Inner([NoVal EXCEPT !.string = <<r.pre.attr \o n[2]>>], <<TextLeaf(v[2], r, nums, {"bytes"})>>)), names \cup {n[3]})

PI(s, i) == \* after <?
  LET n == Name(s, i)
      e == Find(s, n[1], <<63, 62>>) IN
  IF n[1] <= 0 THEN n[1]
  ELSE IF Byte(s, n[1]) # 63 /\ ~IsSp(Byte(s, n[1])) THEN Fail(Byte(s, n[1]))
  ELSE IF e = 0 THEN -1 ELSE e + 2

Comment(s, i) == \* after <!--
  LET e == Find(s, i, <<45, 45>>) IN
  IF e = 0 THEN -1 ELSE IF Byte(s, e + 2) = 62 THEN e + 3 ELSE Fail(Byte(s, e + 2))

CDATA == <<60, 33, 91, 67, 68, 65, 84, 65, 91>>
COMMENT == <<60, 33, 45, 45>>

Flush(acc, cur, r, nums) == IF cur = <<>> THEN acc ELSE Append(acc, TextLeaf(cur, r, nums, {}))

RECURSIVE Element(_, _, _, _), Content(_, _, _, _, _, _)

\* at the name of a start tag: <<end, node>>
Element(s, i, r, nums) ==
  LET n == Name(s, i)
      a == Attrs(s, n[1], r, nums, <<>>, {})
      node(ch) == Inner([NoVal EXCEPT !.string = <<r.pre.elem \o n[2]>>], ch)
      c0 == Content(s, a[1], r, nums, a[2], <<>>)
      e == Name(s, c0[1])
      g == Sp(s, e[1]) IN
  IF n[1] <= 0 THEN <<n[1], node(<<>>)>>
  ELSE IF a[1] <= 0 THEN <<a[1], node(<<>>)>>
  ELSE IF a[3] THEN <<a[1], node(a[2])>>
  ELSE IF c0[1] <= 0 THEN <<c0[1], node(<<>>)>>
  ELSE IF e[1] <= 0 THEN <<e[1], node(<<>>)>>
  ELSE IF Byte(s, g) = -1 THEN <<-1, node(<<>>)>>
  ELSE IF e[3] # n[3] \/ Byte(s, g) # 62 THEN <<0, node(<<>>)>>
  ELSE <<g + 1, node(c0[2])>>

\* up to after the </
Content(s, i, r, nums, acc, cur) ==
  LET b == Byte(s, i) IN
  IF b = -1 THEN <<-1, <<>>>>
  ELSE IF b = 60 THEN
    IF Byte(s, i + 1) = 47 THEN <<i + 2, Flush(acc, cur, r, nums)>>
    ELSE IF Byte(s, i + 1) = 63 THEN (IF s[i - 1] = 13 THEN <<0, <<>>>> ELSE IF PI(s, i + 2) <= 0 THEN <<PI(s, i + 2), <<>>>> ELSE Content(s, PI(s, i + 2), r, nums, acc, cur))
    ELSE IF At(s, i, COMMENT) THEN (IF Comment(s, i + 4) <= 0 THEN <<Comment(s, i + 4), <<>>>>
                                    ELSE Content(s, Comment(s, i + 4), r, nums, Flush(acc, cur, r, nums), <<>>))
    ELSE IF At(s, i, CDATA) THEN
      LET e == Find(s, i + 9, <<93, 93, 62>>)
          x == Raw(s, i + 9, e, <<>>) IN
      IF e = 0 THEN <<-1, <<>>>>
      ELSE IF ~x[1] THEN <<0, <<>>>>
      ELSE Content(s, e + 3, r, nums, Flush(Flush(acc, cur, r, nums), x[2], r, nums), <<>>)
    ELSE IF Cut(s, i, CDATA) \/ Cut(s, i, COMMENT) THEN <<-1, <<>>>>
    ELSE LET x == Element(s, i + 1, r, nums) IN
         IF x[1] <= 0 THEN <<x[1], <<>>>> ELSE Content(s, x[1], r, nums, Append(Flush(acc, cur, r, nums), x[2]), <<>>)
  ELSE IF b = 38 THEN LET x == Ref(s, i + 1) IN
    IF x[1] <= 0 THEN <<x[1], <<>>>> ELSE Content(s, x[1], r, nums, acc, cur \o x[2])
  ELSE IF At(s, i, <<93, 93, 62>>) THEN <<0, <<>>>>
  ELSE IF b < 32 /\ ~IsSp(b) THEN <<0, <<>>>>
  ELSE IF b = 62 /\ Len(cur) >= 2 /\ cur[Len(cur)] = 93 THEN <<0, <<>>>> \* ]<?x?>]> and so on
  ELSE IF b = 13 THEN Content(s, IF Byte(s, i + 1) = 10 THEN i + 2 ELSE i + 1, r, nums, acc, Append(cur, 10))
  ELSE Content(s, i + 1, r, nums, acc, Append(cur, b))

DOCTYPE == <<60, 33, 68, 79, 67, 84, 89, 80, 69, 32>>
Doctype(s, i) == \* after <!DOCTYPE
  LET n == Name(s, i) IN
  IF n[1] <= 0 THEN n[1] ELSE IF Byte(s, n[1]) = 62 THEN n[1] + 1 ELSE Fail(Byte(s, n[1]))

\* what surrounds the root; white space next to a comment or a
\* declaration is not judged: space says whether it is all right here
RECURSIVE Before(_, _, _), After(_, _, _)
Before(s, i, space) ==
  IF IsSp(Byte(s, i)) THEN (IF space THEN Before(s, i + 1, space) ELSE 0)
  ELSE IF At(s, i, <<60, 63>>) THEN (IF PI(s, i + 2) <= 0 THEN PI(s, i + 2) ELSE Before(s, PI(s, i + 2), space))
  ELSE IF At(s, i, COMMENT) THEN (IF Comment(s, i + 4) <= 0 THEN Comment(s, i + 4) ELSE Before(s, Comment(s, i + 4), FALSE))
  ELSE IF At(s, i, DOCTYPE) THEN (IF Doctype(s, i + 10) <= 0 THEN Doctype(s, i + 10) ELSE Before(s, Doctype(s, i + 10), FALSE))
  ELSE IF i <= Len(s) /\ (Cut(s, i, COMMENT) \/ Cut(s, i, DOCTYPE)) THEN -1
  ELSE IF Byte(s, i) = 60 THEN i + 1 ELSE 0
After(s, i, sp) ==
  IF i > Len(s) THEN 1
  ELSE IF IsSp(s[i]) THEN After(s, i + 1, TRUE)
  ELSE IF At(s, i, <<60, 63>>) THEN (IF PI(s, i + 2) <= 0 THEN PI(s, i + 2) ELSE After(s, PI(s, i + 2), sp))
  ELSE IF At(s, i, COMMENT) /\ ~sp THEN (IF Comment(s, i + 4) <= 0 THEN Comment(s, i + 4) ELSE After(s, Comment(s, i + 4), FALSE))
  ELSE 0

DocOf(r, d) ==
  LET s == d.b
      b == Before(s, 1, TRUE)
      x == Element(s, b, r, d.nums)
      a == After(s, x[1], FALSE)
      end(y) == IF y = -1 THEN <<"junk", <<>>>> ELSE <<"lenient", <<>>>>
  IN IF ~Utf8From(s, 1) THEN <<"lenient", <<>>>>
     ELSE IF b <= 0 THEN end(b)
     ELSE IF x[1] <= 0 THEN end(x[1])
     ELSE IF a <= 0 THEN end(a)
     ELSE <<"doc", <<x[2]>>>>

=============================================================================
