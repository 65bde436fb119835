----------------------------- MODULE YamlText -----------------------------
(***************************************************************************)
(* YAML documents, from their bytes, as forests, for the part of YAML that *)
(* the parser is meant to read (parser/yaml/issues.md): block mappings of  *)
(* plain keys, block sequences whose elements are plain scalars or have    *)
(* one key, plain scalars, and keys without a value.  A document that does *)
(* not fit in here is "lenient": only the absence of panics is judged.     *)
(***************************************************************************)
EXTENDS Forests, Texts

IsAlnum(b) == IsDigit(b) \/ (b >= 65 /\ b <= 90) \/ (b >= 97 /\ b <= 122) \/ b = 95
IsPlain(b) == IsAlnum(b) \/ b >= 128 \/ b \in {46, 43, 45, 47, 58, 32}     \* . + - / : and blank
IsBlank(b) == b \in {32, 9}

RECURSIVE LineEnd(_, _), SkipBlank(_, _, _), Lines(_, _, _), TrimB(_)
LineEnd(s, i) == IF i > Len(s) \/ s[i] = 10 THEN i ELSE LineEnd(s, i + 1)
SkipBlank(s, i, e) == IF i < e /\ IsBlank(s[i]) THEN SkipBlank(s, i + 1, e) ELSE i
TrimB(t) == IF t = <<>> THEN t ELSE IF IsBlank(t[1]) THEN TrimB(Tail(t)) ELSE IF IsBlank(t[Len(t)]) THEN TrimB(SubSeq(t, 1, Len(t) - 1)) ELSE t

\* the lines that are not blank: the width of the indentation, whether it
\* starts an element, the column of the text, and the text
Lines(s, i, acc) ==
  IF i > Len(s) THEN acc
  ELSE LET e == LineEnd(s, i)
           a == SkipBlank(s, i, e)
           dash == a < e /\ s[a] = 45 /\ (a + 1 = e \/ IsBlank(s[a + 1]))
           b == IF dash THEN SkipBlank(s, a + 1, e) ELSE a IN
       IF a = e THEN Lines(s, e + 1, acc)
       ELSE Lines(s, e + 1, Append(acc, [n |-> a - i, dash |-> dash, col |-> b - i, t |-> SubSeq(s, b, e - 1),
                                         tabs |-> \E x \in i .. b - 1 : s[x] = 9, blanks |-> \E x \in i .. a - 1 : s[x] = 32]))

Colon(t) == IF \E x \in 1 .. Len(t) : t[x] = 58 THEN CHOOSE x \in 1 .. Len(t) : t[x] = 58 /\ \A y \in 1 .. x - 1 : t[y] # 58 ELSE 0
IsKey(t) == t # <<>> /\ \A x \in 1 .. Len(t) : IsAlnum(t[x])
Nulls == {<<110, 117, 108, 108>>, <<78, 117, 108, 108>>, <<78, 85, 76, 76>>}
IsScalar(t) ==
  /\ t # <<>> /\ t \notin Nulls
  /\ \A x \in 1 .. Len(t) : /\ IsPlain(t[x])
                            /\ t[x] = 58 => x < Len(t) /\ t[x + 1] # 32
  /\ t[1] # 58
  /\ ~(t[1] = 45 /\ (Len(t) = 1 \/ t[2] \in {32, 45}))

YTrue == <<116, 114, 117, 101>>
YFalse == <<102, 97, 108, 115, 101>>
Scalar(t, nums) ==
  LET sign == t[1] \in {43, 45}
      d0 == IF sign THEN 2 ELSE 1
      zero == Len(t) > d0 /\ t[d0] = 48 /\ IsDigit(t[d0 + 1])   \* like a telephone number: only text
      plain == ~zero /\ Len(t) >= d0 /\ Digits(t, d0) = Len(t) + 1
      a == Nat64(t, d0, Len(t) + 1, <<0, 0, 0>>)
      found == {x \in 1 .. Len(nums) : nums[x].x = t}
      dbl == IF zero \/ found = {} THEN <<>> ELSE nums[CHOOSE x \in found : TRUE].d
  IN Leaf([NoVal EXCEPT !.double = dbl,
                        !.int = IF plain THEN IntOf(t[1] = 45, a) ELSE <<>>,
                        !.uint = IF plain /\ ~sign /\ a # <<>> THEN <<a>> ELSE <<>>,
                        !.bool = IF t = YTrue THEN <<TRUE>> ELSE IF t = YFalse THEN <<FALSE>> ELSE <<>>,
                        !.string = <<t>>],
          IF zero THEN {} ELSE IF found = {} THEN {"double", "int"} ELSE IF ~plain /\ dbl # <<>> THEN {"int"} ELSE {})  \* 1e3 may be an int

NullLeaf == <<Leaf(NoVal, {})>>
No == <<0, <<>>>>

RECURSIVE Block(_, _, _, _, _)
\* the block of lines of width n from line i: <<line after it, forest>>, line 0 if it is not one that is read
Block(L, i, n, nums, acc) ==
  IF i > Len(L) \/ L[i].n < n THEN <<i, acc>>
  ELSE LET l == L[i]
           colon == Colon(l.t)
           key == SubSeq(l.t, 1, colon - 1)
           val == TrimB(SubSeq(l.t, colon + 1, Len(l.t)))
           pair == colon > 0 /\ (colon = Len(l.t) \/ IsBlank(l.t[colon + 1]))
           deeper == i < Len(L) /\ L[i + 1].n > n
           child == Block(L, i + 1, L[i + 1].n, nums, <<>>)
           far == ~l.dash \/ L[i + 1].dash \/ l.tabs \/ L[i + 1].n > l.col
           this(x) == IF l.dash THEN Inner([NoVal EXCEPT !.int = <<IntKey(Len(acc))>>], x) ELSE Inner([NoVal EXCEPT !.string = <<key>>], x)
           named(x) == IF l.dash THEN <<Inner([NoVal EXCEPT !.string = <<key>>], x)>> ELSE x IN
       IF l.n # n \/ (acc # <<>> /\ L[i - 1].n >= n /\ l.dash # (acc[1].l.int # <<>>)) THEN No
       ELSE IF pair /\ ~IsKey(key) THEN No
       ELSE IF pair /\ val # <<>> THEN
         IF deeper \/ ~IsScalar(val) THEN No
         ELSE Block(L, i + 1, n, nums, Append(acc, this(named(<<Scalar(val, nums)>>))))
       ELSE IF pair /\ deeper THEN
         IF ~far \/ child[1] = 0 THEN No
         ELSE Block(L, child[1], n, nums, Append(acc, this(named(child[2]))))
       ELSE IF pair THEN Block(L, i + 1, n, nums, Append(acc, this(named(NullLeaf))))
       ELSE IF deeper THEN No
       ELSE IF l.dash /\ l.t = <<>> THEN Block(L, i + 1, n, nums, Append(acc, this(NullLeaf)))
       ELSE IF l.dash THEN
         IF colon > 0 \/ ~IsScalar(TrimB(l.t)) THEN No
         ELSE Block(L, i + 1, n, nums, Append(acc, this(<<Scalar(TrimB(l.t), nums)>>)))
       ELSE IF IsKey(l.t) THEN Block(L, i + 1, n, nums, Append(acc, Inner([NoVal EXCEPT !.string = <<l.t>>], NullLeaf)))
       ELSE No

\* d: the document, [b: its bytes, nums: what its numbers are worth]
DocOf(d) ==
  LET s == d.b
      L == Lines(s, 1, <<>>)
      x == Block(L, 1, L[1].n, d.nums, <<>>)
      odd == \/ \E i \in 1 .. Len(s) : s[i] < 32 /\ s[i] \notin {9, 10}
             \/ ~Utf8From(s, 1)
             \/ L = <<>>
             \/ (\E i \in 1 .. Len(L) : L[i].tabs) /\ (\E i \in 1 .. Len(L) : L[i].blanks)
  IN IF odd THEN <<"lenient", <<>>>>
     ELSE IF x[1] # Len(L) + 1 THEN <<"lenient", <<>>>>
     ELSE <<"doc", x[2]>>

=============================================================================
