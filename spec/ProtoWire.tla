---------------------------- MODULE ProtoWire ----------------------------
(***************************************************************************)
(* Marshaled protocol buffers, from their bytes and the descriptor of the  *)
(* message (r.msgs: per message the fields [n: number, name, t: type, rep: *)
(* repeated, m: message]), as forests.  A field is a node labelled with    *)
(* its name; below it is one leaf, or the fields of the message.  A run of *)
(* elements of a repeated field is one node, and so is a packed chunk;     *)
(* below it the elements are labelled with their index.  Unknown fields    *)
(* are left out.                                                           *)
(***************************************************************************)
EXTENDS Forests

(* 64 bits as limbs of 22, 21 and 21 bits *)
T21 == 2097152
T22 == 4194304
Byte(s, i) == s[i]

RECURSIVE VarEnd(_, _, _)
\* the position after the varint at i, or 0
VarEnd(s, i, e) == IF i >= e THEN 0 ELSE IF s[i] < 128 THEN i + 1 ELSE VarEnd(s, i + 1, e)
Group(s, i, j, g) == IF i + g < j THEN s[i + g] % 128 ELSE 0
VarBits(s, i, j) ==
  <<Group(s, i, j, 6) + 128 * Group(s, i, j, 7) + 16384 * Group(s, i, j, 8) + T21 * Group(s, i, j, 9),
    Group(s, i, j, 3) + 128 * Group(s, i, j, 4) + 16384 * Group(s, i, j, 5),
    Group(s, i, j, 0) + 128 * Group(s, i, j, 1) + 16384 * Group(s, i, j, 2)>>
\* <<end, bits>>
Varint(s, i, e) ==
  LET j == VarEnd(s, i, e) IN
  IF j = 0 \/ j > i + 10 \/ (j = i + 10 /\ s[i + 9] > 1) THEN <<0, <<0, 0, 0>>>> ELSE <<j, VarBits(s, i, j)>>

Fix64(s, i) ==
  <<s[i + 5] \div 4 + 64 * s[i + 6] + 16384 * s[i + 7],
    s[i + 2] \div 32 + 8 * s[i + 3] + 2048 * s[i + 4] + 524288 * (s[i + 5] % 4),
    s[i] + 256 * s[i + 1] + 65536 * (s[i + 2] % 32)>>
Fix32(s, i) == <<0, s[i + 2] \div 32 + 8 * s[i + 3], s[i] + 256 * s[i + 1] + 65536 * (s[i + 2] % 32)>>

Not64(b) == <<T22 - 1 - b[1], T21 - 1 - b[2], T21 - 1 - b[3]>>
Shr1(b) == <<b[1] \div 2, b[2] \div 2 + (T21 \div 2) * (b[1] % 2), b[3] \div 2 + (T21 \div 2) * (b[2] % 2)>>
Low32(b) == <<0, b[2] % 2048, b[3]>>
Sign32(b) == IF (b[2] % 2048) >= 1024 THEN <<T22 - 1, T21 - 2048 + (b[2] % 2048), b[3]>> ELSE Low32(b)
Zig(b) == IF b[3] % 2 = 0 THEN Shr1(b) ELSE Not64(Shr1(b))
\* keys: see Values
IntK(b) == IF b[1] >= T21 THEN <<b[1] - T21, b[2], b[3]>> ELSE <<b[1] + T21, b[2], b[3]>>
IsNaN(b) == (b[1] % T21) >= 2096128 /\ ((b[1] % T21) > 2096128 \/ b[2] > 0 \/ b[3] > 0)
DblK(b) == IF IsNaN(b) THEN NaN
           ELSE IF b = <<T21, 0, 0>> THEN <<T21, 0, 0>>
           ELSE IF b[1] >= T21 THEN Not64(b) ELSE <<b[1] + T21, b[2], b[3]>>

RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
RECURSIVE Log2(_)
Log2(n) == IF n = 1 THEN 0 ELSE 1 + Log2(n \div 2)
\* the double with the value of a float
F32(s, i) ==
  LET man == s[i] + 256 * s[i + 1] + 65536 * (s[i + 2] % 128)
      ex == s[i + 2] \div 128 + 2 * (s[i + 3] % 128)
      sign == s[i + 3] \div 128
      mk(e, m) == <<sign * T21 + e * 1024 + m \div 8192, (m % 8192) * 256, 0>>
  IN IF ex = 255 THEN mk(2047, man)
     ELSE IF ex > 0 THEN mk(ex + 896, man)
     ELSE IF man = 0 THEN mk(0, 0)
     ELSE mk(Log2(man) + 874, (man - Pow2(Log2(man))) * Pow2(23 - Log2(man)))

Fixed64 == {"double", "fixed64", "sfixed64"}
Fixed32 == {"float", "fixed32", "sfixed32"}
Len2 == {"string", "bytes", "msg"}
WireType(t) == IF t \in Fixed64 THEN 1 ELSE IF t \in Fixed32 THEN 5 ELSE IF t \in Len2 THEN 2 ELSE 0

\* the leaf of type t with the bytes i .. e-1
LeafOf(s, t, i, e) ==
  LET b == IF WireType(t) = 0 THEN VarBits(s, i, e) ELSE IF WireType(t) = 1 THEN Fix64(s, i) ELSE IF WireType(t) = 5 THEN Fix32(s, i) ELSE <<0, 0, 0>>
      v == CASE t = "double" -> [NoVal EXCEPT !.double = <<DblK(b)>>]
             [] t = "float" -> [NoVal EXCEPT !.double = <<DblK(F32(s, i))>>]
             [] t \in {"int64", "sfixed64"} -> [NoVal EXCEPT !.int = <<IntK(b)>>]
             [] t \in {"int32", "enum", "sfixed32"} -> [NoVal EXCEPT !.int = <<IntK(Sign32(b))>>]
             [] t = "sint64" -> [NoVal EXCEPT !.int = <<IntK(Zig(b))>>]
             [] t = "sint32" -> [NoVal EXCEPT !.int = <<IntK(Sign32(Zig(Low32(b))))>>]
             [] t \in {"uint64", "fixed64"} -> [NoVal EXCEPT !.uint = <<b>>]
             [] t \in {"uint32", "fixed32"} -> [NoVal EXCEPT !.uint = <<Low32(b)>>]
             [] t = "bool" -> [NoVal EXCEPT !.bool = <<b # <<0, 0, 0>> >>]
             [] t = "string" -> [NoVal EXCEPT !.string = <<SubSeq(s, i, e - 1)>>]
             [] t = "bytes" -> [NoVal EXCEPT !.bytes = <<SubSeq(s, i, e - 1)>>]
  IN <<Leaf(v, {})>>

Key(n, wt) == <<0, n \div 262144, (n % 262144) * 8 + wt>>
\* the number of the field with this key, as limbs
Number(key) == <<key[1], key[2], key[3] \div 8>>

\* the value with wire type wt at i: <<where its bytes start, where they end>>, or <<0, 0>>
Extent(s, i, e, wt) ==
  CASE wt = 0 -> LET x == Varint(s, i, e) IN IF x[1] = 0 THEN <<0, 0>> ELSE <<i, x[1]>>
    [] wt = 1 -> IF i + 8 > e THEN <<0, 0>> ELSE <<i, i + 8>>
    [] wt = 5 -> IF i + 4 > e THEN <<0, 0>> ELSE <<i, i + 4>>
    [] wt = 2 -> LET x == Varint(s, i, e) IN
                 IF x[1] = 0 \/ x[2][1] > 0 \/ x[2][2] > 0 \/ x[2][3] > e - x[1] THEN <<0, 0>> ELSE <<x[1], x[1] + x[2][3]>>
    [] OTHER -> <<0, 0>>

Worse(a, b) == IF "lenient" \in {a, b} THEN "lenient" ELSE IF "junk" \in {a, b} THEN "junk" ELSE "doc"

\* keys have at most 32 bits; what a longer one means is not defined
Huge(key) == key[1] > 0 \/ key[2] >= 2048

RECURSIVE Fields(_, _, _, _, _, _, _), Content(_, _, _, _, _), Run(_, _, _, _, _, _, _), Packed(_, _, _, _, _)

\* <<kind, forest>>
Content(ms, s, f, i, e) ==
  IF f.t = "msg" THEN Fields(ms, s, i, e, f.m, <<>>, "doc") ELSE <<"doc", LeafOf(s, f.t, i, e)>>

Index(elems) == [NoVal EXCEPT !.int = <<IntKey(Len(elems))>>]

\* the run of elements of field f from i: <<kind, elements, end>>
Run(ms, s, f, i, e, elems, kd) ==
  LET tag == Varint(s, i, e)
      wt == tag[2][3] % 8
      x == Extent(s, tag[1], e, wt)
      ct == Content(ms, s, f, x[1], x[2])
  IN IF i >= e THEN <<kd, elems, i>>
     ELSE IF tag[1] = 0 THEN <<Worse(kd, "junk"), elems, e>>
     ELSE IF Huge(tag[2]) THEN <<"lenient", elems, e>>
     ELSE IF Number(tag[2]) # Number(Key(f.n, 0)) THEN <<kd, elems, i>>
     ELSE IF wt # WireType(f.t) THEN <<"lenient", elems, e>>
     ELSE IF x[1] = 0 THEN <<Worse(kd, "junk"), elems, e>>
     ELSE Run(ms, s, f, x[2], e, Append(elems, Inner(Index(elems), ct[2])), Worse(kd, ct[1]))

\* <<kind, elements>>
Packed(s, f, i, e, elems) ==
  LET x == Extent(s, i, e, WireType(f.t)) IN
  IF i >= e THEN <<"doc", elems>>
  ELSE IF x[1] = 0 THEN <<"junk", elems>>
  ELSE Packed(s, f, x[2], e, Append(elems, Inner(Index(elems), LeafOf(s, f.t, x[1], x[2]))))

Fields(ms, s, i, e, m, acc, kd) ==
  LET tag == Varint(s, i, e)
      wt == tag[2][3] % 8
      fs == ms[m].fields
      num == {y \in 1 .. Len(fs) : Number(tag[2]) = Number(Key(fs[y].n, 0))}
      f == fs[CHOOSE y \in num : TRUE]
      known == num # {} /\ wt = WireType(f.t)
      packed == num # {} /\ wt = 2 /\ f.rep /\ f.t \notin Len2
      x == Extent(s, tag[1], e, wt)
      node(ch) == Append(acc, Inner([NoVal EXCEPT !.string = <<f.name>>], ch))
  IN IF i >= e \/ kd # "doc" THEN <<kd, acc>>
     ELSE IF tag[1] = 0 THEN <<"junk", acc>>
     ELSE IF Huge(tag[2]) THEN <<"lenient", acc>>
     ELSE IF packed THEN
       LET p == Packed(s, f, x[1], x[2], <<>>) IN
       IF x[1] = 0 THEN <<"junk", acc>> ELSE Fields(ms, s, x[2], e, m, node(p[2]), p[1])
     ELSE IF known /\ f.rep THEN
       LET u == Run(ms, s, f, i, e, <<>>, "doc") IN Fields(ms, s, u[3], e, m, node(u[2]), u[1])
     ELSE IF x[1] = 0 THEN <<"junk", acc>>
     ELSE IF known THEN
       LET ct == Content(ms, s, f, x[1], x[2]) IN Fields(ms, s, x[2], e, m, node(ct[2]), ct[1])
     ELSE Fields(ms, s, x[2], e, m, acc, kd)
=============================================================================
