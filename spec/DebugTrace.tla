---------------------------- MODULE DebugTrace ----------------------------
(***************************************************************************)
(* The tools for debugging parsers: Walk reads everything and gives the    *)
(* tree of the texts of the values (walk); RandomWalk goes on or leaves at *)
(* each step as the numbers r.choices that it asks for say (random);       *)
(* parser.Sprint prints one value (sprint); and a parser with a logger     *)
(* answers like the parser, and logs every call (log: calls made and       *)
(* methods logged).                                                        *)
(* A node has one text: that of its first value in the order Kinds1 (or    *)
(* Kinds2 for sprint), <nil> if there is none.  A text is judged by        *)
(* reading it back.                                                        *)
(***************************************************************************)
EXTENDS Forests, Texts, TraceLib

VARIABLES c, k

Kinds1 == <<"int", "uint", "double", "bool", "string", "bytes">>
Kinds2 == <<"bool", "bytes", "string", "int", "uint", "double">>
First(l, ks) ==
  LET has == {i \in 1 .. Len(ks) : l[ks[i]] # <<>>} IN
  IF has = {} THEN "none" ELSE ks[CHOOSE i \in has : \A j \in has : i <= j]

NIL == <<60, 110, 105, 108, 62>>
TRUETXT == <<116, 114, 117, 101>>
FALSETXT == <<102, 97, 108, 115, 101>>
BYTEHEAD == <<91, 93, 98, 121, 116, 101, 123>>   \* []byte{

\* decimal digits without zeros in front
Dec(s, i, j) == i < j /\ Digits(s, i) >= j /\ (s[i] # 48 \/ j = i + 1)
IntText(s) ==
  IF s # <<>> /\ s[1] = 45 THEN (IF Dec(s, 2, Len(s) + 1) THEN IntOf(TRUE, Nat64(s, 2, Len(s) + 1, <<0, 0, 0>>)) ELSE <<>>)
  ELSE IF Dec(s, 1, Len(s) + 1) THEN IntOf(FALSE, Nat64(s, 1, Len(s) + 1, <<0, 0, 0>>)) ELSE <<>>
UintText(s) == IF Dec(s, 1, Len(s) + 1) THEN <<Nat64(s, 1, Len(s) + 1, <<0, 0, 0>>)>> ELSE <<>>
RECURSIVE Hex64(_, _, _)
Hex64(s, i, acc) ==
  IF i > Len(s) THEN acc
  ELSE LET z == acc[3] * 16 + HexVal(s[i])
           y == acc[2] * 16 + z \div LB IN
       Hex64(s, i + 1, <<acc[1] * 16 + y \div LB, y % LB, z % LB>>)
HexText(s) == IF Len(s) > 2 /\ Len(s) < 19 /\ s[1] = 48 /\ s[2] = 120 /\ \A i \in 3 .. Len(s) : HexVal(s[i]) >= 0
              THEN <<Hex64(s, 3, <<0, 0, 0>>)>> ELSE <<>>

RECURSIVE DecByte(_), Join(_, _, _), HexByte(_)
DecByte(b) == IF b < 10 THEN <<48 + b>> ELSE DecByte(b \div 10) \o <<48 + (b % 10)>>
Nib(n) == IF n < 10 THEN 48 + n ELSE 87 + n
HexByte(b) == <<48, 120>> \o (IF b < 16 THEN <<Nib(b)>> ELSE <<Nib(b \div 16), Nib(b % 16)>>)
Join(parts, sep, i) == IF i > Len(parts) THEN <<>> ELSE (IF i = 1 THEN <<>> ELSE sep) \o parts[i] \o Join(parts, sep, i + 1)

Esc == (34 :> <<92, 34>>) @@ (92 :> <<92, 92>>) @@ (10 :> <<92, 110>>)
RECURSIVE Quote(_, _)
Quote(s, i) == IF i > Len(s) THEN <<34>> ELSE (IF s[i] \in DOMAIN Esc THEN Esc[s[i]] ELSE <<s[i]>>) \o Quote(s, i + 1)

\* s is the text of kind kd of label l; goes: as Go writes it
TextOK(s, l, ks, goes, nums) ==
  LET kd == First(l, ks)
      v == l[kd][1] IN
  CASE kd = "none" -> s = NIL
    [] kd = "int" -> IntText(s) = <<v>>
    [] kd = "uint" -> (IF goes THEN HexText(s) ELSE UintText(s)) = <<v>>
    [] kd = "double" -> \E i \in 1 .. Len(nums) : nums[i].x = s /\ nums[i].d = <<v>>
    [] kd = "bool" -> s = (IF v THEN TRUETXT ELSE FALSETXT)
    [] kd = "string" -> s = (IF goes THEN <<34>> \o Quote(v, 1) ELSE v)
    [] kd = "bytes" -> s = IF goes THEN BYTEHEAD \o Join([i \in 1 .. Len(v) |-> HexByte(v[i])], <<44, 32>>, 1) \o <<125>>
                           ELSE <<91>> \o Join([i \in 1 .. Len(v) |-> DecByte(v[i])], <<32>>, 1) \o <<93>>

RECURSIVE Walked(_, _, _)
Walked(F, W, nums) ==
  /\ Len(F) = Len(W)
  /\ \A i \in 1 .. Len(F) : TextOK(W[i].s, F[i].l, Kinds1, FALSE, nums) /\ Walked(F[i].c, W[i].c, nums)

\* the walk of F from i with choices ch: <<nodes as sequences of [l, c], choices left>>
RECURSIVE Random(_, _, _, _)
Random(F, i, ch, acc) ==
  IF ch = <<>> THEN <<acc, ch>>
  ELSE IF ch[1] = 0 THEN <<acc, Tail(ch)>>
  ELSE IF i > Len(F) THEN <<acc, Tail(ch)>>
  ELSE IF F[i].leaf THEN Random(F, i + 1, Tail(ch), Append(acc, [l |-> F[i].l, c |-> <<>>]))
  ELSE IF Len(ch) < 2 THEN <<acc, <<>>>>
  ELSE IF ch[2] = 0 THEN Random(F, i + 1, Tail(Tail(ch)), Append(acc, [l |-> F[i].l, c |-> <<>>]))
  ELSE LET x == Random(F[i].c, 1, Tail(Tail(ch)), <<>>) IN
       Random(F, i + 1, x[2], Append(acc, [l |-> F[i].l, c |-> x[1]]))
RECURSIVE RandomOK(_, _, _)
RandomOK(F, W, nums) ==
  /\ Len(F) = Len(W)
  /\ \A i \in 1 .. Len(F) : TextOK(W[i].s, F[i].l, Kinds1, TRUE, nums) /\ RandomOK(F[i].c, W[i].c, nums)

Good(r, x) ==
  /\ x.out = "ok" /\ x.bad = <<>>
  /\ CASE x.op = "walk" -> Walked(r.t, x.tree, r.nums)
       [] x.op = "random" -> LET y == Random(r.t, 1, x.choices, <<>>) IN y[2] = <<>> /\ RandomOK(y[1], x.tree, r.nums)
       [] x.op = "sprint" -> TextOK(x.s, r.t[1].l, Kinds2, TRUE, r.nums)
       [] x.op = "log" -> x.calls = x.logged /\ x.got = x.answers

OpNo == [walk |-> 1, random |-> 2, sprint |-> 3, log |-> 4]

Init == c \in 1 .. Len(Cases) /\ k = 0
Next == LET r == Cases[c] IN
  /\ k < Len(r.runs)
  /\ Count(OpNo[r.runs[k + 1].op])
  /\ IF Good(r, r.runs[k + 1]) THEN TRUE ELSE Mismatch([id |-> r.id, run |-> k + 1, op |-> r.runs[k + 1].op, got |-> r.runs[k + 1]])
  /\ k' = k + 1 /\ UNCHANGED c

Done == PrintStats(<<"walks", "random walks", "printed values", "logged runs">>)
=============================================================================
