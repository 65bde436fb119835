------------------------------ MODULE Stored ------------------------------
(***************************************************************************)
(* Grammars as they are stored (relapse/ast/relapse.proto): a message is a *)
(* record of the fields it has.  Decode gives what the bytes i .. e-1 add  *)
(* to the message acc of type m: <<kind, message>>, where kind is doc,     *)
(* junk, or lenient (as in ProtoWire).                                     *)
(***************************************************************************)
EXTENDS ProtoWire, TLC

F(n, name, t, label) == [n |-> n, name |-> name, t |-> t, label |-> label]
Schema == [
   Grammar |-> <<F(1, "TopPattern", "Pattern", "opt"), F(2, "PatternDecls", "PatternDecl", "rep"), F(3, "After", "Space", "opt")>>,
   PatternDecl |-> <<F(1, "Hash", "Keyword", "opt"), F(2, "Before", "Space", "opt"), F(3, "Name", "string", "must"), F(4, "Eq", "Keyword", "opt"), F(5, "Pattern", "Pattern", "opt")>>,
   Pattern |-> <<F(1, "Empty", "Empty", "opt"), F(3, "TreeNode", "TreeNode", "opt"), F(4, "LeafNode", "LeafNode", "opt"), F(5, "Concat", "Concat", "opt"), F(6, "Or", "Or", "opt"), F(7, "And", "And", "opt"), F(8, "ZeroOrMore", "ZeroOrMore", "opt"), F(9, "Reference", "Reference", "opt"), F(10, "Not", "Not", "opt"), F(11, "ZAny", "ZAny", "opt"), F(12, "Contains", "Contains", "opt"), F(13, "Optional", "Optional", "opt"), F(14, "Interleave", "Interleave", "opt")>>,
   Empty |-> <<F(1, "Empty", "Keyword", "opt")>>,
   TreeNode |-> <<F(1, "Name", "NameExpr", "opt"), F(2, "Colon", "Keyword", "opt"), F(3, "Pattern", "Pattern", "opt")>>,
   Contains |-> <<F(1, "Dot", "Keyword", "opt"), F(2, "Pattern", "Pattern", "opt")>>,
   LeafNode |-> <<F(1, "Expr", "Expr", "opt")>>,
   Concat |-> <<F(2, "OpenBracket", "Keyword", "opt"), F(3, "LeftPattern", "Pattern", "opt"), F(4, "Comma", "Keyword", "opt"), F(5, "RightPattern", "Pattern", "opt"), F(6, "ExtraComma", "Keyword", "opt"), F(7, "CloseBracket", "Keyword", "opt")>>,
   Or |-> <<F(1, "OpenParen", "Keyword", "opt"), F(2, "LeftPattern", "Pattern", "opt"), F(3, "Pipe", "Keyword", "opt"), F(4, "RightPattern", "Pattern", "opt"), F(5, "CloseParen", "Keyword", "opt")>>,
   And |-> <<F(1, "OpenParen", "Keyword", "opt"), F(2, "LeftPattern", "Pattern", "opt"), F(3, "Ampersand", "Keyword", "opt"), F(4, "RightPattern", "Pattern", "opt"), F(5, "CloseParen", "Keyword", "opt")>>,
   ZeroOrMore |-> <<F(1, "OpenParen", "Keyword", "opt"), F(2, "Pattern", "Pattern", "opt"), F(3, "CloseParen", "Keyword", "opt"), F(4, "Star", "Keyword", "opt")>>,
   Reference |-> <<F(1, "At", "Keyword", "opt"), F(2, "Name", "string", "must")>>,
   Not |-> <<F(1, "Exclamation", "Keyword", "opt"), F(2, "OpenParen", "Keyword", "opt"), F(3, "Pattern", "Pattern", "opt"), F(4, "CloseParen", "Keyword", "opt")>>,
   ZAny |-> <<F(1, "Star", "Keyword", "opt")>>,
   Optional |-> <<F(1, "OpenParen", "Keyword", "opt"), F(2, "Pattern", "Pattern", "opt"), F(3, "CloseParen", "Keyword", "opt"), F(4, "QuestionMark", "Keyword", "opt")>>,
   Interleave |-> <<F(2, "OpenCurly", "Keyword", "opt"), F(3, "LeftPattern", "Pattern", "opt"), F(4, "SemiColon", "Keyword", "opt"), F(5, "RightPattern", "Pattern", "opt"), F(6, "ExtraSemiColon", "Keyword", "opt"), F(7, "CloseCurly", "Keyword", "opt")>>,
   Expr |-> <<F(1, "RightArrow", "Keyword", "opt"), F(2, "Comma", "Keyword", "opt"), F(3, "Terminal", "Terminal", "opt"), F(4, "List", "List", "opt"), F(5, "Function", "Function", "opt"), F(6, "BuiltIn", "BuiltIn", "opt")>>,
   List |-> <<F(1, "Before", "Space", "opt"), F(2, "Type", "enum", "must"), F(3, "OpenCurly", "Keyword", "opt"), F(4, "Elems", "Expr", "rep"), F(5, "CloseCurly", "Keyword", "opt")>>,
   Function |-> <<F(1, "Before", "Space", "opt"), F(2, "Name", "string", "must"), F(3, "OpenParen", "Keyword", "opt"), F(4, "Params", "Expr", "rep"), F(5, "CloseParen", "Keyword", "opt")>>,
   BuiltIn |-> <<F(1, "Symbol", "Keyword", "opt"), F(2, "Expr", "Expr", "opt")>>,
   Terminal |-> <<F(1, "Before", "Space", "opt"), F(2, "Literal", "string", "must"), F(3, "DoubleValue", "double", "opt"), F(5, "IntValue", "int64", "opt"), F(6, "UintValue", "uint64", "opt"), F(8, "BoolValue", "bool", "opt"), F(9, "StringValue", "string", "opt"), F(10, "BytesValue", "bytes", "opt"), F(50, "Variable", "Variable", "opt")>>,
   Variable |-> <<F(2, "Type", "enum", "must")>>,
   Keyword |-> <<F(1, "Before", "Space", "opt"), F(2, "Value", "string", "must")>>,
   Space |-> <<F(1, "Space", "string", "rep")>>,
   NameExpr |-> <<F(1, "Name", "Name", "opt"), F(2, "AnyName", "AnyName", "opt"), F(3, "AnyNameExcept", "AnyNameExcept", "opt"), F(4, "NameChoice", "NameChoice", "opt")>>,
   Name |-> <<F(1, "Before", "Space", "opt"), F(3, "DoubleValue", "double", "opt"), F(5, "IntValue", "int64", "opt"), F(6, "UintValue", "uint64", "opt"), F(8, "BoolValue", "bool", "opt"), F(9, "StringValue", "string", "opt"), F(10, "BytesValue", "bytes", "opt")>>,
   AnyName |-> <<F(1, "Underscore", "Keyword", "opt")>>,
   AnyNameExcept |-> <<F(1, "Exclamation", "Keyword", "opt"), F(2, "OpenParen", "Keyword", "opt"), F(3, "Except", "NameExpr", "opt"), F(4, "CloseParen", "Keyword", "opt")>>,
   NameChoice |-> <<F(1, "OpenParen", "Keyword", "opt"), F(2, "Left", "NameExpr", "opt"), F(3, "Pipe", "Keyword", "opt"), F(4, "Right", "NameExpr", "opt"), F(5, "CloseParen", "Keyword", "opt")>>]

\* fields that are always there
Default(m) ==
  LET fs == {i \in 1 .. Len(Schema[m]) : Schema[m][i].label = "must"} IN
  [x \in {Schema[m][i].name : i \in fs} |->
     LET f == Schema[m][CHOOSE i \in fs : Schema[m][i].name = x] IN IF f.t = "enum" THEN IntKey(0) ELSE <<>>]

Set(acc, name, v) == (name :> v) @@ acc

\* the value of the scalar type t
ScalarOf(s, t, i, e) ==
  LET l == LeafOf(s, t, i, e)[1].l IN
  CASE t = "double" -> l.double[1] [] t \in {"int64", "enum"} -> l.int[1] [] t = "uint64" -> l.uint[1]
    [] t = "bool" -> l.bool[1] [] t = "string" -> l.string[1] [] t = "bytes" -> l.bytes[1]

RECURSIVE Decode(_, _, _, _, _)
Decode(s, i, e, m, acc) ==
  LET tag == Varint(s, i, e)
      wt == tag[2][3] % 8
      fs == Schema[m]
      num == {y \in 1 .. Len(fs) : Number(tag[2]) = Number(Key(fs[y].n, 0))}
      f == fs[CHOOSE y \in num : TRUE]
      isMsg == f.t \in DOMAIN Schema
      x == Extent(s, tag[1], e, wt)
      had == f.name \in DOMAIN acc
      sub == Decode(s, x[1], x[2], f.t, IF had /\ f.label # "rep" THEN acc[f.name] ELSE Default(f.t))
      v == IF isMsg THEN sub[2] ELSE ScalarOf(s, f.t, x[1], x[2])
      acc2 == Set(acc, f.name, IF f.label = "rep" THEN (IF had THEN Append(acc[f.name], v) ELSE <<v>>) ELSE v)
  IN IF i >= e THEN <<"doc", acc>>
     ELSE IF tag[1] = 0 THEN <<"junk", acc>>
     ELSE IF Huge(tag[2]) \/ Number(tag[2]) = <<0, 0, 0>> \/ wt \notin {0, 1, 2, 5} THEN <<"lenient", acc>>
     ELSE IF num # {} /\ wt # WireType(IF isMsg THEN "msg" ELSE f.t) THEN <<"lenient", acc>>
     ELSE IF x[1] = 0 THEN <<"junk", acc>>
     ELSE IF num = {} THEN Decode(s, x[2], e, m, acc)
     ELSE IF isMsg /\ sub[1] # "doc" THEN <<sub[1], acc>>
     ELSE Decode(s, x[2], e, m, acc2)
=============================================================================
