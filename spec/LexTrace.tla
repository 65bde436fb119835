----------------------------- MODULE LexTrace -----------------------------
(***************************************************************************)
(* Grammar texts from their bytes.  A trace has the bytes (text), what the *)
(* lexer made of them (toks: type t, offset at, length n, line, col, and   *)
(* for a literal what it denotes: v, or "" if it denotes nothing, and q    *)
(* what an identifier denotes as a name), the syntax tree or an error      *)
(* (ast), the syntax tree after printing (again) and the lexer's tokens of *)
(* what was printed (ptoks).                                               *)
(* When a text begins like a longer token that then does not come (int(x   *)
(* for example), the lexer may find the shorter token or give up.  Texts   *)
(* that are not UTF-8 and doubles that are written as a hexadecimal or     *)
(* octal int may be refused or not.                                        *)
(***************************************************************************)
EXTENDS TraceLib, Lexer, Syntax

VARIABLES c, done

\* the longest token, however the text continues
Back(s, i) ==
  LET R == Readings(s, i) @@ [id |-> Id(s, i)]
      whole == {t \in DOMAIN R : R[t][2] /\ R[t][1] > i}
  IN IF whole = {} THEN <<>>
     ELSE LET far == Max({R[t][1] : t \in whole})
              best == {t \in whole : R[t][1] = far}
          IN <<[t |-> IF best = {"id"} THEN "id" ELSE CHOOSE t \in best \ {"id"} : TRUE, j |-> far]>>

RECURSIVE Move(_, _, _, _)
Move(s, i, j, lc) == \* line and column after the bytes i .. j-1
  IF i >= j THEN lc
  ELSE CASE s[i] = 10 -> Move(s, i + 1, j, <<lc[1] + 1, 1>>)
         [] s[i] = 13 -> Move(s, i + 1, j, <<lc[1], 1>>)
         [] s[i] = 9 -> Move(s, i + 1, j, <<lc[1], lc[2] + 4>>)
         [] OTHER -> Move(s, i + Width(s, i), j, <<lc[1], lc[2] + 1>>)

\* "" or what is wrong with the tokens k .. , where the bytes from i on are at line lc[1] and column lc[2] (or lc = <<>>)
RECURSIVE Wrong(_, _, _, _, _)
Wrong(s, toks, k, i, lc) ==
  IF i > Len(s) THEN (IF k > Len(toks) THEN "" ELSE "tokens behind the end")
  ELSE IF k > Len(toks) THEN "tokens are missing"
  ELSE LET x == toks[k]
           want == TokenAt(s, i)
           back == IF want.t = "INVALID" THEN Back(s, i) ELSE <<>>
           is(y) == x.t = y.t /\ x.n = y.j - i
       IN IF x.at # i - 1 THEN "offset of token " \o ToString(k)
          ELSE IF ~(is(want) \/ (back # <<>> /\ is(back[1]))) THEN "token " \o ToString(k) \o " is " \o ToString([t |-> want.t, n |-> want.j - i])
          ELSE IF lc # <<>> /\ <<x.line, x.col>> # lc THEN "position of token " \o ToString(k) \o " is " \o ToString(lc)
          ELSE Wrong(s, toks, k + 1, i + x.n, IF lc = <<>> \/ want.t = "INVALID" THEN <<>> ELSE Move(s, i, i + x.n, lc))

Lits == {"int_lit", "uint_cast_lit", "double_cast_lit", "string_lit", "bytes_cast_lit", "true", "false"}
TypeOfVar == [bool_var |-> "bool", int_var |-> "int", uint_var |-> "uint", double_var |-> "double", string_var |-> "string", bytes_var |-> "bytes"]
TypeOfList == ("[]bool" :> "bools") @@ ("[]int" :> "ints") @@ ("[]uint" :> "uints") @@ ("[]double" :> "doubles")
              @@ ("[]string" :> "strings") @@ ("[][]byte" :> "byteses")

\* the tokens that the syntax is about
Syn(toks, k, sp) ==
  LET x == toks[k]
      of(t, v) == [t |-> t, v |-> v, q |-> x.q, sp |-> sp]
  IN IF x.t \in Lits THEN of(IF x.v = "" THEN "bad" ELSE "lit", x.v)
     ELSE IF x.t \in DOMAIN TypeOfVar THEN of("var", TypeOfVar[x.t])
     ELSE IF x.t \in DOMAIN TypeOfList THEN of("ltype", TypeOfList[x.t])
     ELSE IF x.t = "INVALID" THEN of("bad", "")
     ELSE of(x.t, x.v)
RECURSIVE Tokens(_, _, _)
Tokens(toks, k, sp) ==
  IF k > Len(toks) THEN <<>>
  ELSE IF toks[k].t = "space" THEN Tokens(toks, k + 1, TRUE) ELSE <<Syn(toks, k, sp)>> \o Tokens(toks, k + 1, FALSE)

\* what printing keeps: everything but how literals and names are written
Kept(toks) == LET class(x) == IF x.t \in Lits \cup {"id"} THEN "word" ELSE x.t IN
  [k \in 1 .. Len(toks) |-> IF class(toks[k]) = "word" THEN <<"word">> ELSE <<toks[k].t, toks[k].lit>>]

Judge(r) ==
  LET w == Wrong(r.text, r.toks, 1, 1, <<1, 1>>) IN
  IF w # "" THEN Mismatch([id |-> r.id, what |-> w, got |-> r.toks])
  ELSE IF ~Utf8From(r.text, 1) \/ (\E k \in 1 .. Len(r.toks) : r.toks[k].v = "open") THEN Count(3) /\ (IF r.ast # <<"panic">> /\ r.again # <<"panic">> THEN TRUE ELSE Mismatch([id |-> r.id, what |-> "panic", got |-> r.ast]))
  ELSE LET T == Trees(Tokens(r.toks, 1, FALSE))
           want == IF T = {} THEN {<<"error">>} ELSE T
       IN /\ Count(IF T = {} THEN 2 ELSE 1)
          /\ IF \E k \in 1 .. Len(r.toks) : r.toks[k].t = "INVALID" THEN Count(4) ELSE TRUE
          /\ IF r.ast \in want THEN TRUE ELSE Mismatch([id |-> r.id, what |-> "syntax tree", got |-> r.ast, want |-> want])
          /\ IF T = {} THEN TRUE
             ELSE /\ IF r.again \in want THEN TRUE ELSE Mismatch([id |-> r.id, what |-> "the printed grammar parses to another tree", got |-> r.again, want |-> want])
                  /\ IF Kept(r.ptoks) = Kept(r.toks) THEN TRUE ELSE Mismatch([id |-> r.id, what |-> "printing loses something", printed |-> r.ptoks])

Init == c \in 1 .. Len(Cases) /\ done = FALSE
Next == ~done /\ Judge(Cases[c]) /\ done' = TRUE /\ UNCHANGED c

Done == PrintStats(<<"accepted", "refused", "lenient", "no token">>)
=============================================================================
