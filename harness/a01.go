package main

import (
	"fmt"
	"math"
	"math/rand"
	"strconv"
	"strings"

	"github.com/katydid/katydid/relapse/ast"
	"github.com/katydid/katydid/relapse/parser"
)

// Tok is a token of the syntax: its class, value, and its text.
type Tok struct {
	t, v, q string
	text    string
	canon   string // how it is expected to be printed
	sp      bool
}

func hexOf(s string) string { return fmt.Sprintf("%x", s) }

func linVal(v *Val) string {
	switch v.T {
	case "int":
		return fmt.Sprintf("int %d", v.I)
	case "uint":
		return fmt.Sprintf("uint %d", v.U)
	case "double":
		return fmt.Sprintf("double %x", math.Float64bits(v.D))
	case "bool":
		return fmt.Sprintf("bool %v", v.B)
	case "string":
		return "string " + hexOf(string(v.S))
	}
	return "bytes " + hexOf(string(v.S))
}

// linear syntax trees

func linExpr(e *ast.Expr, out []string) []string {
	if e.RightArrow != nil {
		out = append(out, "->")
	}
	switch {
	case e.Terminal != nil:
		x := fromExpr(&ast.Expr{Terminal: e.Terminal})
		if x.K == "var" {
			return append(out, "var", x.T)
		}
		return append(out, "lit", linVal(x.V))
	case e.List != nil:
		out = append(out, "list", typeName(e.List.Type), strconv.Itoa(len(e.List.Elems)))
		for _, a := range e.List.Elems {
			out = linExpr(a, out)
		}
	case e.Function != nil:
		out = append(out, "fn", e.Function.Name, strconv.Itoa(len(e.Function.Params)))
		for _, a := range e.Function.Params {
			out = linExpr(a, out)
		}
	case e.BuiltIn != nil:
		out = linExpr(e.BuiltIn.Expr, append(out, "op", e.BuiltIn.Symbol.Value))
	default:
		out = append(out, "no expression")
	}
	return out
}

func linName(n *ast.NameExpr, out []string) []string {
	switch {
	case n.AnyName != nil:
		return append(out, "any")
	case n.AnyNameExcept != nil:
		return linName(n.AnyNameExcept.Except, append(out, "except"))
	case n.NameChoice != nil:
		return linName(n.NameChoice.Right, linName(n.NameChoice.Left, append(out, "choice")))
	}
	return append(out, "name", linVal(fromName(n).V))
}

func linPat(p *ast.Pattern, out []string) []string {
	bin := func(k string, l, r *ast.Pattern) []string { return linPat(r, linPat(l, append(out, k))) }
	switch {
	case p.Empty != nil:
		return append(out, "empty")
	case p.ZAny != nil:
		return append(out, "zany")
	case p.TreeNode != nil:
		return linPat(p.TreeNode.Pattern, linName(p.TreeNode.Name, append(out, "tree")))
	case p.LeafNode != nil:
		return linExpr(p.LeafNode.Expr, append(out, "leaf"))
	case p.Concat != nil:
		return bin("concat", p.Concat.LeftPattern, p.Concat.RightPattern)
	case p.Or != nil:
		return bin("or", p.Or.LeftPattern, p.Or.RightPattern)
	case p.And != nil:
		return bin("and", p.And.LeftPattern, p.And.RightPattern)
	case p.Interleave != nil:
		return bin("inter", p.Interleave.LeftPattern, p.Interleave.RightPattern)
	case p.ZeroOrMore != nil:
		return linPat(p.ZeroOrMore.Pattern, append(out, "star"))
	case p.Optional != nil:
		return linPat(p.Optional.Pattern, append(out, "opt"))
	case p.Not != nil:
		return linPat(p.Not.Pattern, append(out, "not"))
	case p.Contains != nil:
		return linPat(p.Contains.Pattern, append(out, "contains"))
	case p.Reference != nil:
		return append(out, "ref", p.Reference.Name)
	}
	return append(out, "no pattern")
}

func linGram(g *ast.Grammar) []string {
	out := []string{}
	if g.TopPattern != nil {
		out = linPat(g.TopPattern, append(out, "top"))
	}
	for _, d := range g.PatternDecls {
		out = linPat(d.Pattern, append(out, "decl", d.Name))
	}
	return out
}

// parseLin parses; the result is ["error"] or ["panic"] when there is no tree
func parseLin(s string) (lin []string, g *ast.Grammar, detail string) {
	if p := try(func() {
		var err error
		g, err = parser.ParseGrammar(s)
		if err != nil {
			lin, g, detail = []string{"error"}, nil, err.Error()
			return
		}
		lin = linGram(g)
	}); p != "" {
		return []string{"panic"}, nil, p
	}
	return
}

// ---------------------------------------------------------------------------
// sentences of the syntax

type synGen struct {
	*Gen
	out []Tok
}

func (s *synGen) w(ts ...string) {
	for _, t := range ts {
		s.out = append(s.out, Tok{t: t, text: t, canon: t})
	}
}

var ids = []string{"a", "b", "A", "a1", "_a", "__", "aB_9", "main", "or", "not", "string", "bool", "bytes", "truex", "nottrue", "e", "x", "f"}

func (s *synGen) id(name bool) {
	v := s.pick(ids)
	s.out = append(s.out, Tok{t: "id", v: v, q: "string " + hexOf(v), text: v, canon: v})
}

func quoteSome(r *rand.Rand, in string) string {
	if r.Intn(4) == 0 && !strings.ContainsAny(in, "`\r") && validText(in) {
		return "`" + in + "`"
	}
	var b strings.Builder
	b.WriteByte('"')
	for i := 0; i < len(in); {
		c, n := rune(in[i]), 1
		if c >= 0x80 {
			for _, x := range in[i:] {
				c = x
				break
			}
			n = len(string(c))
			if c == 0xFFFD || n < 2 || !strings.HasPrefix(in[i:], string(c)) {
				fmt.Fprintf(&b, "\\x%02x", in[i])
				i++
				continue
			}
		}
		switch r.Intn(9) {
		case 0:
			for j := 0; j < n; j++ {
				b.WriteString(`\x` + mixHex(r, fmt.Sprintf("%02x", in[i+j])))
			}
		case 1:
			for j := 0; j < n; j++ {
				fmt.Fprintf(&b, "\\%03o", in[i+j])
			}
		case 2:
			if c < 0x10000 {
				b.WriteString(`\u` + mixHex(r, fmt.Sprintf("%04x", c)))
				break
			}
			fallthrough
		case 3:
			b.WriteString(`\U` + mixHex(r, fmt.Sprintf("%08x", c)))
		default:
			esc := map[rune]string{'\a': `\a`, '\b': `\b`, '\f': `\f`, '\n': `\n`, '\r': `\r`, '\t': `\t`, '\v': `\v`, '\\': `\\`, '"': `\"`}
			if e, ok := esc[c]; ok {
				b.WriteString(e)
			} else if c < 0x20 {
				fmt.Fprintf(&b, "\\x%02x", c)
			} else {
				b.WriteRune(c)
			}
		}
		i += n
	}
	b.WriteByte('"')
	return b.String()
}

// mixHex writes each digit in one case or the other
func mixHex(r *rand.Rand, s string) string {
	b := []byte(s)
	for i := range b {
		if b[i] >= 'a' && r.Intn(2) == 0 {
			b[i] -= 32
		}
	}
	return string(b)
}

// anyRunes are characters of every length
func anyRunes(r *rand.Rand) string {
	s := ""
	for n := 1 + r.Intn(3); n > 0; n-- {
		c := rune(r.Intn([]int{0x80, 0x100, 0x800, 0x10000, 0x110000}[r.Intn(5)]))
		if c >= 0xd800 && c < 0xe000 || c == 0xfffd {
			c -= 0x800
		}
		s += string(c)
	}
	return s
}

func validText(s string) bool { return strings.ToValidUTF8(s, "") == s }

var synStrings = []string{"", "a", "abc", "true", "_", "a b", "\"", "\\", "`", "'", "\n", "\t\r", "\x00", "\x7f", "é", "日本", "\xff", "a\xc3", "😀", "\u2028", "//", "/*", "*/", "[]byte{1}", "1", "int(1)", "$int", "\\n", "%s", "�"}

func (s *synGen) literal(name bool) {
	t := Tok{t: "lit"}
	bad := false
	switch s.n(12) {
	case 0:
		b := s.n(2) == 0
		t.text = strconv.FormatBool(b)
		t.canon = t.text
		t.v = "bool " + t.text
	case 1, 2, 3:
		v := []int64{s.r.Int63() >> uint(s.n(63)), -s.r.Int63() >> uint(s.n(63)), 0, 1, -1, 7, 8, 10, 255, 256, -300, math.MaxInt32, math.MinInt64, math.MaxInt64, s.r.Int63() - s.r.Int63()}[s.n(15)]
		t.v, t.canon = fmt.Sprintf("int %d", v), fmt.Sprint(v)
		neg, abs := "", strconv.FormatUint(uint64(v), 10)
		mag := uint64(v)
		if v < 0 {
			neg, mag = "-", -uint64(v)
			abs = strconv.FormatUint(mag, 10)
		}
		switch s.n(6) {
		case 0:
			t.text = "int(" + neg + abs + ")"
		case 1:
			t.text = fmt.Sprintf("int(%s0x%x)", neg, mag)
		case 2:
			t.text = fmt.Sprintf("int(%s0X%X)", neg, mag)
		case 3:
			t.text = fmt.Sprintf("int(%s0%o)", neg, mag)
		default:
			t.text = neg + abs
		}
		if s.n(60) == 0 {
			bad = true
			t.text = []string{"9223372036854775808", "-9223372036854775809", "int(0x8000000000000000)", "99999999999999999999999", "int(-01000000000000000000001)"}[s.n(5)]
		}
	case 4, 5:
		v := []uint64{0, 1, 8, 255, math.MaxUint64, 1 << 63, s.r.Uint64(), s.r.Uint64() >> uint(s.n(64))}[s.n(8)]
		t.v, t.canon = fmt.Sprintf("uint %d", v), fmt.Sprintf("uint(%d)", v)
		t.text = fmt.Sprintf([]string{"uint(%d)", "uint(0x%x)", "uint(0X%X)", "uint(0%o)"}[s.n(4)], v)
		if v == 0 && s.n(2) == 0 {
			t.text = "uint(0)"
		}
		if s.n(40) == 0 {
			bad = true
			t.text = []string{"uint(18446744073709551616)", "uint(0x10000000000000000)"}[s.n(2)]
		}
	case 6:
		v := []float64{0, 1, -1, 0.5, 1.5, 1e100, -1e-7, math.MaxFloat64, math.SmallestNonzeroFloat64, 123456789, s.r.NormFloat64(), math.Float64frombits(uint64(s.r.Int63n(2047<<52)))}[s.n(12)]
		f := "efgE"[s.n(4)]
		x := strconv.FormatFloat(v, f, -1, 64)
		if strings.HasPrefix(x, "0.") && s.n(2) == 0 {
			x = x[1:]
		}
		if s.n(6) == 0 {
			x = strings.Replace(x, "e+", "e", 1)
		}
		t.text = "double(" + x + ")"
		t.v = linVal(&Val{T: "double", D: v})
		t.canon = ""
		if s.n(40) == 0 {
			bad = true
			t.text = "double(1e999)"
		}
	case 7, 8, 9:
		v := s.pick(synStrings)
		if s.n(4) == 0 {
			v = s.str()
		} else if s.n(3) == 0 {
			v = anyRunes(s.r)
		}
		t.v, t.text = "string "+hexOf(v), quoteSome(s.r, v)
		if !name {
			t.canon = strconv.Quote(v)
		}
	default:
		n := s.n(4)
		bs := []byte{}
		el := []string{}
		for i := 0; i < n; i++ {
			b := byte([]int{0, 1, 7, 8, 10, 39, 44, 92, 97, 125, 127, 128, 254, 255, s.n(256)}[s.n(15)])
			bs = append(bs, b)
			x := ""
			switch s.n(8) {
			case 0, 1:
				x = strconv.Itoa(int(b))
			case 2:
				x = "0x" + mixHex(s.r, fmt.Sprintf("%x", b))
			case 3:
				x = "0X" + mixHex(s.r, fmt.Sprintf("%02x", b))
			case 4:
				x = fmt.Sprintf("0%o", b)
			case 5:
				x = "'\\x" + mixHex(s.r, fmt.Sprintf("%02x", b)) + "'"
			case 6:
				x = fmt.Sprintf("'\\%03o'", b)
			default:
				if b > 0x20 && b < 0x7f && b != '\\' && b != '\'' {
					x = "'" + string(rune(b)) + "'"
				} else if e, ok := map[byte]string{10: `'\n'`, 7: `'\a'`, 8: `'\b'`, 39: `'\''`, 92: `'\\'`, 0: `'\x00'`}[b]; ok {
					x = e
				} else {
					x = fmt.Sprintf([]string{"'\\u%04x'", "'\\U%08X'", "'\\u%04X'", "'\\U%08x'"}[s.n(4)], b)
				}
			}
			el = append(el, x)
		}
		if s.n(40) == 0 {
			bad = true
			el = append(el, []string{"256", "0x100", "0400", "'\u0100'", "'\\u1234'", "'日'"}[s.n(6)])
		}
		ws := func() string { return []string{"", "", "", " ", "\t", " \n"}[s.n(6)] }
		t.text = "[]byte{" + ws() + strings.Join(el, ws()+","+ws()) + ws() + "}"
		t.v = "bytes " + hexOf(string(bs))
	}
	if bad {
		t.t, t.v = "bad", ""
	}
	s.out = append(s.out, t)
}

var synTypes = []string{"bool", "int", "uint", "double", "string", "bytes"}
var synTypeText = map[string]string{"bool": "bool", "int": "int", "uint": "uint", "double": "double", "string": "string", "bytes": "[]byte"}

func (s *synGen) exprs(d int) {
	n := s.n(4)
	for i := 0; i < n; i++ {
		if i > 0 {
			s.w(",")
		}
		s.expr(d - 1)
	}
}

func (s *synGen) expr(d int) {
	k := s.n(7)
	if d <= 0 {
		k = s.n(3)
	}
	switch k {
	case 0, 1:
		s.literal(false)
	case 2:
		t := s.pick(synTypes)
		s.out = append(s.out, Tok{t: "var", v: t, text: "$" + synTypeText[t]})
	case 3, 4:
		s.id(false)
		s.w("(")
		s.exprs(d)
		s.w(")")
	case 5:
		t := s.pick(synTypes)
		s.out = append(s.out, Tok{t: "ltype", v: listOf(t), text: "[]" + synTypeText[t]})
		s.w("{")
		s.exprs(d)
		s.w("}")
	default:
		s.builtin(d)
	}
}

var synOps = []string{"==", "!=", "<", ">", ">=", "<=", "~=", "*=", "^=", "$=", "::"}

func (s *synGen) builtin(d int) {
	s.w(s.pick(synOps))
	s.expr(d - 1)
}

func (s *synGen) allExpr() {
	if s.n(2) == 0 {
		s.w("->")
		s.expr(2)
	} else {
		s.builtin(2)
	}
}

func (s *synGen) nameE(d int) {
	k := s.n(8)
	if d <= 0 {
		k = s.n(6)
	}
	switch k {
	case 0:
		s.w("_")
	case 1, 2, 3:
		s.id(true)
	case 4, 5:
		s.literal(true)
	case 6:
		s.w("!", "(")
		s.nameE(d - 1)
		s.w(")")
	case 7:
		s.w("(")
		s.nameE(d - 1)
		for i := 1 + s.n(3); i > 0; i-- {
			s.w("|")
			s.nameE(d - 1)
		}
		s.w(")")
	}
}

func (s *synGen) list(d int, open, sep, close string, extra bool) {
	s.w(open)
	s.pat(d - 1)
	for i := 1 + s.n(3); i > 0; i-- {
		s.w(sep)
		s.pat(d - 1)
	}
	if extra && s.n(4) == 0 {
		s.w(sep)
	}
	s.w(close)
}

func (s *synGen) depth(d int) {
	switch s.n(5) {
	case 0:
		s.list(d, "[", ",", "]", true)
	case 1:
		s.list(d, "{", ";", "}", true)
	case 2:
		s.w(".")
		s.pat(d - 1)
	default:
		s.allExpr()
	}
}

func (s *synGen) pat(d int) {
	k := s.n(16)
	if d <= 0 {
		k = s.n(6)
	}
	switch k {
	case 0:
		s.w("<empty>")
	case 1:
		s.w("*")
	case 2, 3:
		s.allExpr()
	case 4:
		s.w("@")
		s.id(false)
	case 5:
		s.nameE(1)
		s.w(":", "*")
	case 6, 7:
		s.nameE(2)
		s.w(":")
		s.pat(d - 1)
	case 8:
		s.nameE(2)
		s.depth(d)
	case 9, 10:
		s.depth(d)
	case 11:
		s.list(d, "(", "|", ")", false)
	case 12:
		s.list(d, "(", "&", ")", false)
	case 13:
		s.w("(")
		s.pat(d - 1)
		s.w(")", "*")
	case 14:
		s.w("(")
		s.pat(d - 1)
		s.w(")", "?")
	default:
		s.w("!", "(")
		s.pat(d - 1)
		s.w(")")
	}
}

func (s *synGen) gram(d int) {
	n := s.n(3)
	if s.n(6) > 0 {
		s.pat(d)
	} else {
		n++
	}
	for i := 0; i < n; i++ {
		s.w("#")
		s.id(false)
		s.w("=")
		s.pat(d - 1)
	}
}

func wordChar(c byte) bool {
	return c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}
func opChar(c byte) bool { return strings.IndexByte("=:<>!~*^$-|&[]./?", c) >= 0 }

var synSpaces = []string{" ", " ", " ", "  ", "\n", "\t", "\r\n", "/* c */", "/**/", "// x\n", "/*a*b*/", " /*1*/ //2\n", "/*日本*/", "//\n\n", "/* // */", "//* \n"}

// how often there is more space behind space: 3 of synMore times
var synMore = 12

// render writes the tokens with space in between where it is needed and where it is not
func render(r *rand.Rand, toks []Tok, noise int, text func(t *Tok) string) string {
	var b strings.Builder
	last := byte(0)
	for i := range toks {
		t := &toks[i]
		tx := text(t)
		need := i > 0 && (wordChar(last) && wordChar(tx[0]) || opChar(last) && opChar(tx[0]) || (last == '-' || last == '<') && wordChar(tx[0]))
		// a number directly before a parenthesis, and so on, stays as it is
		at := i > 0 && toks[i-1].t == "@"
		if need || noise > 0 && r.Intn(10) < noise && !(at && r.Intn(8) > 0) {
			b.WriteString(synSpaces[r.Intn(len(synSpaces))])
			for r.Intn(synMore) < 3 {
				b.WriteString(synSpaces[r.Intn(len(synSpaces))])
			}
			t.sp = true
		}
		b.WriteString(tx)
		last = tx[len(tx)-1]
	}
	if noise > 0 && r.Intn(3) == 0 {
		b.WriteString(synSpaces[r.Intn(len(synSpaces))])
	}
	return b.String()
}

func (s *synGen) mutate() {
	n := 1 + s.n(2)
	for ; n > 0 && len(s.out) > 0; n-- {
		i := s.n(len(s.out))
		switch s.n(4) {
		case 0:
			s.out = append(s.out[:i], s.out[i+1:]...)
		case 1:
			s.out = append(s.out[:i+1], s.out[i:]...)
		case 2:
			j := s.n(len(s.out))
			s.out[i], s.out[j] = s.out[j], s.out[i]
		default:
			x := &synGen{Gen: s.Gen}
			switch s.n(4) {
			case 0:
				x.id(false)
			case 1:
				x.literal(false)
			default:
				x.w(s.pick([]string{"(", ")", "*", "?", "|", "&", ",", ";", "[", "]", "{", "}", ":", ".", "@", "#", "=", "!", "_", "->", "==", "<empty>", "*=", "::"}))
			}
			s.out[i] = x.out[0]
		}
	}
}

func init() {
	// A01: the syntax
	makers["A01"] = func(r *rand.Rand, idx int, tier string) M {
		s := &synGen{Gen: NewGen(r, GenOpt{Depth: 2})}
		d := r.Intn(4)
		if tier != "quick" && r.Intn(4) == 0 {
			d = 4
		}
		s.gram(d)
		for len(s.out) > 90 {
			s.out = nil
			s.gram(2)
		}
		mutated := r.Intn(3) == 0
		if mutated {
			s.mutate()
		}
		if len(s.out) == 0 {
			s.w("*")
		}
		noise := []int{0, 0, 1, 3, 6}[r.Intn(5)]
		text := render(r, s.out, noise, func(t *Tok) string { return t.text })
		toks := make([]M, len(s.out))
		canonical := !mutated
		for i, t := range s.out {
			toks[i] = M{"t": t.t, "v": t.v, "q": t.q, "sp": t.sp}
			if t.t == "lit" && t.canon != t.text {
				canonical = false
			}
		}
		lin, g, detail := parseLin(text)
		res := M{"text": text, "toks": toks, "ast": lin, "again": []string{}, "lossless": true, "detail": detail}
		if g != nil {
			printed := ""
			if p := try(func() { printed = g.String() }); p != "" {
				res["again"] = []string{"panic"}
				return res
			}
			res["again"], _, _ = parseLin(printed)
			res["printed"] = printed
			res["lossless"] = !canonical || printed == text
		}
		return res
	}
}
