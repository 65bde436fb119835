package main

import (
	"math/rand"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/katydid/katydid/relapse/lexer"
	"github.com/katydid/katydid/relapse/token"
)

// what a literal denotes, or "" if it denotes nothing
func litDenotes(typ, lit string) string {
	inside := func(open string) string { return strings.TrimSuffix(strings.TrimPrefix(lit, open), ")") }
	switch typ {
	case "true", "false":
		return "bool " + typ
	case "int_lit":
		if v, err := strconv.ParseInt(inside("int("), 0, 64); err == nil {
			return linVal(&Val{T: "int", I: v})
		}
	case "uint_cast_lit":
		if v, err := strconv.ParseUint(inside("uint("), 0, 64); err == nil {
			return linVal(&Val{T: "uint", U: v})
		}
	case "double_cast_lit":
		s := inside("double(")
		if i := strings.TrimPrefix(s, "-"); len(i) > 1 && i[0] == '0' && !strings.ContainsAny(i, ".eE") || strings.ContainsAny(i, "xX") {
			return "open" // an int that is not decimal
		}
		if v, err := strconv.ParseFloat(s, 64); err == nil {
			return linVal(&Val{T: "double", D: v})
		}
	case "string_lit":
		if v, err := strconv.Unquote(lit); err == nil {
			return linVal(&Val{T: "string", S: []byte(v)})
		}
	case "bytes_cast_lit":
		s := strings.TrimSuffix(strings.TrimPrefix(lit, "[]byte{"), "}")
		bs := []byte{}
		for {
			s = strings.TrimLeft(s, " \t\n\r,")
			if s == "" {
				return linVal(&Val{T: "bytes", S: bs})
			}
			if s[0] == '\'' {
				c, _, rest, err := strconv.UnquoteChar(s[1:], '\'')
				if s[1] == '\'' && err != nil {
					c, rest, err = '\'', s[2:], nil
				}
				if err != nil || c > 255 {
					return ""
				}
				bs = append(bs, byte(c))
				s = rest[1:]
				continue
			}
			e := strings.IndexAny(s, " \t\n\r,")
			if e < 0 {
				e = len(s)
			}
			v, err := strconv.ParseUint(s[:e], 0, 8)
			if err != nil {
				return ""
			}
			bs = append(bs, byte(v))
			s = s[e:]
		}
	}
	return ""
}

// what the lexer makes of a text
func lexAll(text string) []M {
	l := lexer.NewLexer([]byte(text))
	out := []M{}
	for len(out) <= len(text)+5 {
		t := l.Scan()
		if t.Type == token.EOF {
			return out
		}
		typ := token.TokMap.Id(t.Type)
		lit := string(t.Lit)
		m := M{"t": typ, "at": t.Pos.Offset, "n": len(lit), "line": t.Pos.Line, "col": t.Pos.Column, "v": "", "q": "", "lit": ""}
		if t.Pos.Offset < 0 || t.Pos.Offset+len(lit) > len(text) || text[t.Pos.Offset:t.Pos.Offset+len(lit)] != lit {
			m["t"] = "not what the text says"
		}
		switch typ {
		case "id":
			m["v"], m["q"] = lit, "string "+hexOf(lit)
		case "space":
			m["lit"] = hexOf(lit)
		default:
			m["v"] = litDenotes(typ, lit)
		}
		out = append(out, m)
		if len(lit) == 0 {
			break
		}
	}
	return append(out, M{"t": "no end", "at": -1, "n": 0, "line": 0, "col": 0, "v": "", "q": "", "lit": ""})
}

var lexNoise = []string{"int(", "uint(", "double(", "[]byte{", "[]", "$", "0x", "07", "08", "-", "->", "1", "1.5", ".5e3", "1e", "e", "E+", ")", "}", "'", "'a'", "'\\n'", "\"", "`", "\\", "\\x4", "\\u00e9", "/*", "*/", "//", "\n", "\r", "\t", " ",
	"<", "<empty", "<empty>", ">", "=", "!", ":", "::", ".", "a", "_", "true", "fals", "@", "#", "*", "?", "|", "&", "~", "^", "%", "+", "日", ",", ";", "[", "]", "{", "(", "$int", "$[]byte", "$doubl", "[][]byte", "[]string"}

var lexRunes = []rune("\t\n\r !\"#$%&'()*+,-./0178:;<=>?@AEFGUXYZ[\\]^_`abcdefgilmnoprstuvxyz{|}~\x7fé日")

// a walk along the transitions of the lexer, and off them now and then
func lexWalk(r *rand.Rand) string {
	text, state := "", 0
	for n := 3 + r.Intn(25); n > 0; n-- {
		next := []rune{}
		for _, c := range lexRunes {
			if lexer.TransTab[state](c) >= 0 {
				next = append(next, c)
			}
		}
		c := lexRunes[r.Intn(len(lexRunes))]
		if len(next) > 0 && r.Intn(25) > 0 {
			c = next[r.Intn(len(next))]
		}
		text += string(c)
		if state = lexer.TransTab[state](c); state < 0 {
			if state = lexer.TransTab[0](c); state < 0 {
				state = 0
			}
		}
	}
	return text
}

func init() {
	// A07: texts
	makers["A07"] = func(r *rand.Rand, idx int, tier string) M {
		s := &synGen{Gen: NewGen(r, GenOpt{Depth: 2})}
		text := ""
		switch r.Intn(7) {
		case 2:
			for n := r.Intn(3); n >= 0; n-- {
				text += lexWalk(r)
			}
		case 0: // pieces of tokens
			for n := 1 + r.Intn(12); n > 0; n-- {
				text += lexNoise[r.Intn(len(lexNoise))]
			}
		case 1: // literals in a row
			for n := 1 + r.Intn(4); n > 0; n-- {
				s.literal(false)
			}
			for _, t := range s.out {
				text += t.text + s.pick([]string{"", " ", "\n", "/**/"})
			}
		default:
			s.gram(r.Intn(3))
			for len(s.out) > 50 {
				s.out = nil
				s.gram(1)
			}
			text = render(r, s.out, []int{0, 1, 3, 6}[r.Intn(4)], func(t *Tok) string { return t.text })
		}
		for r.Intn(2) == 0 {
			text = spoilText(r, text, lexNoise)
		}
		for len(text) > 400 {
			text = text[:400]
		}
		lin, g, detail := parseLin(text)
		res := M{"text": keyBytes([]byte(text)), "shown": text, "toks": []M{}, "ast": lin, "again": []string{}, "ptoks": []M{}, "detail": detail}
		if p := try(func() { res["toks"] = lexAll(text) }); p != "" {
			res["ast"], res["detail"] = []string{"panic"}, p
		}
		if g != nil {
			printed := ""
			if p := try(func() { printed = g.String() }); p != "" {
				res["again"] = []string{"panic"}
				return res
			}
			res["again"], _, _ = parseLin(printed)
			if utf8.ValidString(text) {
				res["ptoks"] = lexAll(printed)
			}
		}
		return res
	}
}
