package main

import (
	"math/rand"
	"strings"

	"github.com/katydid/katydid/relapse/ast"
	"github.com/katydid/katydid/relapse/lexer"
	"github.com/katydid/katydid/relapse/token"
)

var spaceType = token.TokMap.Type("space")

// gaps of a text: what is before every token and at the end
func gaps(s string) []interface{} {
	l := lexer.NewLexer([]byte(s))
	out := []interface{}{}
	cur := []M{}
	for {
		t := l.Scan()
		if t.Type == spaceType {
			x := string(t.Lit)
			p := M{"k": "ws", "s": x, "nl": strings.Count(x, "\n")}
			if strings.HasPrefix(x, "//") {
				p["k"], p["s"] = "line", strings.TrimSpace(x)
			} else if strings.HasPrefix(x, "/*") {
				p["k"], p["s"] = "block", x
			}
			cur = append(cur, p)
			continue
		}
		out = append(out, cur)
		cur = []M{}
		if t.Type == token.EOF || t.Type == token.INVALID {
			return out
		}
	}
}

func init() {
	// A02: formatting
	makers["A02"] = func(r *rand.Rand, idx int, tier string) M {
		s := &synGen{Gen: NewGen(r, GenOpt{Depth: 2})}
		s.gram(r.Intn(4))
		for len(s.out) > 90 {
			s.out = nil
			s.gram(2)
		}
		synMore = []int{12, 12, 5}[r.Intn(3)]
		defer func() { synMore = 12 }()
		text := render(r, s.out, []int{0, 2, 5, 8, 10}[r.Intn(5)], func(t *Tok) string { return t.text })
		lin, g, detail := parseLin(text)
		if g == nil {
			// bad literals
			if strings.Contains(strings.Join(lin, ""), "panic") {
				return M{"text": text, "failed": "parsing panics: " + detail}
			}
			return nil
		}
		res := M{"text": text, "failed": "", "ast": lin}
		res["before"] = gaps(text)
		form := func(g *ast.Grammar) (out string, ok bool) {
			if p := try(func() { g.Format(); out = g.String() }); p != "" {
				res["failed"] = "formatting panics: " + p
				return "", false
			}
			return out, true
		}
		f1, ok := form(g)
		if !ok {
			return res
		}
		res["formatted"] = f1
		res["after"] = gaps(f1)
		lin2, g2, detail := parseLin(f1)
		res["ast2"] = lin2
		if g2 == nil {
			res["failed"] = "the formatted grammar does not parse: " + detail
			return res
		}
		f2, ok := form(g2)
		if !ok {
			return res
		}
		res["again"] = gaps(f2)
		return res
	}
}
