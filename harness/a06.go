package main

import (
	"math/rand"
	"reflect"

	"github.com/katydid/katydid/relapse/ast"
	"github.com/katydid/katydid/relapse/lexer"
	"github.com/katydid/katydid/relapse/parser"
	"github.com/katydid/katydid/relapse/token"
)

// rawGaps of a text: what is before every token and at the end
func rawGaps(s string) [][]string {
	l := lexer.NewLexer([]byte(s))
	out, cur := [][]string{}, []string{}
	for {
		t := l.Scan()
		if t.Type == spaceType {
			cur = append(cur, string(t.Lit))
			continue
		}
		if len(cur) > 0 {
			out = append(out, cur)
		}
		cur = []string{}
		if t.Type == token.EOF || t.Type == token.INVALID {
			return out
		}
	}
}

// spacesOf finds all white space in a syntax tree
func spacesOf(v reflect.Value, out []*ast.Space) []*ast.Space {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return out
		}
		if s, ok := v.Interface().(*ast.Space); ok {
			return append(out, s)
		}
		return spacesOf(v.Elem(), out)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			out = spacesOf(v.Field(i), out)
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			out = spacesOf(v.Index(i), out)
		}
	}
	return out
}

func init() {
	// A06: comments
	makers["A06"] = func(r *rand.Rand, idx int, tier string) M {
		s := &synGen{Gen: NewGen(r, GenOpt{Depth: 2})}
		s.gram(r.Intn(4))
		for len(s.out) > 90 {
			s.out = nil
			s.gram(2)
		}
		synMore = []int{12, 5, 4}[r.Intn(3)]
		defer func() { synMore = 12 }()
		text := render(r, s.out, []int{2, 5, 8, 10, 10}[r.Intn(5)], func(t *Tok) string { return t.text })
		var g *ast.Grammar
		var err error
		res := M{"text": text, "failed": "", "gaps": rawGaps(text), "spaces": []M{}}
		if p := try(func() { g, err = parser.ParseGrammar(text) }); p != "" {
			res["failed"] = "parsing panics: " + p
			return res
		}
		if err != nil {
			return nil // see A01
		}
		spaces := []M{}
		p := try(func() {
			for _, x := range spacesOf(reflect.ValueOf(g), nil) {
				m := M{"pieces": append([]string{}, x.Space...), "has": x.HasComment(), "attached": string(x.GetAttachedComment()), "hasattached": x.HasAttachedComment()}
				cs, ct := []string{}, []string{}
				for _, c := range x.GetComments() {
					cs, ct = append(cs, string(c)), append(ct, c.GetContent())
				}
				m["comments"], m["contents"] = cs, ct
				spaces = append(spaces, m)
			}
			var none *ast.Space
			if none.HasComment() || len(none.GetComments()) > 0 || none.GetAttachedComment() != "" || none.HasAttachedComment() {
				res["failed"] = "no white space has comments"
			}
			if ast.Comment("").GetContent() != "" {
				res["failed"] = "no comment has content"
			}
		})
		if p != "" {
			res["failed"] = "panic: " + p
		}
		res["spaces"] = spaces
		return res
	}
}
