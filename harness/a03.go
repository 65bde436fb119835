package main

import (
	"fmt"
	"math/rand"
	"reflect"
	"strings"

	"github.com/katydid/katydid/relapse/ast"
)

type walkLog struct{ log []string }

func (w *walkLog) Visit(n interface{}) interface{} {
	t := reflect.TypeOf(n).String()
	w.log = append(w.log, t[strings.LastIndex(t, ".")+1:])
	return w
}

// spoil changes whatever the value points to
func spoil(v reflect.Value, r *rand.Rand) {
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			spoil(v.Elem(), r)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			spoil(v.Field(i), r)
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			spoil(v.Index(i), r)
		}
	case reflect.String:
		v.SetString("x" + v.String())
	case reflect.Int64, reflect.Int32:
		if v.Type().Kind() == reflect.Int64 {
			v.SetInt(v.Int() + 1)
		}
	case reflect.Uint64:
		v.SetUint(v.Uint() + 1)
	case reflect.Uint8:
		v.SetUint((v.Uint() + 1) % 256)
	case reflect.Float64:
		v.SetFloat(v.Float()*2 + 1)
	case reflect.Bool:
		v.SetBool(!v.Bool())
	}
}

func init() {
	// A03: the abstract syntax tree as a value
	makers["A03"] = func(r *rand.Rand, idx int, tier string) M {
		s := &synGen{Gen: NewGen(r, GenOpt{Depth: 2})}
		for {
			s.out = nil
			s.pat(r.Intn(4))
			if len(s.out) < 70 {
				break
			}
		}
		noise := []int{0, 0, 0, 2, 5}[r.Intn(5)]
		rend := func() string { return render(r, s.out, noise, func(t *Tok) string { return t.text }) }
		orig := append([]Tok(nil), s.out...)
		text := rend()
		lin, _, _ := parseLin(text)
		if lin[0] != "top" {
			return nil
		}
		texts := []string{text}
		for len(texts) < 3 {
			switch k := r.Intn(8); {
			case k == 0:
				texts = append(texts, texts[r.Intn(len(texts))])
			case k == 1: // the same with other space
				s.out = append([]Tok(nil), orig...)
				n := noise
				noise = 3
				x := rend()
				if l, g, _ := parseLin(x); g != nil && l[0] == "top" && len(g.PatternDecls) == 0 {
					texts = append(texts, x)
				}
				noise = n
			default: // a small change
				s.out = append([]Tok(nil), orig...)
				ok := false
				for try := 0; try < 20 && !ok; try++ {
					s.out = append([]Tok(nil), orig...)
					s.change()
					x := render(rand.New(rand.NewSource(int64(idx))), s.out, noise, func(t *Tok) string { return t.text })
					l, g, _ := parseLin(x)
					if g != nil && l[0] == "top" && len(g.PatternDecls) == 0 {
						texts = append(texts, x)
						ok = true
					}
				}
				if !ok {
					s.out = nil
					s.pat(1)
					x := rend()
					if l, g, _ := parseLin(x); g != nil && l[0] == "top" && len(g.PatternDecls) == 0 {
						texts = append(texts, x)
					}
				}
			}
		}
		r.Shuffle(len(texts), func(i, j int) { texts[i], texts[j] = texts[j], texts[i] })
		res := M{"text": strings.Join(texts, "  ////  "), "texts": texts, "failed": ""}
		if p := try(func() {
			ps, asts := []*ast.Pattern{}, [][]string{}
			gs := []*ast.Grammar{}
			for _, t := range texts {
				_, g, _ := parseLin(t)
				g.After = nil
				gs = append(gs, g)
				ps = append(ps, g.TopPattern)
				asts = append(asts, linPat(g.TopPattern, nil))
			}
			res["asts"] = asts
			cmp, eq, geq, hash := [][]int{}, [][]bool{}, [][]bool{}, []string{}
			for i := range ps {
				c, e, ge := []int{}, []bool{}, []bool{}
				for j := range ps {
					c = append(c, ps[i].Compare(ps[j]))
					e = append(e, ps[i].Equal(ps[j]))
					ge = append(ge, gs[i].Equal(gs[j]))
				}
				cmp, eq, geq = append(cmp, c), append(eq, e), append(geq, ge)
				hash = append(hash, fmt.Sprint(ps[i].Hash()))
			}
			res["cmp"], res["eq"], res["geq"], res["hash"] = cmp, eq, geq, hash
			w := &walkLog{}
			ps[0].Walk(w)
			res["walk"] = w.log
			was := ps[0].String()
			full := fmt.Sprintf("%#v", ps[0])
			var cl *ast.Pattern
			if idx%2 == 0 {
				cl = ps[0].Clone()
				res["cloneEq"] = cl.Equal(ps[0]) && ps[0].Equal(cl)
				res["cloneText"] = cl.String() == was && fmt.Sprintf("%#v", cl) == full
			} else {
				gs[0].AddRef("r", ps[1])
				c := gs[0].Clone()
				res["cloneEq"] = c.Equal(gs[0]) && !c.Equal(gs[1])
				res["cloneText"] = c.String() == gs[0].String()
				cl = c.TopPattern
			}
			spoil(reflect.ValueOf(cl), r)
			res["intact"] = ps[0].String() == was && fmt.Sprintf("%#v", ps[0]) == full
		}); p != "" {
			res["failed"] = "panic: " + p
		}
		return res
	}
}

// change replaces tokens such that the text is likely to still parse
func (s *synGen) change() {
	i := s.n(len(s.out))
	t := &s.out[i]
	x := &synGen{Gen: s.Gen}
	swap := map[string][]string{"*": {"<empty>"}, "<empty>": {"*"}, "|": {"&"}, "&": {"|"}}
	switch t.t {
	case "id":
		x.id(false)
	case "lit":
		x.literal(false)
	case "var":
		ty := s.pick(synTypes)
		x.out = []Tok{{t: "var", v: ty, text: "$" + synTypeText[ty]}}
	case "ltype":
		ty := s.pick(synTypes)
		x.out = []Tok{{t: "ltype", v: listOf(ty), text: "[]" + synTypeText[ty]}}
	case "|", "&", "<empty>":
		x.w(swap[t.t][0])
	case "*", "?":
		x.w(s.pick([]string{"*", "?", "<empty>"}))
	case "->", ":", ".":
		// dropped
	case ",", ";":
		x.w(t.t)
		switch s.n(3) {
		case 0: // one element more
			x.pat(0)
			x.w(t.t)
		case 1:
			x.expr(0)
			x.w(t.t)
		}
	case "_":
		if s.n(2) == 0 {
			x.id(true)
		} else {
			x.w("!", "(", "_", ")")
		}
	case "(", ")", "[", "]", "{", "}":
		s.mutate()
		return
	default:
		x.w(s.pick(synOps))
	}
	s.out = append(append(append([]Tok(nil), s.out[:i]...), x.out...), s.out[i+1:]...)
	if len(s.out) == 0 {
		s.w("*")
	}
}
