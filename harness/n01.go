package main

import (
	"math/rand"

	"github.com/katydid/katydid/relapse/ast"
	"github.com/katydid/katydid/relapse/compose"
	"github.com/katydid/katydid/relapse/funcs"
	"github.com/katydid/katydid/relapse/name"
)

// nameFunc makes an expression of the kind that name expressions are
func (g *Gen) nameFunc(d int) *Expr {
	switch k := g.n(10); {
	case d > 0 && k < 2:
		return EFn("not", "bool", g.nameFunc(d-1))
	case d > 0 && k < 4:
		return EFn("or", "bool", g.nameFunc(d-1), g.nameFunc(d-1))
	case d > 0 && k < 6:
		return EFn("and", "bool", g.nameFunc(d-1), g.nameFunc(d-1))
	case k == 6:
		return EConst(&Val{T: "bool", B: g.n(2) == 0})
	case k == 7:
		return g.boolExpr2()
	}
	v := g.nameVal()
	if g.n(4) == 0 {
		return EFn("eq", "bool", EConst(v), EVar(v.T))
	}
	return EFn("eq", "bool", EVar(v.T), EConst(v))
}

// boolExpr2 makes something that may have no name
func (g *Gen) boolExpr2() *Expr {
	v := g.nameVal()
	switch g.n(4) {
	case 0:
		return EFn("ne", "bool", EVar(v.T), EConst(v))
	case 1:
		return EFn("eq", "bool", EVar(v.T), EVar(v.T))
	case 2:
		return EFn("type", "bool", EVar(v.T))
	}
	return EFn("eq", "bool", EConst(v), EConst(g.val(v.T)))
}

func (n *NameE) vals(out []*Val) []*Val {
	if n == nil {
		return out
	}
	if n.K == "name" {
		out = append(out, n.V)
	}
	return n.B.vals(n.A.vals(out))
}

func init() {
	makers["N01"] = func(r *rand.Rand, idx int, tier string) M {
		g := NewGen(r, GenOpt{Typed: true, Coll: r.Intn(6) == 0})
		if r.Intn(2) == 0 {
			g.o.Names = strPool
		}
		d := r.Intn(4)
		rec := M{"n": []M{}, "e": []M{}}
		var vias []viaFunc
		var vs []*Val
		evalVia := func(n func() (*ast.NameExpr, error)) func() (interface{}, error) {
			return func() (interface{}, error) { return n() }
		}
		if r.Intn(3) > 0 {
			n := g.name(d)
			vs = n.vals(nil)
			rec["n"] = []interface{}{n.JSON()}
			rec["text"] = toName(n).String()
			vias = []viaFunc{
				{"eval", evalVia(func() (*ast.NameExpr, error) { return toName(n), nil })},
				{"func", func() (interface{}, error) { return compose.NewBoolFunc(name.NameToFunc(toName(n))) }},
				{"back", evalVia(func() (*ast.NameExpr, error) { return name.FuncToName(name.NameToFunc(toName(n))) })},
			}
		} else {
			e := g.nameFunc(d)
			vs = e.consts(nil)
			rec["e"] = []interface{}{e.JSON()}
			rec["text"] = ExprText(e, nil)
			build := func() (funcs.Bool, error) {
				f, err := buildFunc(e)
				if err != nil {
					return nil, err
				}
				return f.(funcs.Bool), nil
			}
			vias = []viaFunc{
				{"func", func() (interface{}, error) {
					f, err := build()
					if err != nil {
						return nil, err
					}
					return compose.NewBoolFunc(f)
				}},
				{"back", evalVia(func() (*ast.NameExpr, error) {
					f, err := build()
					if err != nil {
						return nil, err
					}
					return name.FuncToName(f)
				})},
			}
		}
		ls := []Label{}
		for i := 0; i < 6; i++ {
			if len(vs) > 0 && r.Intn(3) > 0 {
				ls = append(ls, g.multi(vs[r.Intn(len(vs))].label()))
			} else {
				ls = append(ls, g.evalLabel())
			}
		}
		made := []M{}
		for _, v := range vias {
			m := M{"via": v.name, "made": "ok", "outs": []M{}}
			made = append(made, m)
			var f interface{}
			var err error
			if p := try(func() { f, err = v.f() }); p != "" {
				m["made"], m["detail"] = "panic", p
				continue
			}
			if err != nil {
				m["made"], m["detail"] = "error", err.Error()
				continue
			}
			outs := []M{}
			for _, l := range ls {
				x := M{"v": []bool{}, "panic": false}
				if p := try(func() {
					switch f := f.(type) {
					case *ast.NameExpr:
						m["is"] = f.String()
						x["v"] = []bool{name.EvalName(f, labelParser(l))}
					case compose.Bool:
						b, err := f.Eval(labelParser(l))
						if err == nil {
							x["v"] = []bool{b}
						}
					}
				}); p != "" {
					x["panic"], x["detail"] = true, p
				}
				outs = append(outs, x)
			}
			m["outs"] = outs
		}
		rec["ls"], rec["labels"], rec["made"] = labelsJSON(ls), labelStrings(ls), made
		return rec
	}
}
