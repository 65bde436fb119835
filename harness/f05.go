package main

import (
	"fmt"
	"math/rand"

	"github.com/katydid/katydid/relapse/compose"
	"github.com/katydid/katydid/relapse/funcs"
)

func composeText(text string) (interface{}, error) {
	x, err := parseExpr(text)
	if err != nil {
		return nil, fmt.Errorf("%s: %v", text, err)
	}
	return compose.NewBool(x)
}

func init() {
	// F05: what is printed evaluates like what was printed
	makers["F05"] = func(r *rand.Rand, idx int, tier string) M {
		g := NewGen(r, GenOpt{Typed: true, Funcs: true})
		e := g.boolExpr(1 + r.Intn(3))
		for r.Intn(3) == 0 {
			switch r.Intn(3) {
			case 0:
				e = EFn("not", "bool", e)
			case 1:
				e = EFn("and", "bool", e, g.boolExpr(1))
			case 2:
				e = EFn("or", "bool", g.boolExpr(1), e)
			}
			ok := true
			e.walk(func(x *Expr) {
				if x != e && x.K == "op" {
					ok = false
				}
			})
			if !ok {
				e = g.boolExpr(1)
			}
		}
		if idx < 8 { // the known finding
			n := []string{"ge", "gt", "le", "lt"}[idx%4]
			e = EFn(n, "bool", EConst(VInt(int64(2))), EVar("int"))
		}
		made := func() (fmt.Stringer, error) {
			var f interface{}
			var err error
			if e.K == "op" {
				f, err = compose.NewBool(toLeafExpr(e))
			} else {
				f, err = buildFunc(e)
			}
			if err != nil {
				return nil, err
			}
			return f.(fmt.Stringer), nil
		}
		text := ExprText(e, r)
		vias := []viaFunc{
			{"string", func() (interface{}, error) {
				f, err := made()
				if err != nil {
					return nil, err
				}
				return composeText("->" + f.String())
			}},
			{"string of text", func() (interface{}, error) {
				f, err := composeText(text)
				if err != nil {
					return nil, err
				}
				return composeText("->" + f.(fmt.Stringer).String())
			}},
			{"sprint", func() (interface{}, error) {
				f, err := made()
				if err != nil {
					return nil, err
				}
				return composeText(funcs.Sprint(f.(funcs.Bool)))
			}},
			{"ast", func() (interface{}, error) { return composeText(toLeafExpr(e).String()) }},
			{"parsed", func() (interface{}, error) {
				x, err := parseExpr(text)
				if err != nil {
					return nil, err
				}
				return composeText(x.String())
			}},
		}
		ls := g.labelsFor(e, 8)
		if idx < 8 {
			ls = append(ls, LInt(1), LInt(2), LInt(3))
		}
		return M{"e": e.JSON(), "text": text, "ls": labelsJSON(ls), "labels": labelStrings(ls), "made": evalRecord(e, vias, ls)}
	}
}
