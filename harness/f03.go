package main

import (
	"math/rand"

	"github.com/katydid/katydid/relapse"
	"github.com/katydid/katydid/relapse/ast"
	"github.com/katydid/katydid/relapse/compose"
)

var allTypes = []string{"double", "int", "uint", "bool", "string", "bytes", "doubles", "ints", "uints", "bools", "strings", "byteses"}
var allFns = []string{"eq", "ne", "lt", "le", "gt", "ge", "and", "or", "not", "contains", "hasPrefix", "hasSuffix", "eqFold", "regex",
	"toLower", "toUpper", "type", "length", "elem", "range", "print", "now", "foo", "Eq"}

func (e *Expr) walk(f func(*Expr)) {
	f(e)
	for _, a := range e.A {
		a.walk(f)
	}
}

func cloneExpr(e *Expr) *Expr {
	x := *e
	x.A = make([]*Expr, len(e.A))
	for i := range e.A {
		x.A[i] = cloneExpr(e.A[i])
	}
	return &x
}

// misuse changes a well typed expression so that it possibly no longer is one
func (g *Gen) misuse(e *Expr) {
	var all []*Expr
	e.walk(func(x *Expr) { all = append(all, x) })
	x := all[g.n(len(all))]
	if x.K == "op" {
		switch g.n(3) {
		case 0:
			x.N = []string{"==", "!=", "<", ">", "<=", ">=", "~=", "*=", "^=", "$=", "::"}[g.n(11)]
			x.Re = nil
		default:
			x = x.A[0]
			*x = *g.expr(allTypes[g.n(12)], g.n(2))
		}
		return
	}
	switch g.n(8) {
	case 0, 1, 2:
		*x = *g.expr(allTypes[g.n(12)], g.n(2))
	case 3, 4:
		if x.K == "fn" {
			x.N = allFns[g.n(len(allFns))]
			x.Re = nil
		} else if x.K == "list" {
			x.T = allTypes[6+g.n(6)]
		} else {
			*x = *g.expr(allTypes[g.n(12)], 1)
		}
	case 5:
		if x.K == "fn" && len(x.A) > 0 {
			if g.p(1, 2) {
				x.A = x.A[:len(x.A)-1]
			} else {
				x.A = append(x.A, g.expr(allTypes[g.n(12)], 0))
			}
		}
	case 6:
		if len(x.A) > 1 {
			x.A[0], x.A[1] = x.A[1], x.A[0]
			x.Re = nil
		}
	case 7:
		if x.K == "const" {
			*x = *EVar(x.T)
		} else if x.K == "list" && elemOf(x.T) != "" {
			x.A = append(x.A, EVar(elemOf(x.T)))
		}
	}
}

func init() {
	// F03: which expressions compose
	makers["F03"] = func(r *rand.Rand, idx int, tier string) M {
		g := NewGen(r, GenOpt{Typed: true, Funcs: true})
		var e *Expr
		for {
			e = cloneExpr(g.boolExpr(1 + r.Intn(3)))
			if r.Intn(4) > 0 {
				for i := 1 + r.Intn(2); i > 0; i-- {
					g.misuse(e)
				}
			}
			if r.Intn(15) == 0 {
				c := EConst(VStr([]string{"(", "[", "*", "a)"}[r.Intn(4)]))
				x := EFn("regex", "bool", c, g.expr("string", 1))
				if r.Intn(2) == 0 {
					e = x
				} else {
					e = EFn("not", "bool", x)
				}
			}
			// the first parameter of regex: literals are structured ones or known to be bad
			ok := true
			e.walk(func(x *Expr) {
				x.Re = nil
				if (x.N == "regex" || x.N == "~=") && len(x.A) > 0 && x.A[0].K == "const" && x.A[0].T == "string" {
					s := string(x.A[0].V.S)
					if reTab[s] == nil && s != "(" && s != "[" && s != "*" && s != "a)" && s != "a" && s != "" {
						ok = false
					}
				}
			})
			if ok {
				break
			}
		}
		text := ExprText(e, r)
		res := []M{}
		for _, v := range boolVias(e, text) {
			var err error
			which := ""
			p := try(func() {
				_, err = v.f()
				if err == nil && v.name == "ast" {
					x := toLeafExpr(e)
					if x.BuiltIn == nil {
						t, werr := compose.Which(x)
						which = "error"
						if werr == nil {
							which = typeName(t)
						}
					}
				}
			})
			m := M{"via": v.name, "made": "ok", "which": which}
			if p != "" {
				m["made"], m["detail"] = "panic", p
			} else if err != nil {
				m["made"], m["detail"] = "error", err.Error()
			}
			res = append(res, m)
		}
		// the engines refuse what does not compose
		gr := "a:" + sep(text) + text
		for _, eng := range []string{"mem"} {
			m := M{"via": eng, "made": "ok", "which": ""}
			var err error
			p := try(func() {
				var ag *ast.Grammar
				ag, err = relapse.Parse(gr)
				if err == nil {
					_, err = relapse.Prepare(ag)
				}
			})
			if p != "" {
				m["made"], m["detail"] = "panic", p
			} else if err != nil {
				m["made"], m["detail"] = "error", err.Error()
			}
			res = append(res, m)
		}
		return M{"e": e.JSON(), "text": text, "made": res}
	}
}
