package main

import (
	"math/rand"

	"github.com/katydid/katydid/relapse/ast"
	"github.com/katydid/katydid/relapse/combinator"
	"github.com/katydid/katydid/relapse/parser"
)

// Comb is a call of a combinator.
type Comb struct {
	F     string
	Names []*NameE
	Ref   string
	E     *Expr
	C     []*Comb
	built *ast.Pattern // shared calls are made once
}

func (x *Comb) JSON() M {
	cs := make([]M, len(x.C))
	for i := range x.C {
		cs[i] = x.C[i].JSON()
	}
	m := M{"f": x.F, "c": cs}
	if x.Names != nil {
		ns := []interface{}{}
		for _, n := range x.Names {
			ns = append(ns, n.JSON())
		}
		m["n"] = ns
	}
	if x.E != nil {
		m["e"] = x.E.JSON()
	}
	if x.F == "Eval" {
		m["r"] = x.Ref
	}
	return m
}

// Pat is only used to make trees that have a chance to be valid
func (x *Comb) Pat() *Pat {
	fold := func(k string) *Pat {
		p := x.C[len(x.C)-1].Pat()
		for i := len(x.C) - 2; i >= 0; i-- {
			p = &Pat{K: k, A: x.C[i].Pat(), B: p}
		}
		return p
	}
	switch x.F {
	case "Any":
		return &Pat{K: "zany"}
	case "None":
		return &Pat{K: "not", A: &Pat{K: "zany"}}
	case "Eval":
		return &Pat{K: "ref", Ref: x.Ref}
	case "Value":
		return &Pat{K: "leaf", E: x.E}
	case "AllOf":
		return fold("and")
	case "AnyOf":
		return fold("or")
	case "InAnyOrder":
		return fold("inter")
	case "OppositeOf":
		return &Pat{K: "not", A: x.C[0].Pat()}
	case "Many":
		return &Pat{K: "star", A: x.C[0].Pat()}
	case "Maybe":
		return &Pat{K: "opt", A: x.C[0].Pat()}
	case "InOrder":
		return fold("concat")
	}
	n := &NameE{K: "any"}
	if len(x.Names) > 0 {
		n = x.Names[len(x.Names)-1]
	}
	if x.F == "InAnyExcept" {
		n = &NameE{K: "not", A: n}
	}
	p := &Pat{K: "tree", N: n, A: fold("concat")}
	if x.F == "InPath" || x.F == "InAnyPath" {
		return &Pat{K: "contains", A: p}
	}
	return p
}

func combExpr(e *Expr) *ast.Expr {
	as := make([]*ast.Expr, len(e.A))
	for i := range e.A {
		as[i] = combExpr(e.A[i])
	}
	switch e.K {
	case "const":
		switch v := e.V; v.T {
		case "double":
			return combinator.DoubleConst(v.D)
		case "int":
			return combinator.IntConst(v.I)
		case "uint":
			return combinator.UintConst(v.U)
		case "bool":
			return combinator.BoolConst(v.B)
		case "string":
			return combinator.StringConst(string(v.S))
		default:
			return combinator.BytesConst(v.S)
		}
	case "var":
		return map[string]func() *ast.Expr{"double": combinator.DoubleVar, "int": combinator.IntVar, "uint": combinator.UintVar, "bool": combinator.BoolVar,
			"string": combinator.StringVar, "bytes": combinator.BytesVar}[e.T]()
	case "list":
		for _, a := range e.A {
			if a.K != "const" {
				return ast.NewList(astTypes[e.T], as...)
			}
		}
		switch e.T {
		case "doubles":
			l := []float64{}
			for _, a := range e.A {
				l = append(l, a.V.D)
			}
			return combinator.DoublesConst(l)
		case "ints":
			l := []int64{}
			for _, a := range e.A {
				l = append(l, a.V.I)
			}
			return combinator.IntsConst(l)
		case "uints":
			l := []uint64{}
			for _, a := range e.A {
				l = append(l, a.V.U)
			}
			return combinator.UintsConst(l)
		case "bools":
			l := []bool{}
			for _, a := range e.A {
				l = append(l, a.V.B)
			}
			return combinator.BoolsConst(l)
		case "strings":
			l := []string{}
			for _, a := range e.A {
				l = append(l, string(a.V.S))
			}
			return combinator.StringsConst(l)
		default:
			l := [][]byte{}
			for _, a := range e.A {
				l = append(l, a.V.S)
			}
			return combinator.ListOfBytesConst(l)
		}
	}
	two := map[string]func(a, b *ast.Expr) *ast.Expr{"eq": combinator.Eq, "lt": combinator.LT, "le": combinator.LE, "gt": combinator.GT, "ge": combinator.GE,
		"and": combinator.And, "or": combinator.Or, "contains": combinator.Contains, "regex": combinator.Regex, "eqFold": combinator.EqualFold,
		"hasPrefix": combinator.HasPrefix, "hasSuffix": combinator.HasSuffix}
	one := map[string]func(a *ast.Expr) *ast.Expr{"not": combinator.Not, "length": combinator.Length, "type": combinator.Type}
	if f := two[e.N]; f != nil {
		return f(as[0], as[1])
	}
	if f := one[e.N]; f != nil {
		return f(as[0])
	}
	return ast.NewFunction(e.N, as...)
}

func (x *Comb) build() *ast.Pattern {
	if x.built != nil {
		return x.built
	}
	var c []*ast.Pattern
	for _, y := range x.C {
		c = append(c, y.build())
	}
	name := func(i int) string { return string(x.Names[i].V.S) }
	switch x.F {
	case "Any":
		x.built = combinator.Any()
	case "None":
		x.built = combinator.None()
	case "Eval":
		x.built = combinator.Eval(x.Ref)
	case "Value":
		x.built = combinator.Value(combExpr(x.E))
	case "InOrder":
		x.built = combinator.InOrder(c[0], c[1:]...)
	case "AllOf":
		x.built = combinator.AllOf(c...)
	case "AnyOf":
		x.built = combinator.AnyOf(c...)
	case "InAnyOrder":
		x.built = combinator.InAnyOrder(c[0], c[1:]...)
	case "OppositeOf":
		x.built = combinator.OppositeOf(c[0])
	case "Many":
		x.built = combinator.Many(c[0])
	case "Maybe":
		x.built = combinator.Maybe(c[0])
	case "In":
		x.built = combinator.In(name(0), c[0], c[1:]...)
	case "Elem":
		x.built = combinator.Elem(int(x.Names[0].V.I), c[0], c[1:]...)
	case "InAny":
		x.built = combinator.InAny(c[0], c[1:]...)
	case "InAnyExcept":
		x.built = combinator.InAnyExcept(name(0), c[0], c[1:]...)
	case "InAnyOf":
		ns := []string{}
		for i := range x.Names {
			ns = append(ns, name(i))
		}
		x.built = combinator.InAnyOf(ns, c[0], c[1:]...)
	case "InPath":
		x.built = combinator.InPath(name(0), c[0], c[1:]...)
	case "InAnyPath":
		x.built = combinator.InAnyPath(c[0], c[1:]...)
	}
	return x.built
}

func (g *Gen) combName() *NameE {
	return &NameE{K: "name", V: VStr(g.pick(g.o.Names))}
}

// combLeaf makes conditions, in particular those that have a short form
func (g *Gen) combLeaf() *Expr {
	if g.n(2) == 0 {
		return g.expr("bool", 1+g.n(2))
	}
	t := g.ty()
	v, cst := EVar(t), EConst(g.val(t))
	var n string
	switch t {
	case "string":
		n = g.pick([]string{"eq", "ne", "contains", "hasPrefix", "hasSuffix", "eqFold"})
	case "bool":
		n = g.pick([]string{"eq", "ne", "and", "or"})
	default:
		n = g.pick([]string{"eq", "ne", "lt", "le", "gt", "ge"})
	}
	if g.n(2) == 0 {
		v, cst = cst, v
	}
	return EFn(n, "bool", v, cst)
}

func (g *Gen) comb(d int, guarded bool, pool *[]*Comb, refs []string) (x *Comb) {
	defer func() {
		if g.n(3) == 0 && x.F != "Eval" && guarded {
			*pool = append(*pool, x)
		}
	}()
	if len(*pool) > 0 && g.n(8) == 0 && d > 0 && guarded {
		return (*pool)[g.n(len(*pool))] // the same pattern once more
	}
	kids := func(n int, guarded bool) []*Comb {
		cs := []*Comb{}
		if n > 1 && g.n(10) == 0 { // many small ones
			n += 1 + g.n(3)
			d := d
			if d > 1 {
				d = 1
			}
			for i := 0; i < n; i++ {
				cs = append(cs, g.comb(d-1, guarded, pool, refs))
			}
			return cs
		}
		for i := 0; i < n; i++ {
			cs = append(cs, g.comb(d-1, guarded, pool, refs))
		}
		return cs
	}
	if d <= 0 {
		if g.n(6) == 0 {
			return &Comb{F: "Any"}
		}
		return &Comb{F: "Value", E: g.combLeaf()}
	}
	switch k := g.n(20); k {
	case 0:
		return &Comb{F: "Any"}
	case 1:
		return &Comb{F: "None"}
	case 2:
		if guarded && len(refs) > 0 {
			return &Comb{F: "Eval", Ref: g.pick(refs)}
		}
		return &Comb{F: "Value", E: g.combLeaf()}
	case 3:
		return &Comb{F: "Value", E: g.combLeaf()}
	case 4, 5, 6:
		return &Comb{F: "In", Names: []*NameE{g.combName()}, C: kids(1+g.n(3), true)}
	case 7:
		return &Comb{F: "Elem", Names: []*NameE{{K: "name", V: VInt(int64(g.n(3)))}}, C: kids(1+g.n(2), true)}
	case 8:
		return &Comb{F: "InAny", C: kids(1+g.n(3), true)}
	case 9:
		return &Comb{F: "InAnyExcept", Names: []*NameE{g.combName()}, C: kids(1+g.n(3), true)}
	case 10:
		ns := []*NameE{}
		for i := 2 + g.n(2); i > 0; i-- {
			ns = append(ns, g.combName())
		}
		if g.n(3) == 0 { // many different names
			all := append([]string{"d", "e", "f", "g"}, g.o.Names...)
			g.r.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
			if n := 3 + g.n(5); n < len(all) {
				all = all[:n]
			}
			ns = ns[:0]
			for _, n := range all {
				ns = append(ns, &NameE{K: "name", V: VStr(n)})
			}
		}
		return &Comb{F: "InAnyOf", Names: ns, C: kids(1+g.n(3), true)}
	case 11:
		return &Comb{F: "InPath", Names: []*NameE{g.combName()}, C: kids(1+g.n(3), true)}
	case 12:
		return &Comb{F: "InAnyPath", C: kids(1+g.n(3), true)}
	case 13:
		return &Comb{F: "AllOf", C: kids(1+g.n(3), guarded)}
	case 14:
		return &Comb{F: "AnyOf", C: kids(1+g.n(3), guarded)}
	case 15:
		g.nInter++
		if g.nInter > 1 {
			return &Comb{F: "InOrder", C: kids(1+g.n(3), guarded)}
		}
		return &Comb{F: "InAnyOrder", C: kids(1+g.n(3), guarded)}
	case 16:
		return &Comb{F: "OppositeOf", C: kids(1, guarded)}
	case 17:
		return &Comb{F: "Many", C: kids(1, guarded)}
	case 18:
		return &Comb{F: "Maybe", C: kids(1, guarded)}
	}
	return &Comb{F: "InOrder", C: kids(2+g.n(3), guarded)}
}

func init() {
	// A04: combinators
	makers["A04"] = func(r *rand.Rand, idx int, tier string) M {
		g := NewGen(r, GenOpt{Depth: 2, Inter: true, Typed: r.Intn(3) > 0, Funcs: r.Intn(2) == 0, MaxKids: 3})
		refs := []string{"r", "s"}[:r.Intn(3)]
		names := append([]string{"main"}, refs...)
		cs := map[string]*Comb{}
		gr := &Gram{}
		g.g = gr
		for {
			gr.Refs = nil
			g.nInter = 0
			pool := []*Comb{}
			for i, n := range names {
				cs[n] = g.comb(1+r.Intn(3), false, &pool, names)
				if i == 0 {
					gr.Main = cs[n].Pat()
				} else {
					gr.Refs = append(gr.Refs, Decl{n, cs[n].Pat()})
				}
			}
			if gr.size() <= 40 {
				break
			}
		}
		if g.nInter > 0 {
			g.o.MaxKids = 3
		}
		js := M{}
		G := combinator.G{}
		failed := ""
		intact := true
		for _, n := range names {
			js[n] = cs[n].JSON()
			if failed == "" {
				failed = try(func() { G[n] = cs[n].build() })
			}
		}
		res := M{"g": js}
		text := failed
		if failed == "" {
			before := ""
			for _, n := range names {
				before += G[n].String()
			}
			failed = try(func() { text = G.Grammar().String() })
			after := ""
			for _, n := range names {
				after += G[n].String()
			}
			intact = before == after
		}
		res["text"] = text
		var printed *ast.Grammar
		if failed == "" {
			failed = try(func() {
				var err error
				printed, err = parser.ParseGrammar(text)
				if err != nil {
					panic(err)
				}
			})
		}
		runs := []M{}
		for i := 0; i < 4; i++ {
			t := g.Tree(gr)
			out := M{}
			run := M{"t": nodesJSON(t), "tree": nodesString(t), "out": out}
			if failed != "" {
				out["built"] = "P"
				run["detail"] = failed
			} else {
				out["built"], run["detail"] = verdict(func() (bool, error) { return runMem(G.Grammar(), NewTreeParser(t)) })
				out["printed"], _ = verdict(func() (bool, error) { return runMem(printed, NewTreeParser(t)) })
			}
			runs = append(runs, run)
		}
		for _, n := range names {
			var walk func(x *Comb)
			walk = func(x *Comb) {
				// building it anew gives what it was
				if failed == "" {
					was := x.built.String()
					x.built = nil
					for _, y := range x.C {
						walk(y)
					}
					if x.built == nil && x.build().String() != was {
						intact = false
					}
				}
			}
			walk(cs[n])
		}
		res["intact"] = intact
		res["runs"] = runs
		return res
	}
}
