package main

import (
	"fmt"
	"math"
	"math/rand"
	"os"
	"reflect"

	"github.com/katydid/katydid/parser"
	"github.com/katydid/katydid/relapse"
	"github.com/katydid/katydid/relapse/ast"
	"github.com/katydid/katydid/relapse/compose"
	"github.com/katydid/katydid/relapse/funcs"
	relapseparser "github.com/katydid/katydid/relapse/parser"
	"github.com/katydid/katydid/relapse/types"
)

var stdout = os.Stdout

func init() {
	// the print function writes on stdout
	if f, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = f
	}
}

func labelParser(l Label) parser.Interface {
	p := NewTreeParser([]*Node{{L: l, Leaf: true}})
	p.Next()
	return p
}

var setterTyp = reflect.TypeOf((*funcs.Setter)(nil)).Elem()

// buildFunc makes the function of an expression with the constructors of funcs.
func buildFunc(e *Expr) (interface{}, error) {
	switch e.K {
	case "const":
		switch v := e.V; v.T {
		case "double":
			return funcs.DoubleConst(v.D), nil
		case "int":
			return funcs.IntConst(v.I), nil
		case "uint":
			return funcs.UintConst(v.U), nil
		case "bool":
			return funcs.BoolConst(v.B), nil
		case "string":
			return funcs.StringConst(string(v.S)), nil
		default:
			return funcs.BytesConst(v.S), nil
		}
	case "var":
		switch e.T {
		case "double":
			return funcs.DoubleVar(), nil
		case "int":
			return funcs.IntVar(), nil
		case "uint":
			return funcs.UintVar(), nil
		case "bool":
			return funcs.BoolVar(), nil
		case "string":
			return funcs.StringVar(), nil
		default:
			return funcs.BytesVar(), nil
		}
	}
	as := make([]interface{}, len(e.A))
	for i := range e.A {
		var err error
		if as[i], err = buildFunc(e.A[i]); err != nil {
			return nil, err
		}
	}
	if e.K == "list" {
		switch e.T {
		case "doubles":
			l := []funcs.Double{}
			for _, a := range as {
				l = append(l, a.(funcs.Double))
			}
			return funcs.NewListOfDouble(l), nil
		case "ints":
			l := []funcs.Int{}
			for _, a := range as {
				l = append(l, a.(funcs.Int))
			}
			return funcs.NewListOfInt(l), nil
		case "uints":
			l := []funcs.Uint{}
			for _, a := range as {
				l = append(l, a.(funcs.Uint))
			}
			return funcs.NewListOfUint(l), nil
		case "bools":
			l := []funcs.Bool{}
			for _, a := range as {
				l = append(l, a.(funcs.Bool))
			}
			return funcs.NewListOfBool(l), nil
		case "strings":
			l := []funcs.String{}
			for _, a := range as {
				l = append(l, a.(funcs.String))
			}
			return funcs.NewListOfString(l), nil
		default:
			l := []funcs.Bytes{}
			for _, a := range as {
				l = append(l, a.(funcs.Bytes))
			}
			return funcs.NewListOfBytes(l), nil
		}
	}
	ts := make([]types.Type, len(e.A))
	for i := range e.A {
		ts[i] = astTypes[e.A[i].T]
	}
	m, err := funcs.GetMaker(e.N, ts...)
	if err != nil {
		return nil, err
	}
	return m.New(as...)
}

func goKey(v reflect.Value) interface{} {
	switch v.Kind() {
	case reflect.Float64:
		return keyDouble(v.Float())
	case reflect.Int64:
		return keyInt(v.Int())
	case reflect.Uint64:
		return keyUint(v.Uint())
	case reflect.Bool:
		return v.Bool()
	case reflect.String:
		return keyBytes([]byte(v.String()))
	}
	if v.Type() == reflect.TypeOf([]byte(nil)) {
		return keyBytes(v.Bytes())
	}
	r := make([]interface{}, v.Len())
	for i := range r {
		r[i] = goKey(v.Index(i))
	}
	return r
}

// evalFunc sets the variables of a function and evaluates it: <<value>>, or
// an empty sequence for an error; panicked is not empty after a panic
func evalFunc(f interface{}, setters []interface{}, l Label) (res []interface{}, panicked string) {
	res = []interface{}{}
	panicked = try(func() {
		p := labelParser(l)
		for _, s := range setters {
			s.(funcs.Setter).SetValue(p)
		}
		out := reflect.ValueOf(f).MethodByName("Eval").Call(nil)
		if out[1].IsNil() {
			res = append(res, goKey(out[0]))
		}
	})
	return
}

func (g *Gen) evalLabel() Label {
	l := g.anyLabel()
	switch g.n(14) {
	case 0:
		l = LDbl(math.NaN())
	case 1:
		l = LDbl(math.Inf(1 - 2*g.n(2)))
	case 2:
		l = LDbl(math.Copysign(0, -1))
	case 3: // every accessor answers
		for _, t := range singles {
			m := g.val(t).label()
			if m.D != nil {
				l.D = m.D
			}
			if m.I != nil {
				l.I = m.I
			}
			if m.U != nil {
				l.U = m.U
			}
			if m.B != nil {
				l.B = m.B
			}
			if m.S != nil {
				l.S = m.S
			}
			if m.HasY {
				l.Y, l.HasY = m.Y, true
			}
		}
	}
	return l
}

// labels that make the variables and constants of an expression meet
func (g *Gen) labelsFor(e *Expr, n int) []Label {
	ls := []Label{}
	for i := 0; i < n; i++ {
		if rs := e.regexes(nil); len(rs) > 0 && g.p(1, 2) {
			ls = append(ls, g.reLabel(rs[g.n(len(rs))]))
			continue
		}
		if g.p(1, 2) {
			if cs := e.consts(nil); len(cs) > 0 {
				ls = append(ls, g.multi(cs[g.n(len(cs))].label()))
				continue
			}
		}
		ls = append(ls, g.evalLabel())
	}
	return ls
}

func labelsJSON(ls []Label) []interface{} {
	r := []interface{}{}
	for _, l := range ls {
		r = append(r, l.JSON())
	}
	return r
}

func parseExpr(text string) (*ast.Expr, error) { return relapseparser.ParseExpr(text) }

// leafText is the text of a leaf with expression e
func leafText(e *Expr, r *rand.Rand) string {
	return ExprText(e, r)
}

func hasVar(e *Expr) bool {
	if e.K == "var" {
		return true
	}
	for _, a := range e.A {
		if hasVar(a) {
			return true
		}
	}
	return e.K == "op"
}

// one way of making the function of an expression
type viaFunc struct {
	name string
	f    func() (interface{}, error)
}

func boolVias(e *Expr, text string) []viaFunc {
	return []viaFunc{
		{"text", func() (interface{}, error) {
			x, err := parseExpr(text)
			if err != nil {
				return nil, err
			}
			return compose.NewBool(x)
		}},
		{"leaf", func() (interface{}, error) {
			g, err := relapse.Parse("a:" + sep(text) + text)
			if err != nil {
				return nil, err
			}
			return compose.NewBool(g.TopPattern.TreeNode.Pattern.LeafNode.Expr)
		}},
		{"ast", func() (interface{}, error) { return compose.NewBool(toLeafExpr(e)) }},
	}
}

func sep(text string) string { return " " }

// record how the function of e evaluates on labels, made in every way
func evalRecord(e *Expr, vias []viaFunc, ls []Label) []M {
	res := []M{}
	for _, v := range vias {
		var f interface{}
		var err error
		var setters []interface{}
		p := try(func() {
			f, err = v.f()
			if err == nil {
				setters = compose.FuncImplements(f, setterTyp)
			}
		})
		m := M{"via": v.name, "made": "ok", "outs": []interface{}{}}
		if p != "" {
			m["made"], m["detail"] = "panic", p
		} else if err != nil {
			m["made"], m["detail"] = "error", err.Error()
		} else {
			outs := []interface{}{}
			for _, l := range ls {
				o, p := evalFunc(f, setters, l)
				x := M{"v": o, "panic": p != ""}
				if p != "" {
					x["detail"] = p
				}
				outs = append(outs, x)
			}
			m["outs"] = outs
		}
		res = append(res, m)
	}
	return res
}

func labelStrings(ls []Label) []string {
	ss := []string{}
	for _, l := range ls {
		ss = append(ss, l.String())
	}
	return ss
}

func init() {
	// F01: functions of every type evaluate as specified
	makers["F01"] = func(r *rand.Rand, idx int, tier string) M {
		g := NewGen(r, GenOpt{Typed: true, Funcs: true, Coll: r.Intn(8) == 0})
		d := 1 + r.Intn(3)
		var e *Expr
		var vias []viaFunc
		var text string
		build := viaFunc{"funcs", func() (interface{}, error) { return buildFunc(e) }}
		if r.Intn(2) == 0 {
			e = g.boolExpr(d)
			text = leafText(e, r)
			vias = boolVias(e, text)
			if e.K != "op" {
				vias = append(vias, build)
			}
		} else {
			t := singles[r.Intn(6)]
			if r.Intn(4) == 0 {
				t = listOf(t)
				e = EFn("range", t, g.expr(t, d-1), g.smallInt(d-1), g.smallInt(d-1))
			} else {
				e = g.expr(t, d)
			}
			if r.Intn(10) == 0 {
				e = EFn("print", t, e)
			}
			text = ExprText(e, nil)
			vias = []viaFunc{build}
		}
		ls := g.labelsFor(e, 8)
		return M{"e": e.JSON(), "text": text, "ls": labelsJSON(ls), "labels": labelStrings(ls), "made": evalRecord(e, vias, ls)}
	}

	// F02: and, or, not prune only what cannot change the truth
	makers["F02"] = func(r *rand.Rand, idx int, tier string) M {
		g := NewGen(r, GenOpt{Typed: true, Funcs: true, Coll: r.Intn(8) == 0})
		ts := []string{singles[r.Intn(6)], singles[r.Intn(6)]}
		pool := map[string][]*Val{}
		for _, t := range ts {
			pool[t] = []*Val{g.val(t), g.val(t)}
		}
		atom := func() *Expr {
			t := ts[r.Intn(2)]
			f := []string{"eq", "eq", "eq", "ne", "ne", "lt", "ge", "le", "gt"}[r.Intn(9)]
			if t == "string" || t == "bool" {
				f = []string{"eq", "ne"}[r.Intn(2)]
			}
			a, b := EVar(t), EConst(pool[t][r.Intn(2)])
			if r.Intn(3) == 0 {
				a, b = b, a
			}
			if r.Intn(12) == 0 {
				return EFn(f, "bool", EConst(pool[t][r.Intn(2)]), b)
			}
			if r.Intn(12) == 0 {
				return EConst(&Val{T: "bool", B: r.Intn(2) == 0})
			}
			return EFn(f, "bool", a, b)
		}
		var gen func(d int) *Expr
		gen = func(d int) *Expr {
			if d == 0 {
				return atom()
			}
			switch r.Intn(7) {
			case 0, 1:
				return EFn("not", "bool", gen(d-1))
			case 2, 3:
				return EFn("and", "bool", gen(d-1), gen(d-1))
			case 4, 5:
				return EFn("or", "bool", gen(d-1), gen(d-1))
			}
			return atom()
		}
		e := gen(1 + r.Intn(4))
		text := ExprText(e, nil)
		ls := []Label{}
		for _, t := range ts {
			for _, v := range pool[t] {
				ls = append(ls, v.label())
			}
			ls = append(ls, g.val(t).label())
		}
		l := pool[ts[0]][0].label()
		m := pool[ts[1]][1].label()
		for _, x := range []Label{m} {
			if x.D != nil {
				l.D = x.D
			}
			if x.I != nil {
				l.I = x.I
			}
			if x.U != nil {
				l.U = x.U
			}
			if x.B != nil {
				l.B = x.B
			}
			if x.S != nil {
				l.S = x.S
			}
			if x.HasY {
				l.Y, l.HasY = x.Y, true
			}
		}
		ls = append(ls, l, g.evalLabel())
		build := viaFunc{"funcs", func() (interface{}, error) { return buildFunc(e) }}
		return M{"e": e.JSON(), "text": text, "ls": labelsJSON(ls), "labels": labelStrings(ls), "made": evalRecord(e, append(boolVias(e, text), build), ls)}
	}
}

var _ = fmt.Sprint
