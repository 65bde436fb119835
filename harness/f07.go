package main

import (
	"errors"
	"fmt"
	"math/rand"
	"reflect"
	"strings"
	"sync"

	"github.com/katydid/katydid/relapse"
	"github.com/katydid/katydid/relapse/ast"
	"github.com/katydid/katydid/relapse/compose"
	"github.com/katydid/katydid/relapse/funcs"
)

// UserFn describes a function that this program registers
type UserFn struct {
	N      string
	Ins    []string
	Out    string
	How    string // arg const err count all same pick
	V      *Val
	I      int
	Ctor   string // plain ok fail
	Always bool   // HasVariable is always true
}

func (f *UserFn) JSON() M {
	m := M{"n": f.N, "ins": f.Ins, "out": f.Out, "how": f.How, "i": f.I + 1, "ctor": f.Ctor, "always": f.Always, "v": 0}
	if f.V != nil {
		m["v"] = f.V.Key()
	}
	if len(f.Ins) == 0 {
		m["ins"] = []string{}
	}
	return m
}

func (f *UserFn) String() string {
	return fmt.Sprintf("%s(%s) %s: %s %s", f.N, strings.Join(f.Ins, ","), f.Out, f.How, f.Ctor)
}

// ucore is what all functions that are registered here have
type ucore struct {
	fn   *UserFn
	args []funcs.Func
}

var errUser = errors.New("user error")

func (c *ucore) String() string {
	ss := make([]string, len(c.args))
	for i := range c.args {
		ss[i] = c.args[i].String()
	}
	return c.fn.N + "(" + strings.Join(ss, ",") + ")"
}

func (c *ucore) Hash() uint64 {
	hs := make([]funcs.Hashable, len(c.args))
	for i := range hs {
		hs[i] = c.args[i]
	}
	return funcs.Hash(c.fn.N, hs...)
}

func (c *ucore) HasVariable() bool {
	if c.fn.Always {
		return true
	}
	for i := range c.args {
		if c.args[i].HasVariable() {
			return true
		}
	}
	return false
}

func (c *ucore) core() *ucore { return c }

func (c *ucore) Compare(that funcs.Comparable) int {
	if h, hh := c.Hash(), that.Hash(); h != hh {
		if h < hh {
			return -1
		}
		return 1
	}
	if o, ok := that.(interface{ core() *ucore }); ok {
		oc := o.core()
		if x := strings.Compare(c.fn.String(), oc.fn.String()); x != 0 {
			return x
		}
		for i := range c.args {
			if x := c.args[i].Compare(oc.args[i]); x != 0 {
				return x
			}
		}
		return 0
	}
	return strings.Compare(c.String(), that.String())
}

func evalArg(f interface{}) (interface{}, error) {
	out := reflect.ValueOf(f).MethodByName("Eval").Call(nil)
	if !out[1].IsNil() {
		return nil, out[1].Interface().(error)
	}
	return out[0].Interface(), nil
}

func ueval[R any](c *ucore) (R, error) {
	var zero R
	give := func(v interface{}, err error) (R, error) {
		if err != nil {
			return zero, err
		}
		return v.(R), nil
	}
	switch c.fn.How {
	case "const":
		switch v := c.fn.V; v.T {
		case "double":
			return give(v.D, nil)
		case "int":
			return give(v.I, nil)
		case "uint":
			return give(v.U, nil)
		case "bool":
			return give(v.B, nil)
		case "string":
			return give(string(v.S), nil)
		default:
			return give([]byte(v.S), nil)
		}
	case "arg":
		return give(evalArg(c.args[c.fn.I]))
	case "pick":
		b, err := evalArg(c.args[0])
		if err != nil {
			return zero, err
		}
		if b.(bool) {
			return give(evalArg(c.args[1]))
		}
		return give(evalArg(c.args[2]))
	case "count", "all":
		n := 0
		for _, a := range c.args {
			if _, err := evalArg(a); err == nil {
				n++
			}
		}
		if c.fn.How == "count" {
			return give(int64(n), nil)
		}
		return give(n == len(c.args), nil)
	case "same":
		a, err := evalArg(c.args[0])
		if err != nil {
			return zero, err
		}
		b, err := evalArg(c.args[1])
		if err != nil {
			return zero, err
		}
		return give(fmt.Sprint(goKey(reflect.ValueOf(a))) == fmt.Sprint(goKey(reflect.ValueOf(b))), nil)
	}
	return zero, errUser
}

type ufn0[R any] struct{ *ucore }
type ufn1[A funcs.Func, R any] struct {
	*ucore
	A A
}
type ufn2[A, B funcs.Func, R any] struct {
	*ucore
	A A
	B B
}
type ufn3[A, B, C funcs.Func, R any] struct {
	*ucore
	A A
	B B
	C C
}

func (f *ufn0[R]) Eval() (R, error)          { return ueval[R](f.ucore) }
func (f *ufn1[A, R]) Eval() (R, error)       { return ueval[R](f.ucore) }
func (f *ufn2[A, B, R]) Eval() (R, error)    { return ueval[R](f.ucore) }
func (f *ufn3[A, B, C, R]) Eval() (R, error) { return ueval[R](f.ucore) }

type maker func(u *UserFn) interface{} // gives a constructor

var userMakers = map[string]maker{}

func sigKey(ins []string, out string) string { return strings.Join(ins, ",") + ">" + out }

func add0[R any](r string) {
	userMakers[sigKey(nil, r)] = func(u *UserFn) interface{} {
		return func() *ufn0[R] { return &ufn0[R]{&ucore{u, nil}} }
	}
}

func add1[A funcs.Func, R any](a, r string) {
	userMakers[sigKey([]string{a}, r)] = func(u *UserFn) interface{} {
		return func(x A) *ufn1[A, R] { return &ufn1[A, R]{&ucore{u, []funcs.Func{x}}, x} }
	}
}

func add2[A, B funcs.Func, R any](a, b, r string) {
	userMakers[sigKey([]string{a, b}, r)] = func(u *UserFn) interface{} {
		return func(x A, y B) *ufn2[A, B, R] { return &ufn2[A, B, R]{&ucore{u, []funcs.Func{x, y}}, x, y} }
	}
}

func add3[A funcs.Func, R any](a, r string) {
	userMakers[sigKey([]string{"bool", a, a}, r)] = func(u *UserFn) interface{} {
		return func(x funcs.Bool, y, z A) *ufn3[funcs.Bool, A, A, R] {
			return &ufn3[funcs.Bool, A, A, R]{&ucore{u, []funcs.Func{x, y, z}}, x, y, z}
		}
	}
}

// all functions with a first parameter of type A, whose values are GA
func addAll[A funcs.Func, GA any](a string) {
	add0[GA](a)
	add1[A, GA](a, a)
	add1[A, bool](a, "bool")
	add1[A, int64](a, "int")
	add1[A, string](a, "string")
	add1[A, []byte](a, "bytes")
	add1[A, uint64](a, "uint")
	add1[A, float64](a, "double")
	add2[A, A, GA](a, a, a)
	add2[A, A, bool](a, a, "bool")
	add2[A, A, int64](a, a, "int")
	add2[A, funcs.Int, GA](a, "int", a)
	add2[funcs.Int, A, GA]("int", a, a)
	add2[A, funcs.String, bool](a, "string", "bool")
	add2[A, funcs.Bools, int64](a, "bools", "int")
	add2[funcs.Strings, A, string]("strings", a, "string")
	add3[A, GA](a, a)
}

var ifaceTypes = map[string]reflect.Type{
	"double": reflect.TypeOf((*funcs.Double)(nil)).Elem(), "int": reflect.TypeOf((*funcs.Int)(nil)).Elem(), "uint": reflect.TypeOf((*funcs.Uint)(nil)).Elem(),
	"bool": reflect.TypeOf((*funcs.Bool)(nil)).Elem(), "string": reflect.TypeOf((*funcs.String)(nil)).Elem(), "bytes": reflect.TypeOf((*funcs.Bytes)(nil)).Elem(),
	"doubles": reflect.TypeOf((*funcs.Doubles)(nil)).Elem(), "ints": reflect.TypeOf((*funcs.Ints)(nil)).Elem(), "uints": reflect.TypeOf((*funcs.Uints)(nil)).Elem(),
	"bools": reflect.TypeOf((*funcs.Bools)(nil)).Elem(), "strings": reflect.TypeOf((*funcs.Strings)(nil)).Elem(), "byteses": reflect.TypeOf((*funcs.ListOfBytes)(nil)).Elem(),
}

// constructor of a function: what is registered
func (u *UserFn) constructor(iface bool) interface{} {
	f := reflect.ValueOf(userMakers[sigKey(u.Ins, u.Out)](u))
	ins := []reflect.Type{}
	for i := 0; i < f.Type().NumIn(); i++ {
		ins = append(ins, f.Type().In(i))
	}
	out := f.Type().Out(0)
	if iface {
		out = ifaceTypes[u.Out]
	}
	outs := []reflect.Type{out}
	if u.Ctor != "plain" {
		outs = append(outs, reflect.TypeOf((*error)(nil)).Elem())
	}
	return reflect.MakeFunc(reflect.FuncOf(ins, outs, false), func(as []reflect.Value) []reflect.Value {
		res := make([]reflect.Value, len(outs))
		for i := range res {
			res[i] = reflect.Zero(outs[i])
		}
		if u.Ctor == "fail" {
			res[1] = reflect.ValueOf(&errUser).Elem()
			if !u.Always { // a function and an error
				return res
			}
		}
		r := f.Call(as)[0]
		if iface {
			x := reflect.New(out).Elem()
			x.Set(r)
			r = x
		}
		res[0] = r
		return res
	}).Interface()
}

var userOnce sync.Once

// functions of names that built-in functions have
var userOverloads = []*UserFn{
	{N: "length", Ins: []string{"int"}, Out: "int", How: "arg", Ctor: "plain"},
	{N: "eq", Ins: []string{"ints", "ints"}, Out: "bool", How: "same", Ctor: "ok"},
	{N: "not", Ins: []string{"string"}, Out: "string", How: "arg", Ctor: "plain"},
	{N: "and", Ins: []string{"string", "string"}, Out: "string", How: "arg", I: 1, Ctor: "plain"},
	{N: "contains", Ins: []string{"bytes", "string"}, Out: "bool", How: "all", Ctor: "plain"},
	{N: "elem", Ins: []string{"string", "int"}, Out: "string", How: "arg", Ctor: "ok"},
}

// noFunc has an Eval method but is not a function
type noFunc struct{}

func (noFunc) Eval() (int64, error) { return 0, nil }

func (u *UserFn) register(what string) M {
	m := M{"what": what, "out": "ok", "known": false, "name": u.N}
	var x interface{}
	switch what {
	case "plain", "ok":
		x = u.constructor(false)
	case "interface":
		x = u.constructor(true)
	case "a value":
		x = u
	case "no result":
		x = func(funcs.Int) {}
	case "three results":
		x = func(funcs.Int) (funcs.Int, error, error) { return nil, nil, nil }
	case "no error":
		x = func(funcs.Int) (funcs.Int, string) { return nil, "" }
	case "no eval":
		x = func(funcs.Int) string { return "" }
	case "no func":
		x = func(funcs.Int) noFunc { return noFunc{} }
	case "parameter":
		x = func(noFunc) funcs.Int { return nil }
	}
	if p := try(func() { funcs.Register(u.N, x) }); p != "" {
		m["out"] = "panic"
	}
	ts := []string{"int"}
	if strings.Contains("plain ok interface", what) {
		ts = u.Ins
	}
	tt := make([]*ast.Expr, len(ts))
	for i := range ts {
		if elemOf(ts[i]) != "" {
			tt[i] = ast.NewList(astTypes[ts[i]])
		} else {
			tt[i] = ast.NewVar(astTypes[ts[i]])
		}
	}
	if _, err := compose.GetMaker(ast.NewNestedFunction(u.N, tt...).Function); err == nil {
		m["known"] = true
	}
	return m
}

func (g *Gen) userFn(name string) *UserFn {
	u := &UserFn{N: name, Ctor: []string{"plain", "plain", "plain", "ok", "fail"}[g.n(20)*5/20], Always: g.p(1, 4)}
	if u.Ctor == "fail" && g.p(2, 3) {
		u.Ctor = "ok"
	}
	for {
		t := allTypes[g.n(12)]
		switch g.n(8) {
		case 0:
			u.Ins, u.Out, u.How, u.V = []string{}, singles[g.n(6)], "const", nil
			u.V = g.val(u.Out)
		case 1:
			u.Ins, u.Out, u.How = []string{t}, t, "arg"
		case 2:
			u.Ins, u.Out = []string{t}, []string{"bool", "int"}[g.n(2)]
			u.How = map[string]string{"bool": "all", "int": "count"}[u.Out]
		case 3:
			u.Ins, u.Out = []string{t}, singles[g.n(6)]
			u.How, u.V = "const", g.val(u.Out)
			if g.p(1, 2) {
				u.How, u.V = "err", nil
			}
		case 4:
			u.Ins, u.Out, u.How = []string{t, t}, "bool", []string{"same", "same", "all"}[g.n(3)]
		case 5:
			u.Ins, u.Out, u.How = [][]string{{t, "int"}, {"int", t}, {t, t}}[g.n(3)], t, "arg"
			for i := range u.Ins {
				if u.Ins[i] == t && (i == 0 || u.Ins[0] != t || g.p(1, 2)) {
					u.I = i
				}
			}
		case 6:
			u.Ins, u.Out, u.How = []string{"bool", t, t}, t, "pick"
		case 7:
			u.Ins, u.Out, u.How = [][]string{{t, "string"}, {t, "bools"}, {t, t}}[g.n(3)], "int", "count"
			if u.Ins[1] == "string" {
				u.Out, u.How = "bool", "all"
			}
		}
		if userMakers[sigKey(u.Ins, u.Out)] != nil {
			return u
		}
	}
}

func init() {
	addAll[funcs.Double, float64]("double")
	addAll[funcs.Int, int64]("int")
	addAll[funcs.Uint, uint64]("uint")
	addAll[funcs.Bool, bool]("bool")
	addAll[funcs.String, string]("string")
	addAll[funcs.Bytes, []byte]("bytes")
	addAll[funcs.Doubles, []float64]("doubles")
	addAll[funcs.Ints, []int64]("ints")
	addAll[funcs.Uints, []uint64]("uints")
	addAll[funcs.Bools, []bool]("bools")
	addAll[funcs.Strings, []string]("strings")
	addAll[funcs.ListOfBytes, [][]byte]("byteses")

	// F07: functions that a program registers
	makers["F07"] = func(r *rand.Rand, idx int, tier string) M {
		userOnce.Do(func() {
			for _, u := range userOverloads {
				funcs.Register(u.N, u.constructor(false))
			}
		})
		g := NewGen(r, GenOpt{Typed: true, Funcs: true})
		us := append([]*UserFn{}, userOverloads...)
		regs := []M{}
		for i, n := 0, 1+r.Intn(4); i < n; i++ {
			u := g.userFn(fmt.Sprintf("u%d%c", idx, 'a'+byte(i)))
			if i > 0 && r.Intn(2) == 0 { // the same name again, perhaps with the same parameters
				u.N = us[len(us)-1].N
			}
			what := u.Ctor
			if what == "fail" {
				what = "ok"
			}
			if r.Intn(2) == 0 {
				what = "interface"
			}
			regs = append(regs, u.register(what))
			us = append(us, u)
		}
		if r.Intn(3) == 0 {
			u := &UserFn{N: fmt.Sprintf("u%dz", idx)}
			regs = append(regs, u.register([]string{"a value", "no result", "three results", "no error", "no eval", "no func", "parameter"}[r.Intn(7)]))
		}
		g.users = nil
		for i, u := range us { // the first one with its parameters
			first := true
			for _, v := range us[:i] {
				first = first && !(v.N == u.N && strings.Join(v.Ins, ",") == strings.Join(u.Ins, ","))
			}
			if first {
				g.users = append(g.users, u)
			}
		}
		uses := func(e *Expr) (n int) {
			e.walk(func(x *Expr) {
				if x.K == "fn" {
					for _, u := range us[len(userOverloads):] {
						n += bool2int(u.N == x.N)
					}
				}
			})
			return
		}
		var e *Expr
		bad := r.Intn(4) == 0
		for i := 0; ; i++ {
			switch {
			case bad || r.Intn(3) > 0:
				e = cloneExpr(g.boolExpr(1 + r.Intn(3)))
			default:
				e = cloneExpr(g.expr(allTypes[r.Intn(12)], 1+r.Intn(3)))
			}
			if uses(e) == 0 && i < 30 || e.K == "list" {
				continue
			}
			if bad {
				for i := 1 + r.Intn(2); i > 0; i-- {
					g.misuse(e)
				}
			}
			ok := true
			e.walk(func(x *Expr) {
				if x.N == "now" || e.K == "list" || bad && e.T != "bool" || bad && x.Re != nil || bad && (x.N == "regex" || x.N == "~=") {
					ok = false
				}
			})
			if ok {
				break
			}
		}
		ls := g.labelsFor(e, 5)
		text := ""
		var vias []viaFunc
		build := viaFunc{"funcs", func() (interface{}, error) { return buildFunc(e) }}
		if e.T == "bool" {
			text = ExprText(e, r)
			vias = boolVias(e, text)
			if e.K != "op" && !bad {
				vias = append(vias, build, viaFunc{"string", func() (interface{}, error) {
					f, err := buildFunc(e)
					if err != nil {
						return nil, err
					}
					x, err := parseExpr("->" + f.(funcs.Bool).String())
					if err != nil {
						return nil, fmt.Errorf("it does not parse: %v", err)
					}
					return compose.NewBool(x)
				}})
			}
		} else {
			bad = false
			text = ExprText(e, nil)
			vias = []viaFunc{build}
		}
		made := evalRecord(e, vias, ls)
		for _, m := range made {
			m["engine"] = false
		}
		if e.T == "bool" { // engines
			for _, name := range []string{"mem", "interp", "auto"} {
				m := M{"via": name, "made": "ok", "outs": []interface{}{}, "engine": true}
				var ag *ast.Grammar
				var err error
				p := try(func() {
					if ag, err = relapse.Parse("->type($int)"); err == nil {
						ag.TopPattern = ast.NewLeafNode(toLeafExpr(e))
						_, err = relapse.Prepare(ag)
					}
				})
				if p != "" {
					m["made"], m["detail"] = "panic", p
				} else if err != nil {
					m["made"], m["detail"] = "error", err.Error()
				} else {
					outs := []interface{}{}
					for _, l := range ls {
						out, detail := verdict(func() (bool, error) { return engines[name](ag, NewTreeParser([]*Node{{L: l, Leaf: true}})) })
						x := M{"panic": out == "P", "v": []interface{}{}, "detail": detail}
						if out == "T" || out == "F" {
							x["v"] = []interface{}{out == "T"}
						}
						outs = append(outs, x)
					}
					m["outs"] = outs
				}
				made = append(made, m)
			}
		}
		fns := []M{}
		desc := []string{}
		for i, u := range us {
			fns = append(fns, u.JSON())
			if i >= len(userOverloads) {
				desc = append(desc, u.String())
			}
		}
		return M{"e": e.JSON(), "text": text + "  where " + strings.Join(desc, "; "), "fns": fns, "regs": regs, "ls": labelsJSON(ls), "labels": labelStrings(ls), "made": made}
	}
}
