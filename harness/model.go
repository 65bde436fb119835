package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
)

// ---------------------------------------------------------------------------
// Values.  Every value is given to the specification in an order preserving
// encoding, because TLC integers have 32 bits:
//   int    -> <<hi,mid,lo>> of (v + 2^63)  with 22,21,21 bits
//   uint   -> <<hi,mid,lo>> of v
//   double -> <<hi,mid,lo>> of the order preserving bit pattern, NaN = <<-1,0,0>>
//   bool   -> TRUE/FALSE,  string/bytes -> sequence of bytes, lists -> sequence

type Val struct {
	T string // double int uint bool string bytes, doubles ints uints bools strings byteses
	D float64
	I int64
	U uint64
	B bool
	S []byte
	L []*Val
}

func limbs(u uint64) []int {
	return []int{int(u >> 42), int((u >> 21) & (1<<21 - 1)), int(u & (1<<21 - 1))}
}

func keyInt(i int64) []int   { return limbs(uint64(i) ^ (1 << 63)) }
func keyUint(u uint64) []int { return limbs(u) }
func keyDouble(d float64) []int {
	if d != d {
		return []int{-1, 0, 0}
	}
	if d == 0 {
		d = 0
		return limbs(1 << 63)
	}
	b := math.Float64bits(d)
	if b>>63 == 1 {
		b = ^b
	} else {
		b |= 1 << 63
	}
	return limbs(b)
}
func keyBytes(b []byte) []int {
	r := make([]int, len(b))
	for i := range b {
		r[i] = int(b[i])
	}
	return r
}

func (v *Val) Key() interface{} {
	switch v.T {
	case "double":
		return keyDouble(v.D)
	case "int":
		return keyInt(v.I)
	case "uint":
		return keyUint(v.U)
	case "bool":
		return v.B
	case "string", "bytes":
		return keyBytes(v.S)
	}
	r := make([]interface{}, len(v.L))
	for i := range v.L {
		r[i] = v.L[i].Key()
	}
	return r
}

var singles = []string{"double", "int", "uint", "bool", "string", "bytes"}

func listOf(t string) string { return map[string]string{"double": "doubles", "int": "ints", "uint": "uints", "bool": "bools", "string": "strings", "bytes": "byteses"}[t] }
func elemOf(t string) string {
	for _, s := range singles {
		if listOf(s) == t {
			return s
		}
	}
	return ""
}

func VInt(i int64) *Val    { return &Val{T: "int", I: i} }
func VStr(s string) *Val   { return &Val{T: "string", S: []byte(s)} }

// ---------------------------------------------------------------------------
// Labels: what a position of a parser answers to its six typed accessors.

type Label struct {
	D *float64
	I *int64
	U *uint64
	B *bool
	S *string
	Y []byte
	HasY bool
}

func LStr(s string) Label   { return Label{S: &s} }
func LInt(i int64) Label    { return Label{I: &i} }
func LUint(u uint64) Label  { return Label{U: &u} }
func LDbl(d float64) Label  { return Label{D: &d} }
func LBool(b bool) Label    { return Label{B: &b} }
func LBytes(b []byte) Label { return Label{Y: b, HasY: true} }

func (l Label) JSON() interface{} {
	m := map[string]interface{}{}
	e := []interface{}{}
	m["double"], m["int"], m["uint"], m["bool"], m["string"], m["bytes"] = e, e, e, e, e, e
	if l.D != nil {
		m["double"] = []interface{}{keyDouble(*l.D)}
	}
	if l.I != nil {
		m["int"] = []interface{}{keyInt(*l.I)}
	}
	if l.U != nil {
		m["uint"] = []interface{}{keyUint(*l.U)}
	}
	if l.B != nil {
		m["bool"] = []interface{}{*l.B}
	}
	if l.S != nil {
		m["string"] = []interface{}{keyBytes([]byte(*l.S))}
	}
	if l.HasY {
		m["bytes"] = []interface{}{keyBytes(l.Y)}
	}
	return m
}

func (l Label) String() string {
	var ss []string
	if l.D != nil {
		ss = append(ss, "d"+strconv.FormatFloat(*l.D, 'g', -1, 64))
	}
	if l.I != nil {
		ss = append(ss, fmt.Sprintf("i%d", *l.I))
	}
	if l.U != nil {
		ss = append(ss, fmt.Sprintf("u%d", *l.U))
	}
	if l.B != nil {
		ss = append(ss, fmt.Sprintf("b%v", *l.B))
	}
	if l.S != nil {
		ss = append(ss, strconv.Quote(*l.S))
	}
	if l.HasY {
		ss = append(ss, fmt.Sprintf("x%x", l.Y))
	}
	return strings.Join(ss, "/")
}

type Node struct {
	L    Label
	C    []*Node
	Leaf bool
}

func nodesJSON(ns []*Node) []interface{} {
	r := make([]interface{}, len(ns))
	for i, n := range ns {
		r[i] = map[string]interface{}{"l": n.L.JSON(), "c": nodesJSON(n.C)}
	}
	return r
}

func nodesString(ns []*Node) string {
	ss := make([]string, len(ns))
	for i, n := range ns {
		ss[i] = n.L.String()
		if !n.Leaf {
			ss[i] += ":{" + nodesString(n.C) + "}"
		}
	}
	return strings.Join(ss, ",")
}

func countNodes(ns []*Node) int {
	c := 0
	for _, n := range ns {
		c += 1 + countNodes(n.C)
	}
	return c
}

// ---------------------------------------------------------------------------
// Regular expressions

type Re struct {
	K    string // chr any cls cat alt star plus opt bol eol eps
	C    int
	Set  []int // explicit members
	Neg  bool
	A, B *Re
}

func (r *Re) JSON() interface{} {
	m := map[string]interface{}{"r": r.K}
	switch r.K {
	case "chr":
		m["c"] = r.C
	case "cls":
		m["set"] = r.Set
		m["neg"] = r.Neg
	case "cat", "alt":
		m["a"] = r.A.JSON()
		m["b"] = r.B.JSON()
	case "star", "plus", "opt":
		m["a"] = r.A.JSON()
	}
	return m
}

func reChar(c int) string {
	if strings.ContainsRune(`\.+*?()|[]{}^$-`, rune(c)) {
		return `\` + string(rune(c))
	}
	return string(rune(c))
}

func (r *Re) String() string {
	switch r.K {
	case "chr":
		return reChar(r.C)
	case "any":
		return "."
	case "cls":
		s := "["
		if r.Neg {
			s += "^"
		}
		for _, c := range r.Set {
			s += reChar(c)
		}
		return s + "]"
	case "cat":
		return r.A.String() + r.B.String()
	case "alt":
		return "(" + r.A.String() + "|" + r.B.String() + ")"
	case "star":
		return "(" + r.A.String() + ")*"
	case "plus":
		return "(" + r.A.String() + ")+"
	case "opt":
		return "(" + r.A.String() + ")?"
	case "bol":
		return "^"
	case "eol":
		return "$"
	}
	return "()"
}

// ---------------------------------------------------------------------------
// Expressions

type Expr struct {
	K  string // const var list fn op
	N  string // function name or builtin symbol
	T  string // type of the result (const, var, list) ; for fn the type of the result
	V  *Val
	A  []*Expr
	Re *Re // when N is regex / ~= : the parsed expression behind the first constant
}

func EConst(v *Val) *Expr                        { return &Expr{K: "const", T: v.T, V: v} }
func EVar(t string) *Expr                        { return &Expr{K: "var", T: t} }
func ECtx(t string) *Expr                        { return &Expr{K: "ctx", N: "ctx" + t, T: t} }
func EFn(n, t string, a ...*Expr) *Expr          { return &Expr{K: "fn", N: n, T: t, A: a} }
func EOp(n string, a *Expr) *Expr                { return &Expr{K: "op", N: n, T: "bool", A: []*Expr{a}} }
func EList(t string, a ...*Expr) *Expr           { return &Expr{K: "list", T: t, A: a} }

func (e *Expr) JSON() interface{} {
	m := map[string]interface{}{"k": e.K, "t": e.T}
	switch e.K {
	case "const":
		m["v"] = e.V.Key()
	case "ctx":
		m["n"] = e.N
		m["a"] = []interface{}{}
	case "fn", "op":
		m["n"] = e.N
		if e.N == "eqFold" || e.N == "toLower" || e.N == "toUpper" {
			// ASCII only in the specification
		}
		if e.Re != nil {
			m["re"] = e.Re.JSON()
		}
		fallthrough
	case "list":
		as := make([]interface{}, len(e.A))
		for i := range e.A {
			as[i] = e.A[i].JSON()
		}
		m["a"] = as
	}
	return m
}

// ---------------------------------------------------------------------------
// Names and patterns

type NameE struct {
	K    string // any name not or
	V    *Val
	A, B *NameE
}

func (n *NameE) JSON() interface{} {
	m := map[string]interface{}{"k": n.K}
	switch n.K {
	case "name":
		m["t"] = n.V.T
		m["v"] = n.V.Key()
	case "not":
		m["a"] = n.A.JSON()
	case "or":
		m["a"] = n.A.JSON()
		m["b"] = n.B.JSON()
	}
	return m
}

type Pat struct {
	K    string // empty zany tree leaf concat or and not star opt contains inter ref
	N    *NameE
	E    *Expr
	A, B *Pat
	Ref  string
}

func (p *Pat) JSON() interface{} {
	m := map[string]interface{}{"k": p.K}
	switch p.K {
	case "tree":
		m["n"] = p.N.JSON()
		m["a"] = p.A.JSON()
	case "leaf":
		m["e"] = p.E.JSON()
	case "concat", "or", "and", "inter":
		m["a"] = p.A.JSON()
		m["b"] = p.B.JSON()
	case "not", "star", "opt", "contains":
		m["a"] = p.A.JSON()
	case "ref":
		m["r"] = p.Ref
	}
	return m
}

func (p *Pat) size() int {
	if p == nil {
		return 0
	}
	return 1 + p.A.size() + p.B.size()
}

func (p *Pat) walk(f func(*Pat)) {
	if p == nil {
		return
	}
	f(p)
	p.A.walk(f)
	p.B.walk(f)
}

type Decl struct {
	Name string
	P    *Pat
}

type Gram struct {
	Main *Pat
	Refs []Decl
}

func (g *Gram) JSON() interface{} {
	refs := map[string]interface{}{"main": g.Main.JSON()}
	for _, d := range g.Refs {
		refs[d.Name] = d.P.JSON()
	}
	return refs
}

func (g *Gram) size() int {
	n := g.Main.size()
	for _, d := range g.Refs {
		n += d.P.size()
	}
	return n
}

func (g *Gram) walk(f func(*Pat)) {
	g.Main.walk(f)
	for _, d := range g.Refs {
		d.P.walk(f)
	}
}

func (g *Gram) get(name string) *Pat {
	if name == "main" {
		return g.Main
	}
	for _, d := range g.Refs {
		if d.Name == name {
			return d.P
		}
	}
	return nil
}

func mustJSON(v interface{}) []byte {
	var b bytes.Buffer
	enc := json.NewEncoder(&b)
	enc.SetEscapeHTML(false)
	if err := enc.Encode(v); err != nil {
		panic(err)
	}
	return b.Bytes()
}

func sortedKeys(m map[string]bool) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
