package main

import (
	"math"
	"math/rand"
	"strconv"
	"strings"
)

// GenOpt steers the random generator of grammars, expressions and trees.
type GenOpt struct {
	Depth   int  // pattern depth
	Refs    int  // maximal number of pattern declarations
	Inter   bool // interleave allowed
	Typed   bool // labels and leaves of all types, not only strings
	Funcs   bool // arbitrary function expressions in leaves
	NoErr   bool // only expressions that cannot fail
	Record  bool // names only in record positions
	Names   []string
	MaxKids int
	Simple  bool // no not/and/contains
	Coll    bool // strings with equal hashes
	Ctx     bool // functions of the context
}

type Gen struct {
	r      *rand.Rand
	o      GenOpt
	g      *Gram
	nInter int
	users  []*UserFn // functions that are registered
}

func (g *Gen) n(k int) int             { return g.r.Intn(k) }
func (g *Gen) p(a, b int) bool         { return g.r.Intn(b) < a }
func (g *Gen) pick(ss []string) string { return ss[g.r.Intn(len(ss))] }

var strPool = []string{"", "a", "b", "ab", "ba", "abc", "c", "aa", "1", "A", "Ab", "b\"\\", "x y", "true", "\u4e16", "\n"}
var intPool = []int64{0, 1, 2, 3, -1, -2, 5, 7, 10, 100, math.MaxInt64, math.MinInt64, 1 << 40, -(1 << 40)}
var uintPool = []uint64{0, 1, 2, 3, 5, 7, 10, math.MaxUint64, 1 << 63, 1 << 40}
var dblPool = []float64{0, 1, -1, 0.5, 1.5, -2.25, 3, 1e-10, 1e10, 1e300, -1e-300, 0.1, 123456.789, 2, math.MaxFloat64, math.SmallestNonzeroFloat64}

var collPool = []string{"Aa", "BB", "Aa", "BB", "AaBB", "BBAa", "a", ""}

func (g *Gen) str() string {
	if g.o.Coll {
		return collPool[g.n(len(collPool))]
	}
	if g.p(3, 4) {
		return strPool[g.n(8)]
	}
	return strPool[g.n(len(strPool))]
}
func (g *Gen) int() int64 {
	if g.p(3, 4) {
		return intPool[g.n(6)]
	}
	return intPool[g.n(len(intPool))]
}
func (g *Gen) uint() uint64 {
	if g.p(3, 4) {
		return uintPool[g.n(5)]
	}
	return uintPool[g.n(len(uintPool))]
}
func (g *Gen) dbl() float64 {
	if g.p(3, 4) {
		return dblPool[g.n(6)]
	}
	return dblPool[g.n(len(dblPool))]
}
func (g *Gen) bytes() []byte {
	n := g.n(4)
	b := make([]byte, n)
	for i := range b {
		b[i] = []byte{0, 1, 'a', 'b', 255, ','}[g.n(6)]
	}
	return b
}

func (g *Gen) val(t string) *Val {
	switch t {
	case "double":
		return &Val{T: t, D: g.dbl()}
	case "int":
		return &Val{T: t, I: g.int()}
	case "uint":
		return &Val{T: t, U: g.uint()}
	case "bool":
		return &Val{T: t, B: g.p(1, 2)}
	case "string":
		return &Val{T: t, S: []byte(g.str())}
	case "bytes":
		return &Val{T: t, S: g.bytes()}
	}
	panic(t)
}

func (v *Val) label() Label {
	switch v.T {
	case "double":
		return LDbl(v.D)
	case "int":
		return LInt(v.I)
	case "uint":
		return LUint(v.U)
	case "bool":
		return LBool(v.B)
	case "string":
		return LStr(string(v.S))
	}
	return LBytes(v.S)
}

// multi makes a label answer several types, the way the json parser does.
func (g *Gen) multi(l Label) Label {
	if l.I != nil && g.p(1, 2) {
		if f := float64(*l.I); f > -1e15 && f < 1e15 {
			l.D = &f
		}
		if *l.I >= 0 && g.p(1, 2) {
			u := uint64(*l.I)
			l.U = &u
		}
	}
	if l.S != nil && g.p(1, 8) {
		if i, err := strconv.ParseInt(*l.S, 10, 64); err == nil {
			l.I = &i
		}
	}
	return l
}

func (g *Gen) anyLabel() Label {
	if !g.o.Typed {
		return LStr(g.str())
	}
	t := singles[g.n(6)]
	if g.p(1, 3) {
		t = "string"
	}
	return g.multi(g.val(t).label())
}

func (g *Gen) nameVal() *Val {
	if g.o.Typed && g.p(1, 5) {
		t := singles[g.n(6)]
		return g.val(t)
	}
	return VStr(g.pick(g.o.Names))
}

func (g *Gen) nameLabel() Label {
	v := g.nameVal()
	return g.multi(v.label())
}

func (g *Gen) name(d int) *NameE {
	switch k := g.n(12); {
	case k < 7 || d <= 0:
		return &NameE{K: "name", V: g.nameVal()}
	case k == 7:
		return &NameE{K: "any"}
	case k < 10:
		return &NameE{K: "not", A: g.name(d - 1)}
	default:
		return &NameE{K: "or", A: g.name(d - 1), B: g.name(d - 1)}
	}
}

var cmpOps = []string{"==", "!=", "<", ">", "<=", ">="}

// leafExpr: boolean expression for a LeafNode.
func (g *Gen) leafExpr() *Expr {
	if !g.o.Funcs {
		t := "string"
		if g.o.Typed {
			t = singles[g.n(6)]
			if g.p(1, 3) {
				t = "string"
			}
		}
		switch k := g.n(10); {
		case k < 6:
			return EOp("==", EConst(g.val(t)))
		case k == 6:
			return EOp("!=", EConst(g.val(t)))
		case k == 7 && t != "string" && t != "bool":
			return EOp(cmpOps[2+g.n(4)], EConst(g.val(t)))
		case k == 8:
			return EOp("::", EVar(t))
		default:
			return EFn("eq", "bool", EVar(t), EConst(g.val(t)))
		}
	}
	return g.boolExpr(2)
}

// boolExpr: arbitrary boolean expression, top level (may be a built in operator).
func (g *Gen) boolExpr(d int) *Expr {
	if g.p(1, 3) {
		return g.opExpr()
	}
	return g.expr("bool", d)
}

func (g *Gen) opExpr() *Expr {
	switch k := g.n(10); {
	case k < 4:
		t := g.ty()
		op := cmpOps[g.n(6)]
		if (t == "bool" || t == "string") && op != "==" && op != "!=" {
			op = "=="
		}
		if g.o.Ctx && (t == "int" || t == "string" || t == "bool") && g.p(1, 2) {
			return EOp(op, ECtx(t))
		}
		return EOp(op, EConst(g.val(t)))
	case k == 4:
		return EOp("::", EVar(g.ty()))
	}
	if g.o.NoErr && g.o.Typed {
		return EOp("==", EConst(g.val(g.ty())))
	}
	switch g.n(5) {
	case 0:
		return EOp("^=", EConst(g.val("string")))
	case 1:
		return EOp("$=", EConst(g.val("string")))
	case 2:
		return EOp("*=", EConst(g.val("string")))
	case 3:
		t := []string{"string", "int", "uint"}[g.n(3)]
		if g.o.NoErr {
			t = "string"
		}
		return EOp("*=", g.constList(t))
	default:
		return g.regex(true)
	}
}

func (g *Gen) constList(t string) *Expr {
	n := g.n(4)
	l := EList(listOf(t))
	for i := 0; i < n; i++ {
		l.A = append(l.A, EConst(g.val(t)))
	}
	return l
}

func (g *Gen) re(d int) *Re {
	if d <= 0 || g.p(1, 3) {
		switch k := g.n(8); {
		case k < 5:
			return &Re{K: "chr", C: int("abA1abA\n"[g.n(8)])}
		case k == 5:
			return &Re{K: "any"}
		default:
			set := []int{int("ab1A"[g.n(4)]), int("cxa\n"[g.n(4)])}
			return &Re{K: "cls", Set: set, Neg: g.p(1, 3)}
		}
	}
	switch k := g.n(8); {
	case k < 3:
		return &Re{K: "cat", A: g.re(d - 1), B: g.re(d - 1)}
	case k == 3:
		return &Re{K: "alt", A: g.re(d - 1), B: g.re(d - 1)}
	case k == 4:
		return &Re{K: "star", A: g.re(d - 1)}
	case k == 5:
		return &Re{K: "plus", A: g.re(d - 1)}
	case k == 6:
		return &Re{K: "opt", A: g.re(d - 1)}
	}
	return &Re{K: "cat", A: g.re(d - 1), B: &Re{K: "chr", C: 'b'}}
}

// reSample is a text that matches, mostly
func (g *Gen) reSample(r *Re) string {
	switch r.K {
	case "chr":
		return string(rune(r.C))
	case "any":
		return string("ab1\n"[g.n(4)])
	case "cls":
		if r.Neg {
			return string("abcA1\n"[g.n(6)])
		}
		return string(rune(r.Set[g.n(len(r.Set))]))
	case "cat":
		return g.reSample(r.A) + g.reSample(r.B)
	case "alt":
		if g.p(1, 2) {
			return g.reSample(r.A)
		}
		return g.reSample(r.B)
	case "star", "plus", "opt":
		n := g.n(3)
		if r.K == "plus" {
			n = 1 + g.n(2)
		} else if r.K == "opt" {
			n = g.n(2)
		}
		s := ""
		for i := 0; i < n; i++ {
			s += g.reSample(r.A)
		}
		return s
	}
	return ""
}

// a text that a regular expression almost matches: another line before or
// behind it, another case, one character changed
func (g *Gen) reLabel(r *Re) Label {
	s := g.reSample(r)
	switch g.n(7) {
	case 0:
		s = g.str() + "\n" + s
	case 1:
		s = s + "\n" + g.str()
	case 2:
		s = s + g.str()
	case 3:
		s = g.str() + s
	case 4:
		s = strings.ToUpper(s)
	}
	return LStr(s)
}

func (e *Expr) regexes(rs []*Re) []*Re {
	if e.Re != nil {
		rs = append(rs, e.Re)
	}
	for _, a := range e.A {
		rs = a.regexes(rs)
	}
	return rs
}

func (g *Gen) regex(op bool) *Expr {
	re := g.re(2)
	if g.p(1, 2) {
		re = &Re{K: "cat", A: &Re{K: "bol"}, B: re}
	}
	if g.p(1, 2) {
		re = &Re{K: "cat", A: re, B: &Re{K: "eol"}}
	}
	c := EConst(VStr(re.String()))
	reTab[re.String()] = re
	if op {
		e := EOp("~=", c)
		e.Re = re
		return e
	}
	e := EFn("regex", "bool", c, g.expr("string", 1))
	e.Re = re
	return e
}

func (g *Gen) ty() string {
	if !g.o.Typed {
		return "string"
	}
	if g.p(1, 3) {
		return "string"
	}
	return singles[g.n(6)]
}

// expr: expression of type t, function syntax.
func (g *Gen) expr(t string, d int) *Expr {
	if len(g.users) > 0 && d > 0 && g.p(2, 5) {
		for i := 0; i < 6; i++ {
			u := g.users[len(g.users)-1-g.n(len(g.users)/2+1)]
			if i > 3 {
				u = g.users[g.n(len(g.users))]
			}
			if u.Out == t {
				e := EFn(u.N, t)
				for _, x := range u.Ins {
					e.A = append(e.A, g.expr(x, d-1))
				}
				return e
			}
		}
	}
	if elem := elemOf(t); elem != "" {
		if d > 0 && g.p(1, 5) {
			return EFn("range", t, g.expr(t, d-1), g.smallInt(d-1), g.smallInt(d-1))
		}
		n := g.n(4)
		l := EList(t)
		for i := 0; i < n; i++ {
			l.A = append(l.A, g.expr(elem, d-1))
		}
		return l
	}
	if g.o.Ctx && (t == "int" || t == "string" || t == "bool") && g.p(1, 4) {
		return ECtx(t)
	}
	if d <= 0 || g.p(1, 6) {
		if g.p(1, 2) {
			return EVar(t)
		}
		return EConst(g.val(t))
	}
	switch t {
	case "bool":
		switch k := g.n(20); {
		case k < 3:
			return EFn("and", t, g.expr("bool", d-1), g.expr("bool", d-1))
		case k < 6:
			return EFn("or", t, g.expr("bool", d-1), g.expr("bool", d-1))
		case k < 8:
			return EFn("not", t, g.expr("bool", d-1))
		case k < 13:
			tt := g.ty()
			f := []string{"eq", "ne", "lt", "gt", "le", "ge"}[g.n(6)]
			if (tt == "bool" || tt == "string") && f != "eq" && f != "ne" {
				f = []string{"eq", "ne"}[g.n(2)]
			}
			return EFn(f, t, g.expr(tt, d-1), g.expr(tt, d-1))
		case k == 13:
			return EFn("contains", t, g.expr("string", d-1), g.expr("string", d-1))
		case k == 14:
			tt := []string{"string", "int", "uint"}[g.n(3)]
			return EFn("contains", t, g.expr(tt, d-1), g.constList(tt))
		case k == 15:
			return EFn([]string{"hasPrefix", "hasSuffix", "eqFold"}[g.n(3)], t, g.expr("string", d-1), g.expr("string", d-1))
		case k == 16:
			return g.regex(false)
		case k == 17:
			return EFn("type", t, g.expr(singles[g.n(6)], d-1))
		case k == 18:
			return EFn("elem", t, g.expr("bools", d-1), g.smallInt(d-1))
		}
	case "string":
		if k := g.n(4); k < 2 {
			return EFn([]string{"toLower", "toUpper"}[k], t, g.expr("string", d-1))
		} else if k == 2 {
			return EFn("elem", t, g.expr("strings", d-1), g.smallInt(d-1))
		}
	case "int":
		switch g.n(5) {
		case 0:
			return EFn("length", t, g.expr(listOf(singles[g.n(6)]), d-1))
		case 1:
			return EFn("length", t, g.expr([]string{"string", "bytes"}[g.n(2)], d-1))
		case 2:
			return EFn("elem", t, g.expr("ints", d-1), g.smallInt(d-1))
		}
	default:
		if g.p(1, 3) {
			return EFn("elem", t, g.expr(listOf(t), d-1), g.smallInt(d-1))
		}
	}
	if g.p(1, 2) {
		return EVar(t)
	}
	return EConst(g.val(t))
}

func (g *Gen) smallInt(d int) *Expr {
	switch k := g.n(10); {
	case k < 7:
		return EConst(VInt(int64(g.n(6) - 2)))
	case k == 7:
		return EVar("int")
	}
	return g.expr("int", d)
}

// ---------------------------------------------------------------------------

func (g *Gen) pat(d int, guarded bool, minRef int) *Pat {
	if d <= 0 {
		switch k := g.n(10); {
		case k < 1:
			return &Pat{K: "empty"}
		case k < 3:
			return &Pat{K: "zany"}
		case k < 7:
			return &Pat{K: "leaf", E: g.leafExpr()}
		default:
			return &Pat{K: "tree", N: g.name(1), A: g.leafish()}
		}
	}
	k := g.n(100)
	b := func(k string) *Pat { return &Pat{K: k, A: g.pat(d-1, guarded, minRef), B: g.pat(d-1, guarded, minRef)} }
	u := func(k string) *Pat { return &Pat{K: k, A: g.pat(d-1, guarded, minRef)} }
	switch {
	case k < 26:
		return &Pat{K: "tree", N: g.name(2), A: g.pat(d-1, true, 0)}
	case k < 30:
		return &Pat{K: "leaf", E: g.leafExpr()}
	case k < 44:
		return b("concat")
	case k < 55:
		return b("or")
	case k < 62:
		if g.o.Simple {
			return b("or")
		}
		return b("and")
	case k < 68:
		if g.o.Simple {
			return u("opt")
		}
		return u("not")
	case k < 76:
		return u("star")
	case k < 82:
		return u("contains")
	case k < 86:
		return u("opt")
	case k < 92:
		if g.o.Inter && g.nInter < 2 {
			g.nInter++
			return b("inter")
		}
		return b("or")
	case k < 97:
		if n := len(g.g.Refs); n > 0 {
			lo := minRef
			if guarded {
				lo = -1
			}
			if lo < n {
				i := lo + g.n(n-lo)
				if i == -1 {
					return &Pat{K: "ref", Ref: "main"}
				}
				return &Pat{K: "ref", Ref: g.g.Refs[i].Name}
			}
		}
		return b("concat")
	}
	return &Pat{K: "zany"}
}

func (g *Gen) leafish() *Pat {
	switch k := g.n(6); {
	case k < 4:
		return &Pat{K: "leaf", E: g.leafExpr()}
	case k == 4:
		return &Pat{K: "zany"}
	}
	return &Pat{K: "empty"}
}

func NewGen(r *rand.Rand, o GenOpt) *Gen {
	if o.Names == nil {
		o.Names = []string{"a", "b", "c"}
		if o.Coll {
			o.Names = []string{"Aa", "BB", "a"}
		}
	}
	if o.MaxKids == 0 {
		o.MaxKids = 4
	}
	return &Gen{r: r, o: o}
}

func (g *Gen) Grammar() *Gram {
	for {
		g.nInter = 0
		gr := &Gram{}
		g.g = gr
		n := 0
		if g.o.Refs > 0 {
			n = g.n(g.o.Refs + 1)
		}
		for i := 0; i < n; i++ {
			gr.Refs = append(gr.Refs, Decl{Name: []string{"r", "s", "t_1"}[i]})
		}
		gr.Main = g.pat(g.o.Depth, false, 0)
		for i := range gr.Refs {
			gr.Refs[i].P = g.pat(g.o.Depth-1, false, i+1)
		}
		if gr.size() <= 40 {
			return gr
		}
	}
}

// mutatePat returns a small variation of a pattern, so that grammars contain
// nearly equal alternatives.
func clonePat(p *Pat) *Pat {
	if p == nil {
		return nil
	}
	q := *p
	q.A, q.B = clonePat(p.A), clonePat(p.B)
	return &q
}

// share makes sub patterns of the grammar reappear in other places.
func (g *Gen) share(gr *Gram) {
	var all []*Pat
	gr.Main.walk(func(p *Pat) { all = append(all, p) })
	if len(all) < 3 {
		return
	}
	for i := 0; i < 1+g.n(2); i++ {
		src, dst := all[g.n(len(all))], all[1+g.n(len(all)-1)]
		hasRef := false
		src.walk(func(p *Pat) {
			if p.K == "ref" {
				hasRef = true
			}
		})
		if hasRef || src.size() > 8 {
			continue
		}
		c := clonePat(src)
		*dst = *c
	}
	if gr.size() > 45 {
		return
	}
}

// ---------------------------------------------------------------------------
// Sampling trees from a grammar

func (g *Gen) forest(d, max int) []*Node {
	n := g.n(max + 1)
	r := []*Node{}
	for i := 0; i < n; i++ {
		r = append(r, g.randNode(d))
	}
	return r
}

func (g *Gen) randNode(d int) *Node {
	if d <= 0 || g.p(1, 3) {
		return &Node{L: g.anyLabel(), Leaf: true}
	}
	return &Node{L: g.nameLabel(), C: g.forest(d-1, 2), Leaf: false}
}

func (g *Gen) nameFor(n *NameE) Label {
	switch n.K {
	case "any":
		return g.nameLabel()
	case "name":
		return g.multi(n.V.label())
	case "or":
		if g.p(1, 2) {
			return g.nameFor(n.A)
		}
		return g.nameFor(n.B)
	}
	return g.nameLabel()
}

func (e *Expr) consts(out []*Val) []*Val {
	if e.K == "const" {
		return append(out, e.V)
	}
	if e.K == "var" {
		switch e.T {
		case "int":
			return append(out, &Val{T: "int", I: 1})
		case "uint":
			return append(out, &Val{T: "uint", U: 1})
		case "double":
			return append(out, &Val{T: "double", D: 1})
		case "bool":
			return append(out, &Val{T: "bool", B: true})
		case "bytes":
			return append(out, &Val{T: "bytes", S: []byte("a")})
		}
	}
	for _, a := range e.A {
		out = a.consts(out)
	}
	return out
}

func (g *Gen) leafFor(e *Expr) Label {
	cs := e.consts(nil)
	if len(cs) > 0 && g.p(5, 6) {
		v := cs[g.n(len(cs))]
		if !g.o.Typed && v.T != "string" {
			return g.anyLabel()
		}
		return g.multi(v.label())
	}
	return g.anyLabel()
}

func (g *Gen) sample(p *Pat, d int) []*Node {
	if d <= 0 {
		return nil
	}
	switch p.K {
	case "empty":
		return nil
	case "zany":
		return g.forest(1, 2)
	case "leaf":
		return []*Node{{L: g.leafFor(p.E), Leaf: true}}
	case "tree":
		c := g.sample(p.A, d-1)
		leaf := len(c) == 0 && g.p(1, 3)
		return []*Node{{L: g.nameFor(p.N), C: c, Leaf: leaf}}
	case "concat":
		return append(append([]*Node{}, g.sample(p.A, d)...), g.sample(p.B, d)...)
	case "or":
		if g.p(1, 2) {
			return g.sample(p.A, d)
		}
		return g.sample(p.B, d)
	case "and":
		if p.A.K != "tree" && p.B.K != "tree" && p.A.K != "leaf" && p.B.K != "leaf" && g.p(1, 2) {
			r := append(append([]*Node{}, g.sample(p.A, d)...), g.sample(p.B, d)...)
			if g.p(1, 2) {
				g.r.Shuffle(len(r), func(i, j int) { r[i], r[j] = r[j], r[i] })
			}
			return r
		}
		if g.p(1, 2) {
			return g.sample(p.A, d)
		}
		return g.sample(p.B, d)
	case "not":
		if g.p(1, 2) {
			return g.sample(p.A, d)
		}
		return g.forest(2, 2)
	case "star":
		r := []*Node{}
		for i := g.n(3); i > 0; i-- {
			r = append(r, g.sample(p.A, d)...)
		}
		return r
	case "opt":
		if g.p(1, 3) {
			return nil
		}
		return g.sample(p.A, d)
	case "contains":
		r := []*Node{}
		if g.p(1, 2) {
			r = g.forest(1, 1)
		}
		r = append(r, g.sample(p.A, d)...)
		if g.p(1, 2) {
			r = append(r, g.forest(1, 1)...)
		}
		return r
	case "inter":
		a, b := g.sample(p.A, d), g.sample(p.B, d)
		r := []*Node{}
		for len(a)+len(b) > 0 {
			if len(b) == 0 || len(a) > 0 && g.p(1, 2) {
				r, a = append(r, a[0]), a[1:]
			} else {
				r, b = append(r, b[0]), b[1:]
			}
		}
		return r
	case "ref":
		q := g.g.get(p.Ref)
		if q == nil {
			return nil
		}
		return g.sample(q, d-1)
	}
	panic(p.K)
}

func trim(ns []*Node, max int) []*Node {
	if len(ns) > max {
		ns = ns[:max]
	}
	for _, n := range ns {
		n.C = trim(n.C, max)
	}
	return ns
}

func cloneNodes(ns []*Node) []*Node {
	r := make([]*Node, len(ns))
	for i, n := range ns {
		m := *n
		m.C = cloneNodes(n.C)
		r[i] = &m
	}
	return r
}

func (g *Gen) mutate(ns []*Node) []*Node {
	// choose a random level
	if len(ns) > 0 && g.p(1, 2) {
		i := g.n(len(ns))
		if !ns[i].Leaf {
			ns[i].C = g.mutate(ns[i].C)
			return ns
		}
	}
	switch k := g.n(6); {
	case k == 0 && len(ns) > 0: // delete
		i := g.n(len(ns))
		return append(append([]*Node{}, ns[:i]...), ns[i+1:]...)
	case k == 1: // insert
		i := g.n(len(ns) + 1)
		return append(append(append([]*Node{}, ns[:i]...), g.randNode(1)), ns[i:]...)
	case k == 2 && len(ns) > 1: // swap
		i, j := g.n(len(ns)), g.n(len(ns))
		ns[i], ns[j] = ns[j], ns[i]
	case k == 3 && len(ns) > 0: // duplicate
		i := g.n(len(ns))
		return append(append([]*Node{}, ns...), cloneNodes(ns[i:i+1])...)
	case k >= 4 && len(ns) > 0: // relabel
		i := g.n(len(ns))
		if ns[i].Leaf {
			ns[i].L = g.anyLabel()
		} else {
			ns[i].L = g.nameLabel()
		}
	}
	return ns
}

func (g *Gen) Tree(gr *Gram) []*Node {
	g.g = gr
	var ns []*Node
	if g.p(1, 8) {
		ns = g.forest(2, 3)
	} else {
		ns = g.sample(gr.Main, 5)
		if g.p(2, 5) {
			ns = g.mutate(cloneNodes(ns))
		}
	}
	return trim(ns, g.o.MaxKids)
}

// stress makes patterns of few parts that meet the side conditions of rewrite
// rules: constants, equal operands, nested operators of one kind.
func (g *Gen) stress(d int, base []*Pat) *Pat {
	if d <= 0 || g.p(1, 7) {
		switch k := g.n(12); {
		case k < 2:
			return &Pat{K: "empty"}
		case k < 4:
			return &Pat{K: "zany"}
		case k == 4:
			return &Pat{K: "not", A: &Pat{K: "zany"}}
		}
		return clonePat(base[g.n(len(base))])
	}
	switch k := g.n(20); {
	case k < 12:
		op := []string{"or", "or", "and", "concat", "concat", "inter"}[k/2]
		if op == "inter" {
			if g.nInter >= 2 {
				op = "or"
			}
			g.nInter++
		}
		p := &Pat{K: op, A: g.stress(d-1, base), B: g.stress(d-1, base)}
		if g.p(1, 3) { // three operands
			c := g.stress(d-2, base)
			if g.p(1, 2) {
				p = &Pat{K: op, A: p, B: c}
			} else {
				p = &Pat{K: op, A: c, B: p}
			}
		}
		return p
	case k < 18:
		return &Pat{K: []string{"not", "star", "opt", "contains", "contains", "not"}[k-12], A: g.stress(d-1, base)}
	}
	return &Pat{K: "tree", N: &NameE{K: "name", V: VStr(g.pick(g.o.Names))}, A: g.stress(d-1, base)}
}

// StressGrammar is a grammar with such patterns
func (g *Gen) StressGrammar() *Gram {
	for {
		g.nInter = 0
		gr := &Gram{}
		g.g = gr
		if g.p(1, 4) {
			gr.Refs = []Decl{{Name: "r"}}
		}
		base := []*Pat{}
		common := g.name(1)
		same := g.p(1, 3)
		for i := 0; i < 3; i++ {
			n := g.name(g.n(2))
			if g.p(1, 2) {
				n = &NameE{K: "name", V: VStr(g.pick(g.o.Names))}
			}
			if same && g.p(3, 4) {
				n = common
			}
			p := &Pat{K: "tree", N: n, A: g.leafish()}
			k := g.n(6)
			if same && g.p(1, 2) {
				k = 1
			}
			switch k {
			case 0:
				p = &Pat{K: "leaf", E: g.leafExpr()}
			case 1:
				p = &Pat{K: "contains", A: p}
			case 2:
				if len(gr.Refs) > 0 {
					p = &Pat{K: "ref", Ref: "r"}
				}
			}
			base = append(base, p)
		}
		gr.Main = g.stress(2+g.n(2), base)
		if g.p(1, 3) {
			gr.Main = &Pat{K: "tree", N: &NameE{K: "name", V: VStr(g.pick(g.o.Names))}, A: gr.Main}
		}
		if len(gr.Refs) > 0 {
			b := []*Pat{}
			for _, p := range base {
				if p.K != "ref" {
					b = append(b, p)
				}
			}
			if len(b) == 0 {
				continue
			}
			gr.Refs[0].P = g.stress(2, b)
			if g.p(1, 2) { // a pattern that appears elsewhere too
				gr.Main.walk(func(p *Pat) {
					if p.size() > 1 && p.size() < 6 && gr.Refs[0].P.size() < 3 {
						ok := true
						p.walk(func(q *Pat) { ok = ok && q.K != "ref" })
						if ok {
							gr.Refs[0].P = clonePat(p)
						}
					}
				})
			}
		}
		if gr.size() <= 36 {
			return gr
		}
	}
}
