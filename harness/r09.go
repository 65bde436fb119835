package main

import (
	"fmt"
	"math/rand"
	"reflect"
	"strings"
	"unicode/utf8"

	"github.com/katydid/katydid/parser"
	"github.com/katydid/katydid/parser/json"
	protoparser "github.com/katydid/katydid/parser/proto"
	reflectparser "github.com/katydid/katydid/parser/reflect"
	"github.com/katydid/katydid/parser/xml"
	"github.com/katydid/katydid/parser/yaml"
	"github.com/katydid/katydid/relapse"
	"github.com/katydid/katydid/relapse/auto"
	"github.com/katydid/katydid/relapse/mem"
)

// collect reads a document with its parser: only to make grammars that have
// to do with it, the specification decodes the document itself
func collect(p parser.Interface, left *int) ([]*Node, error) {
	ns := []*Node{}
	for {
		if *left--; *left < 0 {
			panic("verif: there is no end to the document")
		}
		if err := p.Next(); err != nil {
			if err.Error() == "EOF" {
				return ns, nil
			}
			return ns, err
		}
		n := &Node{L: answers(p), Leaf: p.IsLeaf()}
		if !n.Leaf {
			p.Down()
			c, err := collect(p, left)
			if err != nil {
				return ns, err
			}
			n.C = c
			p.Up()
		}
		ns = append(ns, n)
	}
}

// docPat makes grammars from a document
type docPat struct {
	g     *Gen
	inter int
	gr    *Gram
	wrong int // one in so many parts is changed
}

func (x *docPat) n(n int) int { return x.g.n(n) }

func (x *docPat) off() bool { return x.wrong > 0 && x.n(x.wrong) == 0 }

// vals lists the values of a label that can be written in a grammar
func vals(l Label) []*Val {
	vs := []*Val{}
	if l.D != nil && *l.D == *l.D && *l.D-*l.D == 0 {
		vs = append(vs, &Val{T: "double", D: *l.D})
	}
	if l.I != nil {
		vs = append(vs, &Val{T: "int", I: *l.I})
	}
	if l.U != nil {
		vs = append(vs, &Val{T: "uint", U: *l.U})
	}
	if l.B != nil {
		vs = append(vs, &Val{T: "bool", B: *l.B})
	}
	if l.S != nil && utf8.ValidString(*l.S) {
		vs = append(vs, &Val{T: "string", S: []byte(*l.S)})
	}
	if l.HasY {
		vs = append(vs, &Val{T: "bytes", S: l.Y})
	}
	return vs
}

func (x *docPat) other(v *Val) *Val {
	w := *v
	switch v.T {
	case "double":
		w.D = []float64{v.D + 1, -v.D, v.D / 2}[x.n(3)]
	case "int":
		w.I = []int64{v.I + 1, v.I - 1, -v.I, v.I ^ (1 << 62)}[x.n(4)]
	case "uint":
		w.U = []uint64{v.U + 1, v.U - 1, v.U ^ (1 << 63)}[x.n(3)]
	case "bool":
		w.B = !v.B
	default:
		s := string(v.S)
		switch x.n(3) {
		case 0:
			s += "a"
		case 1:
			s = strings.ToUpper(s)
		default:
			s = "b"
		}
		w.S = []byte(s)
	}
	return &w
}

func (x *docPat) expr(l Label) *Expr {
	vs := vals(l)
	if x.n(10) == 0 || len(vs) == 0 {
		// the type only
		t := singles[x.n(6)]
		if len(vs) > 0 && !x.off() {
			t = vs[x.n(len(vs))].T
		}
		if x.n(2) == 0 {
			return EFn("type", "bool", EVar(t))
		}
		return EOp("::", EVar(t))
	}
	v := vs[x.n(len(vs))]
	c := v
	if x.off() {
		c = x.other(v)
	}
	switch k := x.n(9); {
	case k == 0:
		return EOp("!=", EConst(x.other(v)))
	case k == 1 && v.T != "string" && v.T != "bool":
		return EOp([]string{"<=", ">="}[x.n(2)], EConst(c))
	case k == 2 && v.T != "string" && v.T != "bool":
		return EFn([]string{"ge", "le", "lt", "gt"}[x.n(4)], "bool", EVar(v.T), EConst(c))
	case k == 3:
		return EFn("eq", "bool", EVar(v.T), EConst(c))
	case k == 4:
		return EFn("not", "bool", EFn("eq", "bool", EVar(v.T), EConst(x.other(v))))
	case k == 5:
		return EFn("or", "bool", EFn("eq", "bool", EVar(v.T), EConst(x.other(v))), EFn("eq", "bool", EConst(c), EVar(v.T)))
	}
	return EOp("==", EConst(c))
}

func (x *docPat) name(l Label) *NameE {
	vs := vals(l)
	if len(vs) == 0 || x.n(7) == 0 {
		return &NameE{K: "any"}
	}
	v := vs[x.n(len(vs))]
	c := v
	if x.off() {
		c = x.other(v)
	}
	switch x.n(9) {
	case 0:
		return &NameE{K: "not", A: &NameE{K: "name", V: x.other(v)}}
	case 1:
		return &NameE{K: "or", A: &NameE{K: "name", V: c}, B: &NameE{K: "name", V: x.other(v)}}
	case 2:
		return &NameE{K: "or", A: &NameE{K: "name", V: x.other(v)}, B: &NameE{K: "name", V: c}}
	}
	return &NameE{K: "name", V: c}
}

func (x *docPat) one(n *Node, d int) *Pat {
	if n.Leaf && (len(n.C) == 0 || x.n(2) == 0) && x.n(12) > 0 {
		return &Pat{K: "leaf", E: x.expr(n.L)}
	}
	if len(n.C) == 0 && x.n(4) == 0 {
		return &Pat{K: "leaf", E: x.expr(n.L)}
	}
	return &Pat{K: "tree", N: x.name(n.L), A: x.seq(n.C, d-1)}
}

var zAny = func() *Pat { return &Pat{K: "zany"} }

// seq makes a pattern that matches ns, if nothing is changed on the way
func (x *docPat) seq(ns []*Node, d int) *Pat {
	if d <= 0 && len(ns) > 0 || x.n(14) == 0 {
		return zAny()
	}
	var p *Pat
	switch k := x.n(16); {
	case k == 0 && len(ns) > 1: // some of them, anywhere
		p = &Pat{K: "contains", A: x.one(ns[x.n(len(ns))], d)}
		if x.n(2) == 0 {
			p = &Pat{K: "and", A: p, B: &Pat{K: "contains", A: x.one(ns[x.n(len(ns))], d)}}
		}
	case k == 1 && len(ns) > 1 && len(ns) <= 5 && x.inter < 2: // in another order
		x.inter++
		a, b := []*Node{}, []*Node{}
		for _, n := range ns {
			if x.n(2) == 0 {
				a = append(a, n)
			} else {
				b = append(b, n)
			}
		}
		p = &Pat{K: "inter", A: x.plain(b, d), B: x.plain(a, d)}
	case k == 2 && len(ns) > 0: // every one of them
		q := x.one(ns[0], d)
		for _, n := range ns[1:] {
			if x.n(2) == 0 {
				q = &Pat{K: "or", A: q, B: x.one(n, d)}
			}
		}
		p = &Pat{K: "star", A: q}
	case k == 3 && len(ns) > 0: // the first or last ones
		i := x.n(len(ns))
		if x.n(2) == 0 {
			p = &Pat{K: "concat", A: x.plain(ns[:i+1], d), B: zAny()}
		} else {
			p = &Pat{K: "concat", A: zAny(), B: x.plain(ns[i:], d)}
		}
	case k == 4 && len(ns) < 5:
		p = &Pat{K: "or", A: x.plain(ns, d), B: x.plain(ns, d-1)}
	case k == 5 && len(ns) < 5:
		p = &Pat{K: "not", A: &Pat{K: "not", A: x.plain(ns, d)}}
	case k == 6 && len(ns) > 0:
		p = &Pat{K: "not", A: &Pat{K: "concat", A: x.plain(ns, d), B: x.one(ns[0], d)}}
	case k == 7 && len(ns) > 0 && len(x.gr.Refs) < 2: // by name
		name := []string{"r", "s"}[len(x.gr.Refs)]
		x.gr.Refs = append(x.gr.Refs, Decl{Name: name})
		i := len(x.gr.Refs) - 1
		q := x.one(ns[0], d)
		x.gr.Refs[i].P = q
		p = &Pat{K: "ref", Ref: name}
		if len(ns) > 1 {
			p = &Pat{K: "concat", A: p, B: x.plain(ns[1:], d)}
		}
	case k == 8 && len(ns) < 4:
		p = &Pat{K: "and", A: x.plain(ns, d), B: x.seq(ns, d)}
	default:
		p = x.plain(ns, d)
	}
	return p
}

// plain makes a sequence of the nodes, with some that may be left out
func (x *docPat) plain(ns []*Node, d int) *Pat {
	if len(ns) == 0 {
		switch x.n(6) {
		case 0:
			return zAny()
		case 1:
			return &Pat{K: "opt", A: &Pat{K: "tree", N: &NameE{K: "any"}, A: zAny()}}
		}
		return &Pat{K: "empty"}
	}
	var p *Pat
	for i := len(ns) - 1; i >= 0; i-- {
		q := x.one(ns[i], d)
		switch x.n(12) {
		case 0:
			q = &Pat{K: "opt", A: q}
		case 1:
			q = &Pat{K: "star", A: q}
		case 2:
			q = &Pat{K: "concat", A: q, B: &Pat{K: "opt", A: x.one(ns[x.n(len(ns))], d-1)}}
		}
		if x.off() {
			q = &Pat{K: "concat", A: q, B: x.one(ns[x.n(len(ns))], d)}
		}
		if p == nil {
			p = q
		} else {
			p = &Pat{K: "concat", A: q, B: p}
		}
	}
	return p
}

func (x *docPat) grammar(ns []*Node) *Gram {
	for {
		x.inter = 0
		x.gr = &Gram{}
		x.gr.Main = x.seq(ns, 1+x.n(6))
		if x.gr.size() <= 45 {
			return x.gr
		}
	}
}

// endDoc is one document: how the specification gets it, as text, and how the parser starts with it
type endDoc struct {
	m    M
	text string
	init func() error
}

func endDocs(r *rand.Rand, nd int) (M, parser.Interface, []endDoc) {
	rec := M{"f": []string{"json", "json", "xml", "yaml", "reflect", "proto"}[r.Intn(6)]}
	ds := []endDoc{}
	switch rec["f"] {
	case "json":
		p := json.NewJsonParser()
		for i := 0; i < nd; i++ {
			s := jsonDoc(r, 1+r.Intn(3), 80)
			if r.Intn(8) == 0 {
				s = spoilText(r, s, jsonNoise)
			}
			ds = append(ds, endDoc{jsonRec(s), s, func() error { return p.Init([]byte(s)) }})
		}
		return rec, p, ds
	case "xml":
		pre := M{"elem": []int{}, "attr": []int{}, "text": []int{}}
		opts := []xml.Option{}
		if r.Intn(2) == 0 {
			for _, k := range []string{"elem", "attr", "text"} {
				s := []string{"", "e_", "@"}[r.Intn(3)]
				pre[k] = keyBytes([]byte(s))
				switch k {
				case "elem":
					opts = append(opts, xml.WithElemPrefix(s))
				case "attr":
					opts = append(opts, xml.WithAttrPrefix(s))
				default:
					opts = append(opts, xml.WithTextPrefix(s))
				}
			}
		}
		rec["pre"] = pre
		p := xml.NewXMLParser(opts...)
		for i := 0; i < nd; i++ {
			s, ts := xmlDoc(r, 1+r.Intn(3), 90)
			if r.Intn(8) == 0 {
				s = spoilText(r, s, xmlNoise)
			}
			ds = append(ds, endDoc{M{"b": keyBytes([]byte(s)), "nums": textNums(ts)}, s, func() error { return p.Init([]byte(s)) }})
		}
		return rec, p, ds
	case "yaml":
		p := yaml.NewYamlParser()
		for i := 0; i < nd; i++ {
			s, ts := yamlDoc(r, 1+r.Intn(3), 100)
			ds = append(ds, endDoc{M{"b": keyBytes([]byte(s)), "nums": textNums(ts)}, s, func() error { return p.Init([]byte(s)) }})
		}
		return rec, p, ds
	case "reflect":
		p := reflectparser.NewReflectParser()
		for i := 0; i < nd; i++ {
			g := &goGen{r: r, left: 20}
			t := g.typ(1 + r.Intn(3))
			v := reflect.New(t.t)
			m := g.val(t, v.Elem())
			if t.kind == "slice" && m["g"] == "nil" {
				m["slice"] = true
			}
			markSlices(t, m)
			unNil(m, false)
			x := v.Elem()
			if r.Intn(2) == 0 && t.kind != "ptr" {
				x = v
			}
			s := fmt.Sprintf("%#v", v.Elem())
			if len(s) > 300 {
				s = s[:300]
			}
			ds = append(ds, endDoc{m, s, func() error { p.Init(x); return nil }})
		}
		return rec, p, ds
	}
	s := newSchema(r)
	rec["msgs"] = s.JSON()
	p, err := protoparser.NewProtoParser("p", "M0", s.desc())
	if err != nil {
		panic(err)
	}
	for i := 0; i < nd; i++ {
		b := s.message(0, 1+r.Intn(3))
		for try := 0; len(b) > 80 && try < 10; try++ {
			b = s.message(0, 1+r.Intn(2))
		}
		if len(b) > 110 {
			b = b[:0]
		}
		if r.Intn(8) == 0 {
			b = spoilBytes(r, b)
		}
		b = append(make([]byte, 0, len(b)), b...)
		ds = append(ds, endDoc{M{"b": keyBytes(b)}, fmt.Sprintf("%s %x", s, b), func() error { return p.Init(b) }})
	}
	return rec, p, ds
}

func textNums(ts []string) []M {
	nums := []M{}
	seen := map[string]bool{}
	for _, t := range ts {
		if !seen[t] && !oddNum.MatchString(t) {
			seen[t] = true
			nums = append(nums, M{"x": keyBytes([]byte(t)), "d": xmlDouble(t)})
		}
	}
	return nums
}

// R09: bytes in, verdict out
func init() {
	makers["R09"] = func(r *rand.Rand, idx int, tier string) M {
		nd := 1 + r.Intn(3)
		rec, p, ds := endDocs(r, nd)
		docs := []M{}
		for _, d := range ds {
			docs = append(docs, d.m)
		}
		rec["docs"] = docs
		// a grammar that has to do with one of them
		var ns []*Node
		try(func() {
			left := 2000
			if ds[0].init() == nil {
				ns, _ = collect(p, &left)
			}
		})
		o := GenOpt{Depth: 2, Refs: r.Intn(3), Inter: true, Typed: true, NoErr: true}
		g := NewGen(r, o)
		x := &docPat{g: g, wrong: []int{0, 0, 40, 15, 6}[r.Intn(5)]}
		gr := x.grammar(ns)
		if r.Intn(8) == 0 {
			gr = g.Grammar()
		}
		ag, text, err := parsed(gr, r)
		rec["g"] = gr.JSON()
		autoOK := autoFits(gr)
		var m *mem.Mem
		var a *auto.Auto
		var aerr error
		if err == nil {
			if s := try(func() { m, err = relapse.Prepare(ag) }); s != "" {
				err = fmt.Errorf("%s", s)
			}
		}
		if err == nil && autoOK {
			if s := try(func() { a, aerr = auto.Compile(ag) }); s != "" {
				aerr = fmt.Errorf("%s", s)
			}
		}
		runs := []M{}
		for i := 0; i < nd+1+r.Intn(3); i++ {
			d := i
			if i >= nd {
				d = r.Intn(nd)
			}
			run := M{"d": d + 1, "out": M{}, "doc": ds[d].text}
			on := func(e string, f func() (bool, error)) {
				addRun(run, e, func() (bool, error) {
					if err != nil {
						return false, err
					}
					if err := ds[d].init(); err != nil {
						return false, err
					}
					return f()
				})
			}
			on("mem", func() (bool, error) { return relapse.Validate(m, p) })
			if i < 2 {
				on("interp", func() (bool, error) { return engines["interp"](ag, p) })
				on("intern", func() (bool, error) { return engines["intern"](ag, p) })
			}
			if autoOK {
				on("auto", func() (bool, error) {
					if aerr != nil {
						return false, aerr
					}
					return a.Validate(p)
				})
			}
			runs = append(runs, run)
		}
		rec["runs"] = runs
		rec["text"] = text
		return rec
	}
}
