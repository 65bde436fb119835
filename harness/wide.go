package main

import "fmt"

// Wide grammars have many alternatives, conjuncts or parts that each look at
// another name, so that the decision trees of the engines have many branches,
// and states consist of many patterns.
type Wide struct {
	g     *Gen
	names []string
	vals  []string
	gr    *Gram
	same  *NameE // a name that many of the nodes have
}

func NewWide(g *Gen) *Wide {
	k := 4 + g.n(6)
	if g.p(1, 60) {
		k = 66 + g.n(10)
	}
	w := &Wide{g: g}
	for i := 0; i < k; i++ {
		n := string([]byte{byte('a' + i)})
		if i >= 26 {
			n = fmt.Sprintf("n%d", i)
		}
		if g.o.Coll && i < 4 {
			n = []string{"AaAa", "BBBB", "AaBB", "BBAa"}[i]
		}
		w.names = append(w.names, n)
	}
	if g.p(1, 4) {
		w.same = g.name(1)
	}
	for i := 0; i < 3+g.n(4); i++ {
		w.vals = append(w.vals, fmt.Sprint(i))
	}
	for {
		g.nInter = 0
		w.gr = &Gram{}
		g.g = w.gr
		if g.p(1, 4) {
			w.gr.Refs = []Decl{{Name: "r"}}
		}
		w.gr.Main = w.pat(k, true)
		if len(w.gr.Refs) > 0 {
			w.gr.Refs[0].P = w.pat(2+g.n(3), false)
		}
		if w.gr.size() <= 90 || k > 20 {
			return w
		}
	}
}

func (w *Wide) leaf() *Pat {
	g := w.g
	v := func() *Expr { return EConst(VStr(g.pick(w.vals))) }
	s := EVar("string")
	switch g.n(12) {
	case 0:
		return &Pat{K: "leaf", E: EFn("ne", "bool", s, v())}
	case 1:
		return &Pat{K: "zany"}
	case 2:
		return &Pat{K: "leaf", E: EFn("or", "bool", EFn("eq", "bool", s, v()), EFn("eq", "bool", s, v()))}
	case 3:
		return g.leafish()
	}
	return &Pat{K: "leaf", E: EFn("eq", "bool", s, v())}
}

func (w *Wide) name(i int) *NameE {
	g := w.g
	n := func(i int) *NameE { return &NameE{K: "name", V: VStr(w.names[i%len(w.names)])} }
	if w.same != nil && g.p(1, 2) {
		return w.same
	}
	switch g.n(14) {
	case 0:
		return &NameE{K: "or", A: n(i), B: n(i + 1 + g.n(3))}
	case 1:
		return &NameE{K: "not", A: n(i)}
	case 2:
		return &NameE{K: "any"}
	}
	return n(i)
}

func (w *Wide) node(i int, top bool) *Pat {
	g := w.g
	c := w.leaf()
	if top && g.p(1, 8) && len(w.names) < 20 {
		c = w.pat(2+g.n(2), false)
	}
	if len(w.gr.Refs) > 0 && g.p(1, 6) {
		c = &Pat{K: "ref", Ref: "r"}
		if g.p(1, 4) {
			c = &Pat{K: "ref", Ref: "main"}
		}
	}
	return &Pat{K: "tree", N: w.name(i), A: c}
}

func (w *Wide) join(op string, ps []*Pat) *Pat {
	if len(ps) == 1 {
		return ps[0]
	}
	k := len(ps) - 1
	if w.g.p(1, 3) {
		k = 1 + w.g.n(len(ps)-1)
	}
	return &Pat{K: op, A: w.join(op, ps[:k]), B: w.join(op, ps[k:])}
}

func (w *Wide) pat(k int, top bool) *Pat {
	g := w.g
	off := g.n(len(w.names))
	ps := []*Pat{}
	any := &Pat{K: "zany"}
	shape := g.n(9)
	if k > 20 {
		shape = g.n(4)
	}
	for i := 0; i < k; i++ {
		p := w.node(off+i, top)
		switch shape {
		case 0: // [a: x, *] | [b: y, *] ...
			p = &Pat{K: "concat", A: p, B: any}
			if g.p(1, 4) {
				p = &Pat{K: "concat", A: p, B: w.node(g.n(k), top)}
			}
		case 1: // .a: x & .b: y | ...
			p = &Pat{K: "contains", A: p}
			if g.p(1, 5) {
				p = &Pat{K: "not", A: p}
			}
		case 2, 3: // (a: x | b: y | ...)*
		case 4: // (a: x)?, (b: y)?, ...
			p = &Pat{K: []string{"opt", "opt", "star"}[g.n(3)], A: p}
		case 5: // (.a: x | .b: y) & (.c: z | ...)
			p = &Pat{K: "contains", A: p}
			p = &Pat{K: []string{"or", "and", "or"}[g.n(3)], A: p, B: &Pat{K: "contains", A: w.node(off+i+g.n(3), top)}}
		case 6: // interleaved
			if i > 4 {
				continue
			}
			if g.p(1, 2) {
				p = &Pat{K: "opt", A: p}
			}
		case 7: // two at a time
			p = &Pat{K: "concat", A: p, B: w.node(g.n(k), top)}
		case 8:
			switch g.n(4) {
			case 0:
				p = &Pat{K: "contains", A: p}
			case 1:
				p = &Pat{K: "concat", A: p, B: any}
			case 2:
				p = &Pat{K: "not", A: p}
			}
		}
		ps = append(ps, p)
	}
	switch shape {
	case 0, 7:
		return w.join("or", ps)
	case 1:
		op := []string{"and", "or", "concat"}[g.n(3)]
		if k > 20 {
			op = "or"
		}
		return w.join(op, ps)
	case 2, 3:
		p := w.join("or", ps)
		if g.p(3, 4) {
			p = &Pat{K: "star", A: p}
		}
		return p
	case 4:
		return w.join("concat", ps)
	case 5:
		return w.join("and", ps)
	case 6:
		if !top || g.nInter > 0 {
			return w.join("or", ps)
		}
		g.nInter++
		return w.join("inter", ps)
	}
	return w.join([]string{"or", "and"}[g.n(2)], ps)
}

func (w *Wide) Tree() []*Node {
	g := w.g
	if g.p(1, 4) {
		g.g = w.gr
		ns := g.sample(w.gr.Main, 4)
		if g.p(1, 2) {
			ns = g.mutate(cloneNodes(ns))
		}
		return trim(ns, 5)
	}
	return w.forest(2, 4)
}

func (w *Wide) forest(d, max int) []*Node {
	g := w.g
	ns := []*Node{}
	for i := g.n(max + 1); i >= 0; i-- {
		n := &Node{L: LStr(g.pick(w.names))}
		if g.p(1, 12) {
			n.L = LStr("zz")
		}
		switch {
		case d > 1 && g.p(1, 5):
			n.C = w.forest(d-1, 2)
		case g.p(1, 15):
			n.C = nil
		default:
			n.C = []*Node{{L: LStr(g.pick(w.vals)), Leaf: true}}
		}
		ns = append(ns, n)
	}
	return ns
}
