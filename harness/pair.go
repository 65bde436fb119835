package main

// PairGrammar is an operator on two or three patterns of the same shape and
// mostly of the same name, which is what the rewrite rules look for: names that
// one and names that many labels have, contents that exclude and do not
// exclude each other.
func (g *Gen) PairGrammar() *Gram {
	g.nInter = 0
	gr := &Gram{}
	g.g = gr
	nm := func(d int) *NameE { return &NameE{K: "name", V: VStr(g.pick(g.o.Names))} }
	common := nm(0)
	switch g.n(6) {
	case 0:
		common = &NameE{K: "any"}
	case 1:
		common = &NameE{K: "not", A: common}
	case 2:
		common = &NameE{K: "or", A: common, B: nm(0)}
	case 3:
		common = g.name(2)
	}
	leaf := func() *Pat {
		v := EConst(VStr(g.pick([]string{"a", "b", "ab"})))
		f := []string{"eq", "eq", "eq", "ne", "contains", "hasPrefix"}[g.n(6)]
		return &Pat{K: "leaf", E: EFn(f, "bool", EVar("string"), v)}
	}
	var content func(d int) *Pat
	content = func(d int) *Pat {
		switch k := g.n(10); {
		case k < 5 || d <= 0:
			return leaf()
		case k == 5:
			return &Pat{K: "zany"}
		case k == 6:
			return &Pat{K: "empty"}
		case k == 7:
			return &Pat{K: "tree", N: nm(0), A: content(d - 1)}
		case k == 8:
			return &Pat{K: []string{"or", "and", "concat"}[g.n(3)], A: content(d - 1), B: content(d - 1)}
		}
		return &Pat{K: []string{"star", "not", "opt", "contains"}[g.n(4)], A: content(d - 1)}
	}
	shape := g.n(7)
	term := func() *Pat {
		n := common
		if g.p(1, 6) {
			n = nm(0)
		}
		p := &Pat{K: "tree", N: n, A: content(1 + g.n(2))}
		s := shape
		if g.p(1, 6) {
			s = g.n(7)
		}
		switch s {
		case 0, 1:
			return &Pat{K: "contains", A: p}
		case 2:
			return &Pat{K: "star", A: p}
		case 3:
			return &Pat{K: "opt", A: p}
		case 4:
			return &Pat{K: "not", A: p}
		case 5:
			return &Pat{K: "concat", A: p, B: &Pat{K: "zany"}}
		}
		return p
	}
	op := []string{"and", "and", "or", "or", "concat", "inter"}[g.n(6)]
	p := &Pat{K: op, A: term(), B: term()}
	if g.p(1, 2) {
		q := op
		if g.p(1, 4) {
			q = []string{"and", "or", "concat"}[g.n(3)]
		}
		if g.p(1, 2) {
			p = &Pat{K: q, A: p, B: term()}
		} else {
			p = &Pat{K: q, A: term(), B: p}
		}
	}
	switch g.n(8) {
	case 0:
		p = &Pat{K: "tree", N: nm(0), A: p}
	case 1:
		p = &Pat{K: []string{"not", "opt", "contains", "star"}[g.n(4)], A: p}
	case 2:
		p = &Pat{K: []string{"or", "and", "concat"}[g.n(3)], A: p, B: content(1)}
	case 3:
		gr.Refs = []Decl{{Name: "r", P: p}}
		p = &Pat{K: "ref", Ref: "r"}
		if g.p(1, 2) {
			p = &Pat{K: "or", A: p, B: &Pat{K: "tree", N: nm(0), A: &Pat{K: "ref", Ref: "r"}}}
		}
	}
	gr.Main = p
	return gr
}
