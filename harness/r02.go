package main

import (
	"fmt"
	"io"
	"math/rand"

	"github.com/katydid/katydid/parser"
	"github.com/katydid/katydid/relapse"
	"github.com/katydid/katydid/relapse/ast"
	"github.com/katydid/katydid/relapse/auto"
	"github.com/katydid/katydid/relapse/compose"
	"github.com/katydid/katydid/relapse/intern"
	"github.com/katydid/katydid/relapse/interp"
	"github.com/katydid/katydid/relapse/mem"
)

// run one engine on a tree
func addRun(run M, eng string, f func() (bool, error)) {
	out, detail := verdict(f)
	run["out"].(M)[eng] = out
	if detail != "" {
		run["detail."+eng] = detail
	}
}

func newRun(t []*Node) M {
	return M{"s": "main", "exp": "", "t": nodesJSON(t), "out": M{}, "tree": nodesString(t)}
}

func genOpt(r *rand.Rand, tier string) GenOpt {
	o := GenOpt{Depth: tierDepth(tier, r), Refs: r.Intn(3), Inter: true, Typed: r.Intn(2) == 0, Funcs: r.Intn(2) == 0, NoErr: true, Coll: r.Intn(6) == 0}
	if o.Typed && o.Funcs {
		o.Funcs = r.Intn(2) == 0
	}
	return o
}

// parse the text of a grammar; the text is part of what is recorded
func parsed(gr *Gram, r *rand.Rand) (*ast.Grammar, string, error) {
	text := GramText(gr, r)
	g, err := relapse.Parse(text)
	return g, text, err
}

// R02: every engine gives the verdict of the specification, on one shared
// *ast.Grammar.
func init() {
	makers["R02"] = func(r *rand.Rand, idx int, tier string) M {
		o := genOpt(r, tier)
		g := NewGen(r, o)
		gr := g.Grammar()
		if k := r.Intn(6); k == 0 {
			gr = g.StressGrammar()
		} else if k == 1 {
			gr = g.PairGrammar()
		} else if k < 4 {
			g.share(gr)
		}
		nr, tree := 4, func() []*Node { return g.Tree(gr) }
		if r.Intn(8) == 0 {
			w := NewWide(g)
			gr, nr, tree = w.gr, 8, w.Tree
		}
		ag, text, err := parsed(gr, r)
		runs := []M{}
		var a *auto.Auto
		var aerr error
		autoOK := autoFits(gr)
		if err == nil && autoOK {
			if s := try(func() { a, aerr = auto.Compile(ag) }); s != "" {
				aerr = fmt.Errorf("%s", s)
			}
		}
		ts := chosen(r, newGuide(gr), gr.Main, nr, 16, tree, func(t []*Node) []string {
			if err != nil || aerr != nil {
				return nil
			}
			as := []string{}
			for _, e := range []string{"interp", "intern", "mem"} {
				as = append(as, answer(func(p parser.Interface) (bool, error) { return engines[e](ag, p) }, t))
			}
			if autoOK {
				as = append(as, answer(a.Validate, t))
			}
			return as
		})
		for _, t := range ts {
			run := newRun(t)
			for _, e := range []string{"interp", "intern", "mem"} {
				addRun(run, e, func() (bool, error) {
					if err != nil {
						return false, err
					}
					return engines[e](ag, NewTreeParser(t))
				})
			}
			if autoOK {
				addRun(run, "auto", func() (bool, error) {
					if err != nil {
						return false, err
					}
					if aerr != nil {
						return false, aerr
					}
					return a.Validate(NewTreeParser(t))
				})
			}
			runs = append(runs, run)
		}
		return M{"g": gr.JSON(), "runs": runs, "text": text}
	}

	// A01-like stress of compiled automata: tiny grammars, more trees
	makers["R02auto"] = func(r *rand.Rand, idx int, tier string) M {
		o := genOpt(r, "quick")
		o.Refs = r.Intn(2)
		g := NewGen(r, o)
		gr := g.Grammar()
		for !autoFits(gr) {
			gr = g.Grammar()
		}
		ag, text, err := parsed(gr, r)
		var a *auto.Auto
		if err == nil {
			if s := try(func() { a, err = auto.Compile(ag) }); s != "" {
				err = fmt.Errorf("%s", s)
			}
		}
		runs := []M{}
		ts := chosen(r, newGuide(gr), gr.Main, 6, 120, func() []*Node { return g.Tree(gr) }, func(t []*Node) []string {
			if err != nil {
				return nil
			}
			return []string{answer(a.Validate, t)}
		})
		for _, t := range ts {
			run := newRun(t)
			addRun(run, "auto", func() (bool, error) {
				if err != nil {
					return false, err
				}
				return a.Validate(NewTreeParser(t))
			})
			runs = append(runs, run)
		}
		return M{"g": gr.JSON(), "runs": runs, "text": text}
	}

	// R03: one Mem, many validations
	makers["R03"] = func(r *rand.Rand, idx int, tier string) M {
		o := genOpt(r, tier)
		g := NewGen(r, o)
		gr := g.Grammar()
		if k := r.Intn(6); k == 0 {
			gr = g.StressGrammar()
		} else if k == 1 {
			gr = g.PairGrammar()
		} else if k < 4 {
			g.share(gr)
		}
		n := 6 + r.Intn(8)
		pool := [][]*Node{}
		tree := func() []*Node { return g.Tree(gr) }
		np := 5
		if r.Intn(4) == 0 {
			w := NewWide(g)
			gr, tree = w.gr, w.Tree
			n, np = 14+r.Intn(16), 14
		}
		pool = chosen(r, newGuide(gr), gr.Main, np, 4*np, tree, func([]*Node) []string { return nil })
		ag, text, err := parsed(gr, r)
		var ms [2]*mem.Mem
		before := ""
		if err == nil {
			before = ag.String()
			for i := range ms {
				if err == nil {
					ms[i], err = relapse.Prepare(ag)
				}
			}
		}
		runs := []M{}
		gd := newGuide(gr)
		for i := 0; i < n+50; i++ {
			t := pool[r.Intn(len(pool))]
			run := newRun(t)
			p := NewTreeParser(t)
			if r.Intn(6) == 0 {
				p.failAt = 1 + r.Intn(countNodes(t)+1)
			}
			addRun(run, "mem", func() (bool, error) {
				if err != nil {
					return false, err
				}
				return ms[r.Intn(4)/3].Validate(p)
			})
			if p.failAt > 0 && p.nexts >= p.failAt {
				run["exp"] = "E"
			}
			// all of the first validations are recorded, and of the others those that look odd
			want := gd.guess(gr.Main, t)
			if run["exp"] == "E" {
				want = "E"
			}
			if i < n || odd(want, run["out"].(M)["mem"].(string)) && len(runs) < n+10 {
				runs = append(runs, run)
			}
		}
		same := err != nil || ag.String() == before
		return M{"g": gr.JSON(), "runs": runs, "text": text, "same": same}
	}

	// R04: engines optimised for records
	makers["R04"] = func(r *rand.Rand, idx int, tier string) M {
		o := genOpt(r, tier)
		o.Names = []string{"a", "b", "c", "d"}
		if o.Coll {
			o.Names = []string{"Aa", "BB", "a", "b"}
		}
		o.Record = true
		g := NewGen(r, o)
		gr := g.Grammar()
		if k := r.Intn(6); k == 0 {
			gr = g.StressGrammar()
		} else if k < 3 {
			gr = g.PairGrammar()
		} else if k < 5 {
			g.share(gr)
		}
		nr, tree := 5, func() []*Node { return g.Tree(gr) }
		if r.Intn(8) == 0 {
			w := NewWide(g)
			gr, nr, tree = w.gr, 8, w.Tree
		}
		ag, text, err := parsed(gr, r)
		var sg *ast.Grammar
		if err == nil {
			if s := try(func() { sg = interp.NewSimplifier(ag).OptimizeForRecord().Grammar() }); s != "" {
				err = fmt.Errorf("%s", s)
			}
		}
		var a *auto.Auto
		autoOK := autoFits(gr)
		if err == nil && autoOK {
			a, err = auto.CompileRecord(ag)
		}
		runs := []M{}
		rec := func() []*Node { return recordize(cloneNodes(tree())) }
		var mr *mem.Mem
		if err == nil {
			try(func() { mr, _ = mem.NewRecord(ag) })
		}
		ts := chosen(r, newGuide(gr), gr.Main, nr, 30, rec, func(t []*Node) []string {
			if err != nil || mr == nil {
				return nil
			}
			as := []string{
				answer(mr.Validate, t),
				answer(func(p parser.Interface) (bool, error) { return engines["internrec"](ag, p) }, t),
				answer(func(p parser.Interface) (bool, error) { return interp.Interpret(sg, p) }, t),
			}
			if autoOK {
				as = append(as, answer(a.Validate, t))
			}
			return as
		})
		for _, t := range ts {
			run := newRun(t)
			e := func(name string, f func(p parser.Interface) (bool, error)) {
				addRun(run, name, func() (bool, error) {
					if err != nil {
						return false, err
					}
					return f(NewTreeParser(t))
				})
			}
			e("internrec", func(p parser.Interface) (bool, error) { return engines["internrec"](ag, p) })
			e("memrec", func(p parser.Interface) (bool, error) { return engines["memrec"](ag, p) })
			e("interprec", func(p parser.Interface) (bool, error) { return interp.Interpret(sg, p) })
			if autoOK {
				e("autorec", func(p parser.Interface) (bool, error) { return a.Validate(p) })
			}
			runs = append(runs, run)
		}
		return M{"g": gr.JSON(), "runs": runs, "text": text}
	}

	// R05: what the simplifier makes of a grammar
	makers["R05"] = func(r *rand.Rand, idx int, tier string) M {
		o := genOpt(r, tier)
		g := NewGen(r, o)
		gr := g.Grammar()
		if k := r.Intn(8); k < 3 {
			gr = g.StressGrammar()
		} else if k < 5 {
			gr = g.PairGrammar()
		} else if k < 7 {
			g.share(gr)
		}
		rec := r.Intn(2) == 0
		ag, text, err := parsed(gr, r)
		detail := ""
		h := &Gram{Main: &Pat{K: "zany"}}
		simplified := ""
		if err != nil {
			detail = err.Error()
		} else {
			detail = try(func() {
				s := interp.NewSimplifier(ag)
				if rec {
					s = s.OptimizeForRecord()
				}
				sg := s.Grammar()
				simplified = sg.String()
				h = fromGrammar(sg)
			})
		}
		ts := []interface{}{}
		strs := []string{}
		mk := func() []*Node {
			t := g.Tree(gr)
			if rec {
				t = recordize(cloneNodes(t))
			}
			return t
		}
		hd := newGuide(h)
		for _, t := range chosen(r, newGuide(gr), gr.Main, 6, 30, mk, func(t []*Node) []string {
			if a := hd.guess(h.Main, t); a != "?" {
				return []string{a}
			}
			return nil
		}) {
			ts = append(ts, nodesJSON(t))
			strs = append(strs, nodesString(t))
		}
		// leaves of which the specification builds every small forest
		ls := []interface{}{}
		for i := 0; i < 3; i++ {
			l := g.nameLabel()
			if i == 2 {
				l = g.anyLabel()
			}
			ls = append(ls, l.JSON())
		}
		return M{"g": gr.JSON(), "h": h.JSON(), "ts": ts, "trees": strs, "ls": ls, "record": rec, "ok": detail == "", "detail": detail, "text": text, "simplified": simplified}
	}

	makers["R06"] = makeR06
}

// siblings of a record have different labels
func recordize(ns []*Node) []*Node {
	res := []*Node{}
	for _, n := range ns {
		dup := false
		for _, m := range res {
			if overlap(n.L, m.L) {
				dup = true
			}
		}
		if dup {
			continue
		}
		n.C = recordize(n.C)
		res = append(res, n)
	}
	return res
}

func overlap(a, b Label) bool {
	return a.D != nil && b.D != nil && *a.D == *b.D || a.I != nil && b.I != nil && *a.I == *b.I ||
		a.U != nil && b.U != nil && *a.U == *b.U || a.B != nil && b.B != nil && *a.B == *b.B ||
		a.S != nil && b.S != nil && *a.S == *b.S || a.HasY && b.HasY && string(a.Y) == string(b.Y)
}

// ---------------------------------------------------------------------------
// R06: the constructors of interned patterns, on patterns that are shared.

func internDeriv(c intern.Construct, ps []*intern.Pattern, tree parser.Interface) ([]*intern.Pattern, error) {
	for {
		if err := tree.Next(); err != nil {
			if err == io.EOF {
				return ps, nil
			}
			return nil, err
		}
		ifs := intern.DeriveCalls(c, ps)
		ch := make([]*intern.Pattern, len(ifs))
		for i, x := range ifs {
			f, err := compose.NewBoolFunc(x.Cond)
			if err != nil {
				return nil, err
			}
			b, err := f.Eval(tree)
			if err != nil {
				return nil, err
			}
			ch[i] = x.Els
			if b {
				ch[i] = x.Thn
			}
		}
		if !tree.IsLeaf() {
			tree.Down()
			z := intern.Zip(ch)
			var err error
			z.Patterns, err = internDeriv(c, z.Patterns, tree)
			if err != nil {
				return nil, err
			}
			ch = z.Unzip()
			tree.Up()
		}
		nulls := make([]bool, len(ch))
		for i := range ch {
			nulls[i] = ch[i].Nullable()
		}
		var err error
		ps, err = intern.DeriveReturns(c, ps, nulls)
		if err != nil {
			return nil, err
		}
	}
}

func makeR06(r *rand.Rand, idx int, tier string) M {
	o := genOpt(r, "quick")
	o.Depth = 1 + r.Intn(2)
	o.Refs = 0
	g := NewGen(r, o)
	g.g = &Gram{}
	rec := r.Intn(4) == 0
	c := intern.NewConstructor()
	if rec {
		c = intern.NewConstructorOptimizedForRecords()
	}
	gr := &Gram{Main: &Pat{K: "empty"}}
	slots := []*intern.Pattern{}
	ops := []string{}
	failed := ""
	add := func(p *Pat, op string, f func() (*intern.Pattern, error)) {
		if failed != "" {
			return
		}
		var ip *intern.Pattern
		var err error
		if s := try(func() { ip, err = f() }); s != "" {
			failed = op + ": " + s
			return
		}
		if err != nil {
			failed = op + ": " + err.Error()
			return
		}
		ops = append(ops, op)
		slots = append(slots, ip)
		gr.Refs = append(gr.Refs, Decl{fmt.Sprintf("s%d", len(slots)-1), p})
	}
	c2 := func(i int) *Pat { return clonePat(gr.Refs[i].P) }
	nb := 3 + r.Intn(2)
	base := []*Pat{}
	common, same := g.name(1), r.Intn(4) == 0
	if r.Intn(2) == 0 {
		for i := 0; i < 3; i++ {
			base = append(base, &Pat{K: "tree", N: g.name(g.n(2)), A: g.leafish()})
		}
		base[2] = &Pat{K: "leaf", E: g.leafExpr()}
	}
	for i := 0; i < nb; i++ {
		p := g.pat(o.Depth, false, 0)
		if len(base) > 0 {
			p = g.stress(o.Depth, base)
		}
		if i > 0 && r.Intn(2) == 0 { // a shared label, so that nodes are merged
			n := &NameE{K: "name", V: VStr(g.pick(g.o.Names))}
			if same {
				n = common
			}
			p = &Pat{K: "tree", N: n, A: p}
			if r.Intn(3) == 0 || same {
				p = &Pat{K: "contains", A: p}
			}
		}
		text := PatText(p)
		add(p, "pattern "+text, func() (*intern.Pattern, error) {
			ag, err := relapse.Parse(text)
			if err != nil {
				return nil, err
			}
			return c.NewPattern(ag.GetTopPattern())
		})
	}
	no := 4 + r.Intn(6)
	for i := 0; i < no && failed == ""; i++ {
		n := 2 + r.Intn(2)
		idx := make([]int, n)
		args := make([]*intern.Pattern, n, n+2)
		size := 0
		for j := range idx {
			idx[j] = r.Intn(len(slots))
			args[j] = slots[idx[j]]
			size += gr.Refs[idx[j]].P.size()
		}
		if size > 30 {
			continue
		}
		fold := func(k string) *Pat {
			p := c2(idx[n-1])
			for j := n - 2; j >= 0; j-- {
				p = &Pat{K: k, A: c2(idx[j]), B: p}
			}
			return p
		}
		k := r.Intn(8)
		name := []string{"or", "or", "and", "and", "concat", "inter", "not", "star"}[k]
		if name == "inter" && (n > 2 || size > 14) {
			name = "concat"
		}
		op := fmt.Sprint(name, idx)
		switch name {
		case "or":
			add(fold("or"), op, func() (*intern.Pattern, error) { return c.NewOr(args) })
		case "and":
			add(fold("and"), op, func() (*intern.Pattern, error) { return c.NewAnd(args) })
		case "concat":
			add(fold("concat"), op, func() (*intern.Pattern, error) { return c.NewConcat(args) })
		case "inter":
			add(fold("inter"), op, func() (*intern.Pattern, error) { return c.NewInterleave(args) })
		case "not":
			add(&Pat{K: "not", A: c2(idx[0])}, op, func() (*intern.Pattern, error) { return c.NewNot(args[0]) })
		case "star":
			add(&Pat{K: "star", A: c2(idx[0])}, op, func() (*intern.Pattern, error) { return c.NewZeroOrMore(args[0]) })
		}
	}
	runs := []M{}
	for i := range slots {
		name := gr.Refs[i].Name
		e := newRun(nil)
		e["s"] = name
		b := "F"
		if slots[i].Nullable() {
			b = "T"
		}
		e["out"].(M)["nullable"] = b
		runs = append(runs, e)
		mk := func() []*Node {
			g.g = gr
			t := g.sample(gr.Refs[i].P, 5)
			if r.Intn(3) == 0 {
				t = g.mutate(cloneNodes(t))
			}
			t = trim(cloneNodes(t), 4)
			if rec {
				t = recordize(t)
			}
			return t
		}
		match := func(p parser.Interface) (bool, error) {
			ps, err := internDeriv(c, []*intern.Pattern{slots[i]}, p)
			if err != nil {
				return false, err
			}
			return ps[0].Nullable(), nil
		}
		ts := chosen(r, newGuide(gr), gr.Refs[i].P, 2, 24, mk, func(t []*Node) []string { return []string{answer(match, t)} })
		for _, t := range ts {
			run := newRun(t)
			run["s"] = name
			addRun(run, "construct", func() (bool, error) { return match(NewTreeParser(t)) })
			runs = append(runs, run)
		}
	}
	if failed != "" {
		run := newRun(nil)
		run["exp"] = "T"
		run["out"].(M)["construct"] = "E"
		run["detail"] = failed
		runs = append(runs, run)
	}
	return M{"g": gr.JSON(), "runs": runs, "text": fmt.Sprint(ops), "same": true}
}
