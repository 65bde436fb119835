package main

import (
	stdjson "encoding/json"
	"fmt"

	"github.com/katydid/katydid/parser"
	"github.com/katydid/katydid/relapse"
	"github.com/katydid/katydid/relapse/ast"
	"github.com/katydid/katydid/relapse/auto"
	"github.com/katydid/katydid/relapse/interp"
	"github.com/katydid/katydid/relapse/mem"
)

// The grammars and trees of spec/GrammarGen, run on every engine.

type smallPat struct {
	K string
	N string
	A *smallPat
	B *smallPat
}

func (p *smallPat) pat() *Pat {
	if p == nil {
		return nil
	}
	r := &Pat{K: p.K, A: p.A.pat(), B: p.B.pat()}
	switch p.K {
	case "tree":
		a := &NameE{K: "name", V: VStr("a")}
		r.N = map[string]*NameE{"a": a, "!a": {K: "not", A: a}, "_": {K: "any"}}[p.N]
	case "leaf":
		r.E = EOp("==", EConst(VInt(1)))
	case "ref":
		r.Ref = "r"
	}
	return r
}

func smallTree(x interface{}) []*Node {
	ns := []*Node{}
	for _, e := range x.([]interface{}) {
		n := e.([]interface{})
		l := LStr(n[0].(string))
		if n[0] == "1" {
			l = LInt(1)
		}
		c := smallTree(n[1])
		ns = append(ns, &Node{L: l, C: c, Leaf: len(c) == 0})
	}
	return ns
}

func smallRecord(ns []*Node) bool {
	for i, n := range ns {
		for _, m := range ns[:i] {
			if overlap(m.L, n.L) {
				return false
			}
		}
		if !smallRecord(n.C) {
			return false
		}
	}
	return true
}

type engine struct {
	name string
	f    func(p parser.Interface) (bool, error)
}

func init() {
	reg := func(name string, record bool, mk func(ag *ast.Grammar, gr *Gram, rec M) []engine) {
		replayers[name] = func(line []byte, idx int) M {
			var in struct {
				G  map[string]*smallPat
				TS []interface{}
			}
			if err := stdjson.Unmarshal(line, &in); err != nil {
				panic(err)
			}
			gr := &Gram{Main: in.G["main"].pat()}
			if in.G["r"] != nil {
				gr.Refs = append(gr.Refs, Decl{"r", in.G["r"].pat()})
			}
			text := GramText(gr, rng(1, int64(idx), name))
			rec := M{"g": gr.JSON(), "ts": in.TS, "record": record, "text": text}
			out := M{}
			ag, err := relapse.Parse(text)
			var es []engine
			if err == nil {
				if s := try(func() { es = mk(ag, gr, rec) }); s != "" {
					err = fmt.Errorf("%s", s)
				}
			}
			if err != nil {
				rec["detail"] = err.Error()
				es = []engine{{"prepare", func(parser.Interface) (bool, error) { return false, err }}}
			}
			for _, e := range es {
				vs := make([]string, len(in.TS))
				for i, x := range in.TS {
					t := smallTree(x)
					if record && !smallRecord(t) {
						continue
					}
					vs[i], _ = verdict(func() (bool, error) { return e.f(NewTreeParser(t)) })
				}
				out[e.name] = vs
			}
			rec["out"] = out
			return rec
		}
	}
	must := func(err error) {
		if err != nil {
			panic(err)
		}
	}
	whole := func(ag *ast.Grammar, name string) engine {
		return engine{name, func(p parser.Interface) (bool, error) { return engines[name](ag, p) }}
	}
	reg("R01small", false, func(ag *ast.Grammar, gr *Gram, rec M) []engine { return []engine{whole(ag, "mem")} })
	reg("R02small", false, func(ag *ast.Grammar, gr *Gram, rec M) []engine {
		es := []engine{whole(ag, "interp"), whole(ag, "intern")}
		if autoFits(gr) {
			a, err := auto.Compile(ag)
			must(err)
			es = append(es, engine{"auto", a.Validate})
		}
		return es
	})
	// all the trees through one Mem, twice
	reg("R03small", false, func(ag *ast.Grammar, gr *Gram, rec M) []engine {
		m, err := relapse.Prepare(ag)
		must(err)
		return []engine{{"first", m.Validate}, {"second", m.Validate}}
	})
	reg("R04small", true, func(ag *ast.Grammar, gr *Gram, rec M) []engine {
		m, err := mem.NewRecord(ag)
		must(err)
		sg := interp.NewSimplifier(ag).OptimizeForRecord().Grammar()
		es := []engine{whole(ag, "internrec"), {"memrec", m.Validate},
			{"interprec", func(p parser.Interface) (bool, error) { return interp.Interpret(sg, p) }}}
		if autoFits(gr) {
			a, err := auto.CompileRecord(ag)
			must(err)
			es = append(es, engine{"autorec", a.Validate})
		}
		return es
	})
	simplify := func(record bool) func(ag *ast.Grammar, gr *Gram, rec M) []engine {
		return func(ag *ast.Grammar, gr *Gram, rec M) []engine {
			s := interp.NewSimplifier(ag)
			if record {
				s = s.OptimizeForRecord()
			}
			rec["h"] = fromGrammar(s.Grammar()).JSON()
			return nil
		}
	}
	reg("R05small", false, simplify(false))
	reg("R05smallrec", true, simplify(true))
}
