package main

import (
	"fmt"
	"math/rand"

	"github.com/katydid/katydid/relapse/ast"
	"github.com/katydid/katydid/relapse/auto"
	"github.com/katydid/katydid/relapse/interp"
)

// shape of a forest: a sequence of shapes, and whether it is a leaf
func shapeJSON(ns []*Node) []interface{} {
	r := make([]interface{}, len(ns))
	for i, n := range ns {
		r[i] = M{"leaf": n.Leaf, "c": shapeJSON(n.C)}
	}
	return r
}

func init() {
	// R07: how engines use the parser
	makers["R07"] = func(r *rand.Rand, idx int, tier string) M {
		o := genOpt(r, tier)
		g := NewGen(r, o)
		gr := g.Grammar()
		ag, text, err := parsed(gr, r)
		if err != nil {
			return M{"text": text, "runs": []M{{"shape": []int{}, "log": []string{}, "out": "E", "engine": "parse", "detail": err.Error()}}}
		}
		engs := []string{"mem", "memrec", "intern", "internrec", "interp"}
		if autoFits(gr) {
			engs = append(engs, "auto", "autorec")
		}
		runs := []M{}
		for i := 0; i < 4; i++ {
			t := g.Tree(gr)
			p := NewTreeParser(t)
			p.rec = true
			if r.Intn(3) == 0 {
				p.failAt = 1 + r.Intn(2*countNodes(t)+2)
			}
			e := engs[r.Intn(len(engs))]
			out, detail := verdict(func() (bool, error) { return engines[e](ag, p) })
			log := p.Log
			if log == nil {
				log = []string{}
			}
			runs = append(runs, M{"shape": shapeJSON(t), "log": log, "out": out, "engine": e, "detail": detail, "tree": nodesString(t), "plain": !o.Funcs})
		}
		return M{"text": text, "runs": runs}
	}

	// R08: what is known about a grammar without an input
	makers["R08"] = func(r *rand.Rand, idx int, tier string) M {
		o := GenOpt{Depth: 1 + r.Intn(3), Inter: true}
		g := NewGen(r, o)
		gr := &Gram{}
		g.g = gr
		names := []string{"r", "s", "t", "u"}
		n := r.Intn(5)
		for i := 0; i < n; i++ {
			gr.Refs = append(gr.Refs, Decl{Name: names[i]})
		}
		gr.Main = g.pat(o.Depth, false, 0)
		for i := range gr.Refs {
			gr.Refs[i].P = g.pat(o.Depth-1, false, 0)
		}
		gr.Main.walk(func(p *Pat) {}) // nothing
		// more references, also to what does not exist
		undef := r.Intn(5) == 0
		gr.walk(func(p *Pat) {
			if (p.K == "leaf" || p.K == "zany" || p.K == "empty") && n > 0 && r.Intn(3) == 0 {
				k := "main"
				if j := r.Intn(n + 1); j < n {
					k = gr.Refs[j].Name
				}
				*p = Pat{K: "ref", Ref: k}
			}
			if undef && (p.K == "leaf" || p.K == "zany") && r.Intn(4) == 0 {
				*p = Pat{K: "ref", Ref: "undefined"}
			}
		})
		nomain := r.Intn(25) == 0
		ag, text, err := parsed(gr, r)
		res := M{"g": gr.JSON(), "text": text, "nomain": nomain, "rec": "", "nullable": []M{}, "out": M{}}
		if err != nil {
			res["detail"] = err.Error()
			res["rec"] = "E"
			return res
		}
		if nomain {
			ag.TopPattern = nil
		}
		hasrec := true
		if s := try(func() { hasrec = interp.HasRecursion(ag) }); s != "" {
			res["rec"] = "P"
			res["detail"] = s
			return res
		}
		res["rec"] = map[bool]string{true: "T", false: "F"}[hasrec]
		if hasrec {
			return res
		}
		refs := ast.NewRefLookup(ag)
		closed := true
		gr.walk(func(p *Pat) {
			if p.K == "ref" && (gr.get(p.Ref) == nil || p.Ref == "main" && nomain) {
				closed = false
			}
		})
		nulls := []M{}
		if closed && !nomain {
			for _, name := range append([]string{"main"}, names[:n]...) {
				b := false
				s := try(func() { b = interp.Nullable(refs, refs[name]) })
				v := map[bool]string{true: "T", false: "F"}[b]
				if s != "" {
					v = "P"
				}
				nulls = append(nulls, M{"name": name, "v": v})
			}
		}
		res["nullable"] = nulls
		t := g.forest(2, 3)
		out := M{}
		for _, e := range []string{"mem", "intern", "interp", "internrec", "memrec"} {
			v, d := verdict(func() (bool, error) { return engines[e](ag, NewTreeParser(t)) })
			out[e] = v
			if d != "" {
				res["detail."+e] = d
			}
		}
		if autoFits(gr) {
			v, d := verdict(func() (bool, error) {
				a, err := auto.Compile(ag)
				if err != nil {
					return false, err
				}
				return a.Validate(NewTreeParser(t))
			})
			out["auto"] = v
			if d != "" {
				res["detail.auto"] = d
			}
		}
		res["out"] = out
		res["t"] = nodesJSON(t)
		return res
	}
}

var _ = fmt.Sprint
