package main

import (
	"math/rand"

	"github.com/katydid/katydid/relapse"
	"github.com/katydid/katydid/relapse/mem"
)

func tierDepth(tier string, r *rand.Rand) int {
	if tier == "thorough" {
		return 2 + r.Intn(3)
	}
	return 2 + r.Intn(2)
}

// R01: Parse, Prepare, Validate against the meaning of the grammar.
func init() {
	makers["R01"] = func(r *rand.Rand, idx int, tier string) M {
		o := genOpt(r, tier)
		g := NewGen(r, o)
		gr := g.Grammar()
		if r.Intn(3) == 0 {
			g.share(gr)
		}
		n, tree := 4, func() []*Node { return g.Tree(gr) }
		if r.Intn(8) == 0 {
			w := NewWide(g)
			gr, n, tree = w.gr, 6, w.Tree
		}
		text := GramText(gr, r)
		runs := []M{}
		ag, perr := relapse.Parse(text)
		var m *mem.Mem
		if perr == nil {
			try(func() { m, _ = relapse.Prepare(ag) })
		}
		ts := chosen(r, newGuide(gr), gr.Main, n, 64, tree, func(t []*Node) []string {
			if m == nil {
				return nil
			}
			return []string{answer(m.Validate, t)}
		})
		for _, t := range ts {
			out, detail := "E", "parse error"
			if perr == nil {
				p := NewTreeParser(t)
				out, detail = verdict(func() (bool, error) { return runMem(ag, p) })
			} else {
				detail = perr.Error()
			}
			run := newRun(t)
			run["out"].(M)["mem"] = out
			if detail != "" {
				run["detail"] = detail
			}
			runs = append(runs, run)
		}
		return M{"g": gr.JSON(), "runs": runs, "text": text}
	}
}
