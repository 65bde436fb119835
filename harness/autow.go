package main

// autoFits: compiling an automaton enumerates every combination of conditions
// and of residual patterns, which explodes (TestExplosion documents it).  The
// grammars for which this holds compile within a fraction of a second.
func autoFits(gr *Gram) bool {
	if gr.size() > 8 {
		return false
	}
	conds, inter, mult := 0, 0, 0
	gr.walk(func(p *Pat) {
		switch p.K {
		case "tree", "leaf":
			conds++
		case "inter":
			inter++
		case "contains", "star", "not", "ref", "zany":
			mult++
		}
	})
	return inter == 0 || conds <= 4 && mult == 0 || conds <= 2 && inter <= 1 && mult <= 1
}
