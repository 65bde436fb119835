package main

import (
	"math/rand"

	"github.com/katydid/katydid/parser"
	"github.com/katydid/katydid/relapse"
	"github.com/katydid/katydid/relapse/compose"
)

// The guide guesses what the verdict of the specification will be, such that
// the harness can look at many trees and record the ones that are worth the
// attention of the specification: those for which an engine does not answer
// what the guide guesses, and a mixture of the others.  It never decides
// anything: what it picks is judged by the specification, and only by that.
type guide struct {
	gr    *Gram
	conds map[*Expr]compose.Bool
	open  bool // a condition failed
	cost  int
}

func newGuide(gr *Gram) *guide { return &guide{gr: gr, conds: map[*Expr]compose.Bool{}} }

func (m *guide) cond(e *Expr, n *Node) (res bool) {
	defer func() {
		if recover() != nil {
			m.open, res = true, false
		}
	}()
	f, ok := m.conds[e]
	if !ok {
		if ag, err := relapse.Parse(PatText(&Pat{K: "leaf", E: e})); err == nil {
			if b, err := compose.NewBool(ag.GetTopPattern().GetLeafNode().GetExpr()); err == nil {
				f, _ = compose.NewBoolFunc(b)
			}
		}
		m.conds[e] = f
	}
	if f == nil {
		m.open = true
		return false
	}
	p := NewTreeParser([]*Node{n})
	p.Next()
	b, err := f.Eval(p)
	if err != nil {
		m.open = true
		return false
	}
	return b
}

func (m *guide) name(n *NameE, l Label) bool {
	switch n.K {
	case "any":
		return true
	case "not":
		return !m.name(n.A, l)
	case "or":
		return m.name(n.A, l) || m.name(n.B, l)
	}
	return overlap(n.V.label(), l)
}

func (m *guide) arms(p *Pat) []*Pat {
	if p.K == "inter" {
		return append(m.arms(p.A), m.arms(p.B)...)
	}
	return []*Pat{p}
}

// ends is the set of positions where a match of p that begins at i can end
func (m *guide) ends(p *Pat, s []*Node, i int) (res uint64) {
	m.cost++
	if m.cost > 200000 {
		m.open = true
		return 0
	}
	n := len(s)
	from := func(i int) uint64 { return (1<<uint(n+1) - 1) &^ (1<<uint(i) - 1) }
	each := func(set uint64, f func(j int) uint64) (res uint64) {
		for j := 0; j <= n; j++ {
			if set>>uint(j)&1 == 1 {
				res |= f(j)
			}
		}
		return
	}
	switch p.K {
	case "empty":
		return 1 << uint(i)
	case "zany":
		return from(i)
	case "leaf":
		if i < n && len(s[i].C) == 0 && m.cond(p.E, s[i]) {
			return 1 << uint(i+1)
		}
		return 0
	case "tree":
		if i < n && m.name(p.N, s[i].L) && m.match(p.A, s[i].C) {
			return 1 << uint(i+1)
		}
		return 0
	case "concat":
		return each(m.ends(p.A, s, i), func(j int) uint64 { return m.ends(p.B, s, j) })
	case "or":
		return m.ends(p.A, s, i) | m.ends(p.B, s, i)
	case "and":
		return m.ends(p.A, s, i) & m.ends(p.B, s, i)
	case "not":
		return from(i) &^ m.ends(p.A, s, i)
	case "opt":
		return 1<<uint(i) | m.ends(p.A, s, i)
	case "star":
		done, todo := uint64(0), uint64(1)<<uint(i)
		for todo != 0 {
			done |= todo
			todo = each(todo, func(j int) uint64 { return m.ends(p.A, s, j) }) &^ done
		}
		return done
	case "contains":
		ks := each(from(i), func(j int) uint64 { return m.ends(p.A, s, j) })
		for j := i; j <= n; j++ {
			if ks&(1<<uint(j+1)-1) != 0 {
				return from(j)
			}
		}
		return 0
	case "ref":
		if q := m.gr.get(p.Ref); q != nil {
			return m.ends(q, s, i)
		}
		m.open = true
		return 0
	case "inter":
		w := s[i:]
		if len(w) > 6 {
			m.open = true
			return 0
		}
		taken := map[int]bool{0: true}
		for _, a := range m.arms(p) {
			next := map[int]bool{}
			for set := 0; set < 1<<uint(len(w)); set++ {
				sub := []*Node{}
				for k := range w {
					if set>>uint(k)&1 == 1 {
						sub = append(sub, w[k])
					}
				}
				if m.match(a, sub) {
					for t := range taken {
						if t&set == 0 {
							next[t|set] = true
						}
					}
				}
			}
			taken = next
		}
		for j := i; j <= n; j++ {
			if taken[1<<uint(j-i)-1] {
				res |= 1 << uint(j)
			}
		}
		return res
	}
	panic(p.K)
}

func (m *guide) match(p *Pat, s []*Node) bool {
	if len(s) > 40 {
		m.open = true
		return false
	}
	return m.ends(p, s, 0)>>uint(len(s))&1 == 1
}

// guess is T, F or ? when a condition fails
func (m *guide) guess(p *Pat, s []*Node) string {
	m.open, m.cost = false, 0
	b := m.match(p, s)
	switch {
	case m.open:
		return "?"
	case b:
		return "T"
	}
	return "F"
}

// odd is whether an answer is not the one that was guessed
func odd(guess, answer string) bool {
	return answer == "P" || guess != "?" && guess != answer
}

// chosen picks n of the trees that make makes: those for which answers are
// odd, and for the rest about as many that are guessed valid as not.
func chosen(r *rand.Rand, m *guide, p *Pat, n, tries int, mk func() []*Node, answers func(t []*Node) []string) [][]*Node {
	var by [3][][]*Node
	for i := 0; i < tries; i++ {
		t := mk()
		g := m.guess(p, t)
		k := 2
		if g == "T" {
			k = 1
		}
		for _, a := range answers(t) {
			if odd(g, a) {
				k = 0
			}
		}
		by[k] = append(by[k], t)
	}
	res := by[0]
	for k := 1; len(res) < n && len(by[1])+len(by[2]) > 0; k = 3 - k {
		if len(by[k]) > 0 {
			res = append(res, by[k][0])
			by[k] = by[k][1:]
		}
	}
	if len(res) > n {
		res = res[:n]
	}
	r.Shuffle(len(res), func(i, j int) { res[i], res[j] = res[j], res[i] })
	return res
}

func answer(f func(p parser.Interface) (bool, error), t []*Node) string {
	v, _ := verdict(func() (bool, error) { return f(NewTreeParser(t)) })
	return v
}
