package main

import (
	"math/rand"

	xmlenc "github.com/katydid/katydid/encode/xml"
	"github.com/katydid/katydid/parser"
)

// content makes trees like those of XML documents
func (g *encGen) content(d int) []*Node {
	ns := []*Node{}
	down := false
	for m := g.count(d); m > 0; m-- {
		if g.big == 1 && d > 0 && !down && g.n(3) > 0 {
			down = true
			ns = append(ns, &Node{L: LStr(g.names[g.n(8)]), C: g.content(d - 1)})
			continue
		}
		if d <= 0 || g.left < 0 || g.n(2) == 0 {
			ns = append(ns, g.leaf())
			continue
		}
		g.left--
		l := LStr(g.names[g.n(len(g.names))])
		if g.odd > 0 && g.n(g.odd) == 0 {
			l = g.leafLabel()
		}
		ns = append(ns, &Node{L: l, C: g.content(d - 1)})
	}
	return ns
}

func init() {
	makers["E02"] = func(r *rand.Rand, idx int, tier string) M {
		g := &encGen{r: r, names: []string{"a", "b", "c", "Top", "_x-1.y", "é", "xml", "A", "", "p:q", "a b", "1"}, left: 20}
		if r.Intn(8) == 0 {
			g.odd = 6
		}
		if r.Intn(6) > 0 {
			g.names = g.names[:8]
		}
		tree := g.content(g.pickBig(1 + r.Intn(3)))
		var buf []byte
		m := encRun(r, tree, func(p parser.Interface) (err error) {
			buf, err = xmlenc.Encode(p)
			return
		})
		m["b"] = keyBytes(buf)
		m["nums"] = numsOf(string(buf))
		m["pre"] = M{"elem": []int{}, "attr": []int{}, "text": []int{}}
		m["text"] = nodesString(tree) + "  =>  " + string(buf)
		return m
	}
}
