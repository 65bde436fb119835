package main

import (
	"encoding/hex"
	"math"
	"math/rand"
	"strings"

	jsonenc "github.com/katydid/katydid/encode/json"
	"github.com/katydid/katydid/parser"
)

// encGen makes trees for encoders
type encGen struct {
	r     *rand.Rand
	names []string
	odd   int // one level in odd is not uniform (0: never)
	left  int
	big   int // 1 deep, 2 wide, 3 long
}

// pickBig makes one in 20 trees large, and says how deep
func (g *encGen) pickBig(d int) int {
	if g.n(20) > 0 {
		return d
	}
	g.big = 1 + g.n(3)
	if g.big == 1 {
		return 8 + g.n(25)
	}
	g.left = 60
	return d
}

func (g *encGen) count(d int) int {
	switch {
	case g.big == 1 && d > 1:
		return 1 + g.n(5)/4
	case g.big == 2:
		return 8 + g.n(40)
	}
	return g.n(4)
}

func (g *encGen) longString() string {
	s := ""
	a, b := encStrings[g.n(len(encStrings))]+"a", encStrings[g.n(len(encStrings))]
	n := []int{20, 60, 62, 64, 126, 128, 200}[g.n(7)]
	for len(s) < n {
		if g.n(3) == 0 {
			s += b
		} else {
			s += a
		}
	}
	return s
}

var encStrings = []string{"", "a", "b c", "é", "€", "😀", "\"", "\\", "<&>", "'", "\n\t\r", "\x00", "\x1f", "\u2028", "1", "true", "null", "{", "\x7f", "]]>", " ", "\\u0041"}

func (g *encGen) n(n int) int { return g.r.Intn(n) }

func (g *encGen) leafLabel() Label {
	l := Label{}
	for k := 1 + g.n(5)/4; k > 0; k-- {
		switch g.n(13) {
		case 0, 1:
			i := []int64{0, 1, -1, 42, -300, math.MaxInt64, math.MinInt64, 1 << 53, g.r.Int63() >> uint(g.n(60))}[g.n(9)]
			l.I = &i
		case 2, 3:
			u := []uint64{0, 1, 300, math.MaxUint64, 1 << 63, math.MaxInt64, g.r.Uint64() >> uint(g.n(60))}[g.n(7)]
			l.U = &u
		case 4, 5, 6:
			d := []float64{0, 1, -1.5, 0.1, 1e21, 1e20, 1e-7, 123456789, math.MaxFloat64, 5e-324, math.Inf(1), math.NaN(), g.r.NormFloat64(), g.r.ExpFloat64() * 1e30, math.Copysign(0, -1), float64(float32(0.1)), -1e100}[g.n(17)]
			l.D = &d
		case 7:
			b := g.n(2) == 0
			l.B = &b
		case 8, 9, 10:
			s := encStrings[g.n(len(encStrings))] + encStrings[g.n(len(encStrings))]
			if g.big == 3 {
				s = g.longString()
			}
			if g.n(40) == 0 {
				s += "\xff"
			}
			l.S = &s
		case 11:
			l.HasY, l.Y = true, []byte([]string{"", "a", "ab", "abc", "abcd", "\xff\xfe", "\xfb\xff\x3f>?"}[g.n(7)])
		}
	}
	return l
}

func (g *encGen) leaf() *Node { g.left--; return &Node{L: g.leafLabel(), Leaf: true} }

func (g *encGen) level(d int) []*Node {
	k := g.n(8)
	if d <= 0 || g.left < 0 {
		k = 7
	}
	if g.big == 1 && d > 1 {
		k = g.n(5)
	}
	if k >= 5 {
		if g.n(8) == 0 {
			return nil
		}
		return []*Node{g.leaf()}
	}
	ns := []*Node{}
	for m := g.count(d); m > 0; m-- {
		g.left--
		kk := k
		if g.odd > 0 && g.n(g.odd) == 0 {
			kk = g.n(9)
		}
		switch {
		case kk < 3:
			s := g.names[g.n(len(g.names))]
			ns = append(ns, &Node{L: LStr(s), C: g.level(d - 1)})
		case kk < 5:
			l := LInt(int64(len(ns)))
			if g.n(8) == 0 {
				x := g.names[0]
				l.S = &x
			}
			if g.n(8) == 0 {
				x := int64(g.n(3))
				l.I = &x
			}
			ns = append(ns, &Node{L: l, C: g.level(d - 1)})
		case kk == 5:
			ns = append(ns, g.leaf())
		default:
			l := g.leafLabel()
			ns = append(ns, &Node{L: l, C: g.level(d - 1)})
		}
	}
	return ns
}

func encNodesJSON(ns []*Node) []M {
	r := []M{}
	for _, n := range ns {
		r = append(r, M{"l": n.L.JSON(), "leaf": n.Leaf, "c": encNodesJSON(n.C)})
	}
	return r
}

// encRun gives the tree to an encoder, perhaps with a read error on the way
func encRun(r *rand.Rand, tree []*Node, f func(p parser.Interface) error) M {
	p := NewTreeParser(tree)
	if r.Intn(6) == 0 {
		p.failAt = 1 + r.Intn(2*countNodes(tree)+1)
	}
	m := M{"tree": encNodesJSON(tree), "out": "ok", "failed": false, "detail": ""}
	if x := try(func() {
		if err := f(p); err != nil {
			m["out"], m["detail"] = "err", err.Error()
		}
	}); x != "" {
		m["out"], m["detail"] = "panic", x
	}
	m["failed"] = p.failAt > 0 && p.nexts >= p.failAt
	m["bad"] = p.bad
	if p.bad == nil {
		m["bad"] = []string{}
	}
	return m
}

func numsOf(s string) []M {
	nums := []M{}
	seen := map[string]bool{}
	for _, x := range numRun.FindAllString(s, -1) {
		if !seen[x] && len(x) < 60 {
			seen[x] = true
			nums = append(nums, M{"x": keyBytes([]byte(x)), "d": nearest(x)})
		}
	}
	return nums
}

func init() {
	makers["E01"] = func(r *rand.Rand, idx int, tier string) M {
		g := &encGen{r: r, names: []string{"a", "b", "c", "", "é", "\"x", "a.b", "0", "<\n"}, left: 20}
		if r.Intn(4) == 0 {
			g.odd = 6
		}
		if r.Intn(3) > 0 {
			g.names = g.names[:5]
		}
		tree := g.level(g.pickBig(1 + r.Intn(3)))
		var buf []byte
		m := encRun(r, tree, func(p parser.Interface) (err error) {
			buf, err = jsonenc.Encode(p)
			return
		})
		m["b"] = keyBytes(buf)
		m["nums"] = numsOf(string(buf))
		text := string(buf)
		if strings.ContainsRune(text, 0xfffd) {
			text = hex.EncodeToString(buf)
		}
		m["text"] = nodesString(tree) + "  =>  " + text
		return m
	}
}
