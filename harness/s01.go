package main

import (
	"math/rand"

	"github.com/katydid/katydid/relapse/ast"
	"github.com/katydid/katydid/relapse/sets"
)

func bitsOf(b sets.Bits, size int) []bool {
	r := []bool{}
	for i := 0; i < size; i++ {
		r = append(r, b.Get(i))
	}
	return r
}

func bitsFrom(bs []bool) sets.Bits {
	b := sets.NewBits(len(bs))
	for i, x := range bs {
		if x {
			b.Set(i, true)
		}
	}
	return b
}

func anyBits(r *rand.Rand, size int) []bool {
	bs := make([]bool, size)
	m := 1 + r.Intn(5)
	for i := range bs {
		bs[i] = r.Intn(m) == 0
	}
	if r.Intn(3) == 0 { // ones up to some bit: inc carries far
		for i, n := 0, r.Intn(size); i < n; i++ {
			bs[i] = true
		}
		bs[size-1] = false
	}
	return bs
}

var bitSizes = []int{1, 2, 5, 10, 31, 63, 64, 65, 66, 100, 127, 128, 129, 130, 192, 193}

func (g *Gen) zipPats() []*Pat {
	pool := []*Pat{zAny(), {K: "not", A: zAny()}}
	for i := 0; i < 4; i++ {
		switch g.n(3) {
		case 0:
			pool = append(pool, &Pat{K: "leaf", E: EOp("==", EConst(VStr(g.str())))})
		case 1:
			pool = append(pool, &Pat{K: "tree", N: &NameE{K: "name", V: g.nameVal()}, A: zAny()})
		default:
			pool = append(pool, g.pat(1, false, 0))
		}
	}
	if g.n(2) == 0 {
		pool = append(pool, &Pat{K: "empty"}, &Pat{K: "not", A: &Pat{K: "not", A: zAny()}}, &Pat{K: "not", A: &Pat{K: "empty"}})
	}
	r := []*Pat{}
	for i := g.n(9); i > 0; i-- {
		r = append(r, pool[g.n(len(pool))])
	}
	return r
}

func patsJSON(ps []*ast.Pattern) []interface{} {
	r := []interface{}{}
	for _, p := range ps {
		r = append(r, fromPat(p).JSON())
	}
	return r
}

func init() {
	makers["S01"] = func(r *rand.Rand, idx int, tier string) M {
		steps := []M{}
		step := func(op string, f func(m M)) bool {
			m := M{"op": op, "panic": false, "out": 0}
			steps = append(steps, m)
			if p := try(func() { f(m) }); p != "" {
				m["panic"], m["detail"] = true, p
				return false
			}
			return true
		}
		rec := M{"kind": "set", "size": 0}
		add := func(x interface{}, add, index func() int) {
			for _, op := range []string{"index", "add", "index"} {
				if r.Intn(3) == 0 {
					continue
				}
				f := index
				if op == "add" {
					f = add
				}
				step(op, func(m M) { m["x"] = x; m["out"] = f() })
			}
		}
		g := NewGen(r, GenOpt{Typed: r.Intn(2) == 0, Coll: r.Intn(2) == 0, Depth: 1})
		g.g = &Gram{}
		n := 4 + r.Intn(12)
		switch k := r.Intn(8); k {
		case 0:
			xs := sets.NewInts()
			rec["text"] = "Ints"
			for i := 0; i < n; i++ {
				x := []int{}
				for j := r.Intn(4); j > 0; j-- {
					x = append(x, r.Intn(3)-1)
				}
				add(x, func() int { return xs.Add(x) }, func() int { return xs.Index(x) })
			}
		case 1:
			xs := sets.NewPairs()
			rec["text"] = "Pairs"
			for i := 0; i < n; i++ {
				x := sets.Pair{First: r.Intn(3), Second: r.Intn(3)}
				add([]int{x.First, x.Second}, func() int { return xs.Add(x) }, func() int { return xs.Index(x) })
			}
		case 2:
			xs := sets.NewPatterns()
			rec["text"] = "Patterns"
			pool := [][]*Pat{}
			for i := 0; i < n; i++ {
				ps := g.zipPats()
				if len(pool) > 0 && r.Intn(3) > 0 {
					ps = append([]*Pat{}, pool[r.Intn(len(pool))]...)
					if len(ps) > 1 && r.Intn(2) == 0 {
						j := r.Intn(len(ps))
						ps[0], ps[j] = ps[j], ps[0]
					}
				}
				pool = append(pool, ps)
				as := []*ast.Pattern{}
				for _, p := range ps {
					as = append(as, toPat(p))
				}
				add(patsJSON(as), func() int { return xs.Add(as) }, func() int { return xs.Index(as) })
			}
		case 3:
			xs := sets.NewBitsSet()
			size := bitSizes[r.Intn(len(bitSizes))]
			rec["text"] = "BitsSet"
			var last []bool
			for i := 0; i < n; i++ {
				bs := anyBits(r, size)
				if last != nil && r.Intn(3) > 0 { // differs in at most one bit
					bs = append([]bool{}, last...)
					if r.Intn(2) == 0 {
						j := r.Intn(size)
						bs[j] = !bs[j]
					}
				}
				last = bs
				add(bs, func() int { return xs.Add(bitsFrom(bs)) }, func() int { return xs.Index(bitsFrom(bs)) })
			}
		case 4, 5:
			rec["text"] = "Zip"
			for i := 0; i < 3; i++ {
				as := []*ast.Pattern{}
				for _, p := range g.zipPats() {
					as = append(as, toPat(p))
				}
				if len(as) > 0 && r.Intn(4) == 0 { // twice the same pointer
					as = append(as, as[r.Intn(len(as))])
				}
				if !step("zip", func(m M) {
					m["in"] = patsJSON(as)
					z, ix := sets.Zip(as)
					m["zipped"], m["idx"] = patsJSON(z), append([]int{}, ix...)
					m["back"] = patsJSON(sets.Unzip(z, ix))
					bs := anyBits(r, len(z)+1)[:len(z)]
					b := sets.NewBits(len(z))
					for i, x := range bs {
						b.Set(i, x)
					}
					m["bits"], m["bback"] = bs, sets.UnzipBits(b, ix)
					// zipping does not change what was zipped
					if in := patsJSON(as); string(mustJSON(in)) != string(mustJSON(m["in"])) {
						m["back"] = in
					}
				}) {
					break
				}
			}
		default:
			rec["kind"] = "bits"
			size := bitSizes[r.Intn(len(bitSizes))]
			rec["size"], rec["text"] = size, "Bits"
			b := sets.NewBits(size)
			var old sets.Bits
			kept := false
			for i := 0; i < n; i++ {
				full := true
				for _, x := range bitsOf(b, size) {
					full = full && x
				}
				ok := true
				switch k := r.Intn(10); {
				case k < 2 && !kept:
					// many at once
					bs := anyBits(r, size)
					for j, x := range bs {
						if j%3 == 0 || j > size-3 || j < 70 && j > 60 {
							ok = ok && step("set", func(m M) { m["i"], m["b"] = j, x; b.Set(j, x) })
						}
					}
				case k < 4 && !kept:
					j := r.Intn(size)
					x := r.Intn(2) == 0
					ok = step("set", func(m M) { m["i"], m["b"] = j, x; b.Set(j, x) })
				case k < 5 && !kept:
					// ones in front, for the carry
					for j, n := 0, r.Intn(size); j < n; j++ {
						ok = ok && step("set", func(m M) { m["i"], m["b"] = j, true; b.Set(j, true) })
					}
				case k < 7 && !full:
					ok = step("inc", func(m M) { b = b.Inc() })
				case k == 7:
					bs := bitsOf(b, size)
					if r.Intn(2) == 0 {
						j := r.Intn(size)
						bs[j] = !bs[j]
					}
					ok = step("equal", func(m M) { m["bits"], m["out"] = bs, b.Equal(bitsFrom(bs)) && bitsFrom(bs).Equal(b) })
				case k == 8 && kept:
					ok = step("kept", func(m M) { m["out"] = bitsOf(old, size) })
				case k == 8 && r.Intn(3) == 0:
					kept = true
					ok = step("keep", func(m M) { old = b })
				default:
					if r.Intn(2) == 0 {
						ok = step("list", func(m M) { m["out"] = bitsOf(b, size) })
					} else {
						j := r.Intn(size)
						ok = step("get", func(m M) { m["i"], m["out"] = j, b.Get(j) })
					}
				}
				if !ok {
					break
				}
			}
			step("list", func(m M) { m["out"] = bitsOf(b, size) })
			if kept {
				step("kept", func(m M) { m["out"] = bitsOf(old, size) })
			}
		}
		rec["steps"] = steps
		return rec
	}
}
