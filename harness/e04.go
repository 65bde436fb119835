package main

import (
	"fmt"
	"math"
	"math/rand"
	"reflect"

	reflectenc "github.com/katydid/katydid/encode/reflect"
	"github.com/katydid/katydid/parser"
)

func (t *goType) JSON() M {
	switch t.kind {
	case "struct":
		fs := []M{}
		for i, f := range t.f {
			fs = append(fs, M{"name": keyBytes([]byte(t.name[i])), "t": f.JSON()})
		}
		return M{"g": "struct", "f": fs}
	case "slice", "ptr":
		return M{"g": t.kind, "e": t.elem.JSON()}
	case "opaque":
		return M{"g": "opaque"}
	}
	m := M{"g": "scalar", "a": t.kind, "f32": t.t.Kind() == reflect.Float32, "lo": []int{}, "hi": []int{}}
	bits := uint(0)
	switch t.kind {
	case "int":
		bits = uint(t.t.Bits())
		m["lo"], m["hi"] = keyInt(math.MinInt64>>(64-bits)), keyInt(math.MaxInt64>>(64-bits))
	case "uint":
		bits = uint(t.t.Bits())
		m["lo"], m["hi"] = keyUint(0), keyUint(math.MaxUint64>>(64-bits))
	}
	m["zero"] = goValue(t, reflect.Zero(t.t))
	return m
}

// goValue is the value for the specification
func goValue(t *goType, v reflect.Value) interface{} {
	switch t.kind {
	case "struct":
		r := []interface{}{}
		for i, f := range t.f {
			r = append(r, goValue(f, v.Field(i)))
		}
		return r
	case "slice":
		r := []interface{}{}
		for i := 0; i < v.Len(); i++ {
			r = append(r, goValue(t.elem, v.Index(i)))
		}
		return r
	case "ptr":
		if v.IsNil() {
			return []interface{}{}
		}
		return []interface{}{goValue(t.elem, v.Elem())}
	case "opaque":
		return []interface{}{}
	case "double":
		return keyDouble(v.Float())
	case "int":
		return keyInt(v.Int())
	case "uint":
		return keyUint(v.Uint())
	case "bool":
		return v.Bool()
	case "bytes":
		return keyBytes(v.Bytes())
	}
	return keyBytes([]byte(v.String()))
}

// goContent makes what a parser could show for a value of the type
func (g *encGen) goContent(t *goType) []*Node {
	if g.odd > 0 && g.n(g.odd) == 0 {
		return g.level(1)
	}
	if g.n(12) == 0 && t.kind != "struct" && g.big != 1 {
		if g.n(2) == 0 {
			return nil
		}
		return []*Node{{Leaf: true}}
	}
	ns := []*Node{}
	switch t.kind {
	case "ptr":
		return g.goContent(t.elem)
	case "struct":
		for _, i := range g.r.Perm(len(t.f)) {
			if g.n(6) == 0 && g.big != 1 {
				continue
			}
			if g.n(12) == 0 {
				ns = append(ns, &Node{L: LStr(g.names[g.n(len(g.names))]), C: g.level(1)})
			}
			ns = append(ns, &Node{L: LStr(t.name[i]), C: g.goContent(t.f[i])})
		}
		return ns
	case "slice":
		i := g.n(4)
		if g.big == 1 {
			i = 1
		} else if g.big == 2 && g.left > 0 {
			i = 5 + g.n(40)
			g.left -= i
		}
		for ; i > 0; i-- {
			ns = append(ns, &Node{L: LInt(int64(len(ns))), C: g.goContent(t.elem)})
		}
		return ns
	case "opaque":
		return nil
	}
	l := Label{}
	switch t.kind {
	case "double":
		l = LDbl([]float64{0, 1, -1.5, 0.25, math.Inf(1), math.NaN(), 1024, -3}[g.n(8)])
	case "int":
		x := []int64{0, 1, -1, 42, -128, 127, math.MaxInt64, math.MinInt64, math.MaxInt32, math.MinInt32}[g.n(10)]
		for g.n(30) != 0 && reflect.Zero(t.t).OverflowInt(x) {
			x >>= 8
		}
		l = LInt(x)
	case "uint":
		x := []uint64{0, 1, 200, 255, math.MaxUint64, math.MaxUint32, 1 << 63}[g.n(7)]
		for g.n(30) != 0 && reflect.Zero(t.t).OverflowUint(x) {
			x >>= 8
		}
		l = LUint(x)
	case "bool":
		l = LBool(g.n(2) == 0)
	case "bytes":
		l = LBytes([]byte([]string{"", "a", "\x00\xff", "abc"}[g.n(4)]))
	default:
		l = LStr([]string{"", "a", "abc", "\xff"}[g.n(4)])
		if g.big == 3 {
			l = LStr(g.longString())
		}
	}
	// like a number of JSON
	o := g.leafLabel()
	if g.n(3) == 0 && l.I == nil {
		l.I = o.I
	}
	if g.n(3) == 0 && l.D == nil {
		l.D = o.D
	}
	if g.n(3) == 0 && l.U == nil {
		l.U = o.U
	}
	if g.n(3) == 0 && l.S == nil {
		l.S = o.S
	}
	return []*Node{{L: l, Leaf: true}}
}

func init() {
	makers["E04"] = func(r *rand.Rand, idx int, tier string) M {
		gg := &goGen{r: r}
		g := &encGen{r: r, names: []string{"a", "x", "nothing", "", "A", "Bb"}, left: 20}
		depth := func() int {
			d := 1 + r.Intn(4)
			if g.big == 1 {
				gg.big = 1
				d = 8 + r.Intn(20)
			}
			return d
		}
		g.pickBig(0)
		var t *goType
		for t = gg.typ(depth()); t.kind != "struct" || len(t.f) == 0; t = gg.typ(depth()) {
		}
		if r.Intn(3) == 0 {
			g.odd = 20
		}
		tree := g.goContent(t)
		v := reflect.New(t.t)
		m := encRun(r, tree, func(p parser.Interface) error { return reflectenc.Encode(p, v.Interface()) })
		m["type"] = t.JSON()
		m["v"] = goValue(t, v.Elem())
		x := fmt.Sprintf("%v %+v", t.t, v.Elem())
		m["text"] = nodesString(tree) + "  =>  " + x
		return m
	}
}
