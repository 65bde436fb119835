package main

import (
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"strings"

	reflectparser "github.com/katydid/katydid/parser/reflect"
)

// goVal makes a Go value together with its description
type goGen struct {
	r    *rand.Rand
	left int
	big  int // 1 deep, 2 wide
}

type goType struct {
	t    reflect.Type
	kind string // scalar accessor, struct, slice, ptr, bytes, opaque
	elem *goType
	f    []*goType
	name []string
}

var goScalars = []struct {
	t    reflect.Type
	kind string
}{
	{reflect.TypeOf(float64(0)), "double"}, {reflect.TypeOf(float32(0)), "double"},
	{reflect.TypeOf(int64(0)), "int"}, {reflect.TypeOf(int32(0)), "int"}, {reflect.TypeOf(int(0)), "int"}, {reflect.TypeOf(int16(0)), "int"}, {reflect.TypeOf(int8(0)), "int"},
	{reflect.TypeOf(uint64(0)), "uint"}, {reflect.TypeOf(uint32(0)), "uint"}, {reflect.TypeOf(uint(0)), "uint"}, {reflect.TypeOf(uint16(0)), "uint"}, {reflect.TypeOf(uint8(0)), "uint"},
	{reflect.TypeOf(false), "bool"}, {reflect.TypeOf(""), "string"}, {reflect.TypeOf(""), "string"}, {reflect.TypeOf([]byte{}), "bytes"}, {reflect.TypeOf([]byte{}), "bytes"},
	{reflect.TypeOf(goNamed(0)), "int"}, {reflect.TypeOf(goBytes{}), "bytes"},
}

type goNamed int32
type goBytes []byte

func (g *goGen) typ(d int) *goType {
	k := g.r.Intn(10)
	if g.big == 1 {
		k = g.r.Intn(8)
	}
	if d <= 0 {
		k = 9
	}
	switch {
	case k < 3:
		t := &goType{kind: "struct"}
		fs := []reflect.StructField{}
		i := g.r.Intn(5)
		deepest := 0
		if g.big == 1 {
			i = 1 + g.r.Intn(2)
			deepest = 1 + g.r.Intn(i)
		} else if g.big == 2 {
			i = 12 + g.r.Intn(20)
		}
		for ; i > 0; i-- {
			dd := d - 1
			if g.big == 1 && i != deepest || g.big == 2 && i%7 > 0 {
				dd = 0
			}
			f := g.typ(dd)
			n := string(rune('A'+len(fs)%26)) + strings.Repeat("z", len(fs)/26) + []string{"", "b", "_c", "XXX"}[g.r.Intn(4)]
			t.f, t.name = append(t.f, f), append(t.name, n)
			fs = append(fs, reflect.StructField{Name: n, Type: f.t})
		}
		t.t = reflect.StructOf(fs)
		return t
	case k < 6:
		e := g.typ(d - 1)
		if e.t.Kind() == reflect.Uint8 {
			return e
		}
		return &goType{kind: "slice", elem: e, t: reflect.SliceOf(e.t)}
	case k < 8:
		e := g.typ(d - 1)
		if e.kind == "ptr" {
			return e
		}
		return &goType{kind: "ptr", elem: e, t: reflect.PtrTo(e.t)}
	case k == 8 && g.r.Intn(3) == 0:
		return &goType{kind: "opaque", t: []reflect.Type{reflect.TypeOf(map[string]int{}), reflect.TypeOf([2]int32{}), reflect.TypeOf(func() {}), reflect.TypeOf((*error)(nil)).Elem(), reflect.TypeOf(complex(1, 1))}[g.r.Intn(5)]}
	}
	s := goScalars[g.r.Intn(len(goScalars))]
	return &goType{kind: s.kind, t: s.t}
}

func (g *goGen) val(t *goType, v reflect.Value) M {
	g.left--
	switch t.kind {
	case "struct":
		fs := []M{}
		for i, f := range t.f {
			fs = append(fs, M{"name": keyBytes([]byte(t.name[i])), "x": g.val(f, v.Field(i))})
		}
		return M{"g": "struct", "f": fs}
	case "slice":
		if g.r.Intn(5) == 0 && g.big == 0 {
			return M{"g": "nil"}
		}
		n := g.r.Intn(4)
		if g.left < 0 {
			n = 0
		}
		if g.big == 1 {
			n = 1
			if g.left > 0 && g.r.Intn(8) == 0 {
				n = 2
			}
		} else if g.big == 2 && g.left > 0 {
			n = 10 + g.r.Intn(60)
			if t.elem.kind == "struct" {
				n = 1 + g.r.Intn(4)
			}
		}
		v.Set(reflect.MakeSlice(t.t, n, n+g.r.Intn(2)))
		es := []M{}
		for i := 0; i < n; i++ {
			es = append(es, g.val(t.elem, v.Index(i)))
		}
		return M{"g": "slice", "e": es}
	case "ptr":
		if g.r.Intn(5) == 0 && g.big == 0 {
			return M{"g": "nil"}
		}
		v.Set(reflect.New(t.elem.t))
		return M{"g": "ptr", "x": g.val(t.elem, v.Elem())}
	case "opaque":
		return M{"g": "opaque"}
	case "bytes":
		if g.r.Intn(5) == 0 {
			return M{"g": "nil", "bytes": true}
		}
		b := []byte([]string{"", "a", "\x00\xff", "abc"}[g.r.Intn(4)])
		v.SetBytes(b)
		return M{"g": "scalar", "t": "bytes", "v": keyBytes(b)}
	case "double":
		x := []float64{0, 1, -1.5, 0.25, math.Inf(1), math.NaN(), 1e30, 1024}[g.r.Intn(8)]
		v.SetFloat(x)
		return M{"g": "scalar", "t": "double", "v": keyDouble(v.Float())}
	case "int":
		x := []int64{0, 1, -1, 42, -128, 127, math.MaxInt64, math.MinInt64, math.MaxInt32, math.MinInt32}[g.r.Intn(10)]
		for v.OverflowInt(x) {
			x >>= 8
		}
		v.SetInt(x)
		return M{"g": "scalar", "t": "int", "v": keyInt(x)}
	case "uint":
		x := []uint64{0, 1, 200, 255, math.MaxUint64, math.MaxUint32, 1 << 63}[g.r.Intn(7)]
		for v.OverflowUint(x) {
			x >>= 8
		}
		v.SetUint(x)
		return M{"g": "scalar", "t": "uint", "v": keyUint(x)}
	case "bool":
		x := g.r.Intn(2) == 0
		v.SetBool(x)
		return M{"g": "scalar", "t": "bool", "v": x}
	}
	x := []string{"", "a", "abc", "\xff"}[g.r.Intn(4)]
	v.SetString(x)
	return M{"g": "scalar", "t": "string", "v": keyBytes([]byte(x))}
}

// elements of a slice and values that are not fields are there even if they are nil
func unNil(m M, field bool) {
	switch m["g"] {
	case "struct":
		for _, f := range m["f"].([]M) {
			unNil(f["x"].(M), true)
		}
	case "slice":
		for _, e := range m["e"].([]M) {
			unNil(e, false)
		}
	case "ptr":
		unNil(m["x"].(M), false)
	case "nil":
		if !field {
			if m["bytes"] != nil { // no bytes
				m["g"], m["t"], m["v"] = "scalar", "bytes", []int{}
			} else if m["slice"] != nil { // no elements
				m["g"], m["e"] = "slice", []M{}
			} else { // a leaf without a value
				m["g"] = "opaque"
			}
		}
	}
}

func init() {
	makers["P06"] = func(r *rand.Rand, idx int, tier string) M {
		nd := 1 + r.Intn(2)
		big := r.Intn(25) == 0
		docs, vals, texts := []M{}, []reflect.Value{}, []string{}
		for i := 0; i < nd; i++ {
			g := &goGen{r: r, left: 25}
			d := 1 + r.Intn(4)
			if big {
				g.big, g.left = 1, 60
				if r.Intn(3) == 0 {
					g.big, d = 2, 2
				} else {
					d = 10 + r.Intn(20)
				}
			}
			t := g.typ(d)
			v := reflect.New(t.t)
			m := g.val(t, v.Elem())
			if t.kind == "slice" && m["g"] == "nil" {
				m["slice"] = true
			}
			markSlices(t, m)
			unNil(m, false)
			docs = append(docs, m)
			if r.Intn(2) == 0 && t.kind != "ptr" {
				vals = append(vals, v)
			} else {
				vals = append(vals, v.Elem())
			}
			x := fmt.Sprintf("%#v", v.Elem())
			if len(x) > 300 {
				x = x[:300]
			}
			texts = append(texts, x)
		}
		p := reflectparser.NewReflectParser()
		d := &Drive{r: r, p: p, ndocs: nd, good: func(i int) bool { return true },
			init: func(i int) error { p.Init(vals[i]); return nil }}
		d.deep = big
		d.run(steps(r, big))
		return M{"docs": docs, "steps": d.steps, "text": strings.Join(texts, "  ////  ") + "  ////  " + scheduleText(d.steps)}
	}
}

func markSlices(t *goType, m M) {
	switch {
	case m["g"] == "nil" && t.kind == "slice":
		m["slice"] = true
	case m["g"] == "struct":
		for i, f := range m["f"].([]M) {
			markSlices(t.f[i], f["x"].(M))
		}
	case m["g"] == "slice":
		for _, e := range m["e"].([]M) {
			markSlices(t.elem, e)
		}
	case m["g"] == "ptr":
		markSlices(t.elem, m["x"].(M))
	}
}
