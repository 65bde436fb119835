package main

import (
	"encoding/binary"
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"strings"

	"github.com/katydid/katydid/relapse/ast"
	"github.com/katydid/katydid/relapse/types"
)

// message is what every type of relapse.proto has
type message interface {
	Marshal() ([]byte, error)
	MarshalTo([]byte) (int, error)
	Unmarshal([]byte) error
	Size() int
	Reset()
}

// dumpMsg writes down the fields that a message has
func dumpMsg(v reflect.Value) M {
	m := M{}
	t := v.Type()
	for i := 0; i < t.NumField(); i++ {
		f, name := v.Field(i), t.Field(i).Name
		if strings.HasPrefix(name, "XXX") {
			continue
		}
		switch {
		case f.Kind() == reflect.Slice && f.Type().Elem().Kind() == reflect.Uint8:
			if !f.IsNil() {
				m[name] = keyBytes(f.Bytes())
			}
		case f.Kind() == reflect.Slice:
			es := []interface{}{}
			for j := 0; j < f.Len(); j++ {
				es = append(es, dumpVal(f.Index(j)))
			}
			if len(es) > 0 {
				m[name] = es
			}
		case f.Kind() == reflect.Ptr:
			if !f.IsNil() {
				m[name] = dumpVal(f)
			}
		default:
			m[name] = dumpVal(f)
		}
	}
	return m
}

func dumpVal(v reflect.Value) interface{} {
	if v.Kind() == reflect.Ptr {
		if v.IsNil() {
			return "nil"
		}
		v = v.Elem()
	}
	switch v.Kind() {
	case reflect.Struct:
		return dumpMsg(v)
	case reflect.String:
		return keyBytes([]byte(v.String()))
	case reflect.Float64:
		return keyDouble(v.Float())
	case reflect.Int64, reflect.Int32:
		return keyInt(v.Int())
	case reflect.Uint64:
		return keyUint(v.Uint())
	case reflect.Bool:
		return v.Bool()
	}
	panic("verif: unexpected field")
}

// fillMsg makes up a message
func fillMsg(r *rand.Rand, v reflect.Value, d int) {
	t := v.Type()
	dense := 1 + r.Intn(4)
	for i := 0; i < t.NumField(); i++ {
		f := v.Field(i)
		if strings.HasPrefix(t.Field(i).Name, "XXX") || r.Intn(4) >= dense {
			continue
		}
		fillVal(r, f, d)
	}
}

func fillVal(r *rand.Rand, f reflect.Value, d int) {
	text := func() string {
		if r.Intn(30) == 0 {
			return strings.Repeat("ab", []int{63, 64, 65, 100}[r.Intn(4)])
		}
		return []string{"", "a", "é", " // c\n", "x\x00y"}[r.Intn(5)]
	}
	switch f.Kind() {
	case reflect.Ptr:
		if f.Type().Elem().Kind() == reflect.Struct && d <= 0 {
			return
		}
		f.Set(reflect.New(f.Type().Elem()))
		fillVal(r, f.Elem(), d-1)
	case reflect.Struct:
		fillMsg(r, f, d)
	case reflect.Slice:
		if f.Type().Elem().Kind() == reflect.Uint8 {
			f.SetBytes([]byte(text()))
			return
		}
		n := r.Intn(4)
		s := reflect.MakeSlice(f.Type(), 0, n)
		for ; n > 0; n-- {
			e := reflect.New(f.Type().Elem()).Elem()
			if e.Kind() == reflect.Ptr {
				e.Set(reflect.New(e.Type().Elem()))
				fillMsg(r, e.Elem(), d-1)
			} else {
				e.SetString(text())
			}
			s = reflect.Append(s, e)
		}
		f.Set(s)
	case reflect.String:
		f.SetString(text())
	case reflect.Float64:
		f.SetFloat([]float64{0, 1, -1.5, math.Inf(1), math.NaN(), math.MaxFloat64, 5e-324, r.NormFloat64()}[r.Intn(8)])
	case reflect.Int64:
		f.SetInt([]int64{0, 1, -1, 127, 128, 1 << 32, math.MaxInt64, math.MinInt64, r.Int63()}[r.Intn(9)])
	case reflect.Uint64:
		f.SetUint([]uint64{0, 1, 127, 128, 16383, 16384, 1 << 32, 1 << 63, math.MaxUint64, r.Uint64()}[r.Intn(10)])
	case reflect.Int32:
		f.SetInt(int64([]types.Type{types.UNKNOWN, types.SINGLE_DOUBLE, types.SINGLE_BYTES, types.LIST_DOUBLE, types.LIST_BYTES, -1, 1 << 20}[r.Intn(7)]))
	case reflect.Bool:
		f.SetBool(r.Intn(2) == 0)
	}
}

var msgTypes = []message{&ast.Grammar{}, &ast.Grammar{}, &ast.Grammar{}, &ast.PatternDecl{}, &ast.Pattern{}, &ast.Pattern{}, &ast.Empty{}, &ast.TreeNode{}, &ast.Contains{}, &ast.LeafNode{}, &ast.Concat{},
	&ast.Or{}, &ast.And{}, &ast.ZeroOrMore{}, &ast.Reference{}, &ast.Not{}, &ast.ZAny{}, &ast.Optional{}, &ast.Interleave{}, &ast.Expr{}, &ast.Expr{}, &ast.List{}, &ast.Function{}, &ast.BuiltIn{},
	&ast.Terminal{}, &ast.Terminal{}, &ast.Variable{}, &ast.Keyword{}, &ast.Space{}, &ast.NameExpr{}, &ast.Name{}, &ast.Name{}, &ast.AnyName{}, &ast.AnyNameExcept{}, &ast.NameChoice{}}

// parts of a stored message: each with its key
func wireParts(b []byte) [][]byte {
	ps := [][]byte{}
	for len(b) > 0 {
		k, n := binary.Uvarint(b)
		if n <= 0 {
			return append(ps, b)
		}
		e := n
		switch k & 7 {
		case 0:
			_, m := binary.Uvarint(b[n:])
			e += m
		case 1:
			e += 8
		case 5:
			e += 4
		case 2:
			l, m := binary.Uvarint(b[n:])
			e += m + int(l)
		}
		if e > len(b) || e <= 0 {
			return append(ps, b)
		}
		ps, b = append(ps, b[:e]), b[e:]
	}
	return ps
}

func init() {
	makers["A05"] = func(r *rand.Rand, idx int, tier string) M {
		var msg message
		text := ""
		if r.Intn(3) == 0 { // a grammar
			s := &synGen{Gen: NewGen(r, GenOpt{Depth: 2})}
			s.gram(r.Intn(3))
			for len(s.out) > 60 {
				s.out = nil
				s.gram(1)
			}
			text = render(r, s.out, []int{0, 2, 5}[r.Intn(3)], func(t *Tok) string { return t.text })
			_, g, _ := parseLin(text)
			if g == nil {
				return nil
			}
			msg = g
		} else {
			t := reflect.TypeOf(msgTypes[r.Intn(len(msgTypes))]).Elem()
			v := reflect.New(t)
			fillMsg(r, v.Elem(), 1+r.Intn(4))
			msg = v.Interface().(message)
			for tries := 0; msg.Size() > 300 && tries < 20; tries++ {
				v.Elem().Set(reflect.Zero(t))
				fillMsg(r, v.Elem(), 1+r.Intn(3))
			}
			text = fmt.Sprintf("%T", msg)
		}
		typ := reflect.TypeOf(msg).Elem()
		dump := func() M { return dumpMsg(reflect.ValueOf(msg).Elem()) }
		steps := []M{{"op": "set", "v": dump(), "out": "ok"}}
		step := func(op string, f func(m M) error) bool {
			m := M{"op": op, "out": "ok"}
			steps = append(steps, m)
			if x := try(func() {
				if err := f(m); err != nil {
					m["out"], m["detail"] = "err", err.Error()
				}
			}); x != "" {
				m["out"], m["detail"] = "panic", x
				return false
			}
			return m["out"] == "ok"
		}
		last := []byte{}
		marshal := func() bool {
			return step("marshal", func(m M) error {
				m["size"], m["b"] = msg.Size(), []int{}
				var b []byte
				var err error
				if r.Intn(2) == 0 {
					b, err = msg.Marshal()
				} else {
					b = make([]byte, msg.Size()+r.Intn(3))
					var n int
					n, err = msg.MarshalTo(b)
					b = b[:n]
				}
				m["b"] = keyBytes(b)
				last = append([]byte{}, b...)
				return err
			})
		}
		ok := marshal()
		for n := 1 + r.Intn(5); n > 0 && ok; n-- {
			switch k := r.Intn(6); {
			case k < 4:
				b := append([]byte{}, last...)
				ps := wireParts(b)
				add := func(p []byte) {
					at := r.Intn(len(ps) + 1)
					ps = append(ps[:at], append([][]byte{p}, ps[at:]...)...)
				}
				switch r.Intn(8) {
				case 0: // in another order, some of them twice
					b = nil
					if len(ps) > 0 && r.Intn(2) == 0 {
						add(ps[r.Intn(len(ps))])
					}
					for _, i := range r.Perm(len(ps)) {
						b = append(b, ps[i]...)
					}
				case 1: // with fields that are not known
					s := &pschema{r: r}
					add(s.field(pfield{n: []int{17, 77, 5000}[r.Intn(3)], t: []string{"int64", "double", "float", "bytes"}[r.Intn(4)]}, 0))
					b = nil
					for _, p := range ps {
						b = append(b, p...)
					}
				case 2, 3:
					if len(b) > 0 {
						b = b[:r.Intn(len(b))]
					}
				case 4:
					b = spoilBytes(r, b)
				}
				b = append(make([]byte, 0, len(b)), b...)
				op := "load"
				if k == 3 && len(b) < 150 {
					op = "merge"
				} else {
					msg = reflect.New(typ).Interface().(message)
				}
				ok = step(op, func(m M) error {
					m["b"] = keyBytes(b)
					err := msg.Unmarshal(b)
					for i := range b { // what was read does not depend on the bytes any more
						b[i] ^= 0xff
					}
					m["v"] = dump()
					return err
				})
			default:
				ok = marshal()
			}
		}
		return M{"root": typ.Name(), "steps": steps, "text": text}
	}
}
