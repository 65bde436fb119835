package main

import (
	"fmt"
	"math"
	"math/rand"

	protoenc "github.com/katydid/katydid/encode/proto"
	"github.com/katydid/katydid/parser"
)

// fieldLeaf is a value of the type
func (g *encGen) fieldLeaf(s *pschema, t string) *Node {
	u := s.num()
	l := Label{}
	switch t {
	case "double":
		l = LDbl([]float64{0, 1, -1.5, 0.1, math.Inf(1), math.NaN(), math.MaxFloat64, 5e-324, g.r.NormFloat64()}[g.n(9)])
	case "float":
		l = LDbl(float64([]float32{0, 1, -1.5, 0.1, float32(math.Inf(-1)), math.MaxFloat32, 1e-45, 1e-39, float32(g.r.NormFloat64())}[g.n(9)]))
	case "int64", "sfixed64", "sint64":
		l = LInt(int64(u))
	case "int32", "enum", "sfixed32", "sint32":
		l = LInt(int64(int32(u)))
	case "uint64", "fixed64":
		l = LUint(u)
	case "uint32", "fixed32":
		l = LUint(uint64(uint32(u)))
	case "bool":
		l = LBool(u%2 == 0)
	case "string":
		l = LStr([]string{"", "a", "abc", "é", "\x00", "\xff", "\x08\x01", "0123456789012345678901234567890123456789"}[g.n(8)])
	default:
		l = LBytes([]byte([]string{"", "a", "abc", "\xff\x00", "0123456789012345678901234567890123456789"}[g.n(5)]))
	}
	if g.big == 3 && t == "string" {
		l = LStr(g.longString())
	}
	if g.odd > 0 && g.n(g.odd) == 0 {
		l = g.leafLabel()
	}
	if g.n(8) == 0 { // answers more than one accessor
		o := g.leafLabel()
		if l.D == nil && t != "double" && t != "float" {
			l.D = o.D
		}
		if l.S == nil {
			l.S = o.S
		}
		if !l.HasY {
			l.HasY, l.Y = o.HasY, o.Y
		}
	}
	g.left--
	return &Node{L: l, Leaf: true}
}

func (g *encGen) protoVal(s *pschema, f pfield, d int) []*Node {
	if g.odd > 0 && g.n(g.odd) == 0 {
		return g.level(1)
	}
	if f.t == "msg" {
		return g.protoMsg(s, f.m, d-1)
	}
	if g.n(15) == 0 {
		return nil
	}
	return []*Node{g.fieldLeaf(s, f.t)}
}

func (g *encGen) protoMsg(s *pschema, m, d int) []*Node {
	ns := []*Node{}
	fs := s.msgs[m].fields
	down := false
	for k := g.n(5); k > 0 || g.big == 1 && d > 0 && !down && s.leads(m) && k > -50; k-- {
		f := fs[g.n(len(fs))]
		if f.t == "msg" && (d <= 0 || g.left < 0 || g.big == 1 && (down || !s.leads(f.m))) {
			continue
		}
		if f.t == "msg" {
			down = true
		}
		g.left--
		if g.n(10) == 0 {
			ns = append(ns, &Node{L: LStr("unknown"), C: g.level(1)})
		}
		n := &Node{L: LStr(f.name)}
		if f.rep {
			j := g.n(4)
			if g.big == 1 && f.t == "msg" {
				j = 1
			} else if g.big == 2 && f.t != "msg" {
				j = 10 + g.n(60)
			}
			for ; j > 0; j-- {
				n.C = append(n.C, &Node{L: LInt(int64(len(n.C))), C: g.protoVal(s, f, d)})
			}
		} else {
			n.C = g.protoVal(s, f, d)
		}
		ns = append(ns, n)
	}
	return ns
}

func init() {
	makers["E03"] = func(r *rand.Rand, idx int, tier string) M {
		s := newSchema(r)
		for _, m := range s.msgs {
			for i := range m.fields {
				m.fields[i].ext, m.fields[i].pack = false, false
			}
		}
		g := &encGen{r: r, names: []string{"a", "b", "ax", "c_y"}, left: 20}
		if r.Intn(3) == 0 {
			g.odd = 20
		}
		var enc protoenc.Encoder
		var err error
		bufs := ""
		if x := try(func() { enc, err = protoenc.NewEncoder(s.desc(), "p", "M0") }); x != "" || err != nil {
			return M{"tree": []M{}, "out": "panic", "failed": false, "bad": []string{}, "detail": fmt.Sprint(x, err), "msgs": s.JSON(), "b": []int{}, "text": s.String()}
		}
		var buf []byte
		var m M
		var tree []*Node
		for i := 1 + r.Intn(2); i > 0; i-- {
			g.left, g.big = 20, 0
			d := g.pickBig(1 + r.Intn(3))
			if g.big > 0 {
				g.left = 100
			}
			tree = g.protoMsg(s, 0, d)
			if r.Intn(2) == 0 || buf == nil {
				buf = make([]byte, []int{0, 1, 5, 10, 20, 30, 100, 1000}[r.Intn(8)])
				r.Read(buf)
			}
			bufs += fmt.Sprint(len(buf), " ")
			var out []byte
			m = encRun(r, tree, func(p parser.Interface) (err error) {
				out, err = enc.Encode(buf, p)
				return
			})
			buf = out
		}
		m["b"] = keyBytes(buf)
		m["msgs"] = s.JSON()
		m["text"] = s.String() + "  ////  " + nodesString(tree) + fmt.Sprintf("  =>  %x", buf) + " buffers " + bufs
		return m
	}
}
