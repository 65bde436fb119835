package main

import (
	stdjson "encoding/json"
	"fmt"
	"io"
	"math/rand"
	"reflect"
	"strings"

	"github.com/katydid/katydid/parser"
	"github.com/katydid/katydid/parser/json"
	protoparser "github.com/katydid/katydid/parser/proto"
	reflectparser "github.com/katydid/katydid/parser/reflect"
	"github.com/katydid/katydid/parser/xml"
	"github.com/katydid/katydid/parser/yaml"
)

// Behaviours of spec/CursorGen: a small document and the moves of a client,
// replayed in the real parsers.

type bval struct {
	K string  `json:"k"`
	C []*bval `json:"c"`
}

type beh struct {
	Doc *bval    `json:"doc"`
	Ops []string `json:"ops"`
}

// replay makes the moves several times, asking differently, each time after
// Init or Reset, and in the end walks through everything.
func (b *beh) replay(p parser.Interface, init, reset func() error) []M {
	steps := []M{}
	step := func(op string, f func(m M)) bool {
		m := M{"op": op, "out": "ok"}
		steps = append(steps, m)
		if x := try(func() { f(m) }); x != "" {
			m["out"], m["detail"] = "panic", x
			return false
		}
		return m["out"] == "ok" || m["out"] == "eof" || m["out"] == "T" || m["out"] == "F"
	}
	start := func(again bool) bool {
		if again && reset != nil {
			return step("reset", func(m M) {
				if err := reset(); err != nil {
					m["out"] = "err"
				}
			})
		}
		return step("init", func(m M) {
			m["d"] = 1
			if err := init(); err != nil {
				m["out"] = "err"
			}
		})
	}
	for variant := 0; variant < 3; variant++ {
		if !start(variant > 0) {
			return steps
		}
		atNode, atEnd, isLeaf, depth := false, false, false, 0
		for _, op := range b.Ops {
			ok := true
			switch op {
			case "N":
				if atEnd {
					return steps // not the document that was meant
				}
				ok = step("next", func(m M) {
					err := p.Next()
					switch {
					case err == nil:
						atNode = true
					case err == io.EOF:
						atNode, atEnd, m["out"] = false, true, "eof"
					default:
						m["out"], m["detail"] = "err", err.Error()
					}
				})
				if !ok || !atNode {
					break
				}
				get := func() bool {
					return step("get", func(m M) { m["got"] = answers(p).JSON() })
				}
				if variant == 1 {
					ok = get()
				}
				ok = ok && step("leaf", func(m M) {
					isLeaf, m["out"] = p.IsLeaf(), "F"
					if isLeaf {
						m["out"] = "T"
					}
				})
				if variant == 0 {
					ok = ok && get()
				}
			case "D":
				if !atNode || isLeaf {
					return steps
				}
				ok = step("down", func(m M) { p.Down() })
				depth++
				atNode, atEnd = false, false
			case "U":
				ok = step("up", func(m M) { p.Up() })
				depth--
				atNode, atEnd = false, false
			}
			if !ok {
				return steps
			}
		}
	}
	if start(true) {
		step("walk", func(m M) {
			left := 500
			t, err := walkAll(p, &left)
			if err != nil {
				m["out"], m["detail"] = "err", err.Error()
			} else {
				m["tree"] = t
			}
		})
	}
	return steps
}

func init() {
	reg := func(name string, f func(r *rand.Rand, b *beh) M) {
		replayers[name] = func(line []byte, idx int) M {
			b := &beh{}
			if err := stdjson.Unmarshal(line, b); err != nil {
				panic(err)
			}
			return f(rng(1, int64(idx), name), b)
		}
	}
	reg("json", func(r *rand.Rand, b *beh) M {
		j := &jdoc{r: r}
		j.ws()
		j.render(b.Doc)
		j.ws()
		s := j.b.String()
		p := json.NewJsonParser()
		st := b.replay(p, func() error { return p.Init([]byte(s)) }, p.Reset)
		return M{"docs": []M{jsonRec(s)}, "steps": st, "text": s + "  ////  " + scheduleText(st)}
	})
	reg("yaml", func(r *rand.Rand, b *beh) M {
		y := &ydoc{r: r, unit: []string{" ", "  ", "\t"}[r.Intn(3)]}
		y.render("", b.Doc)
		s := strings.Join(y.lines, "\n")
		p := yaml.NewYamlParser()
		st := b.replay(p, func() error { return p.Init([]byte(s)) }, p.Reset)
		return M{"docs": []M{{"b": keyBytes([]byte(s)), "nums": textNums(y.texts)}}, "steps": st, "text": s + "  ////  " + scheduleText(st)}
	})
	reg("xml", func(r *rand.Rand, b *beh) M {
		x := &xdoc{r: r}
		x.render("", b.Doc.C[0])
		s := x.b.String()
		p := xml.NewXMLParser()
		st := b.replay(p, func() error { return p.Init([]byte(s)) }, p.Reset)
		no := []int{}
		return M{"docs": []M{{"b": keyBytes([]byte(s)), "nums": textNums(x.texts)}}, "pre": M{"elem": no, "attr": no, "text": no}, "steps": st, "text": s + "  ////  " + scheduleText(st)}
	})
	reg("reflect", func(r *rand.Rand, b *beh) M {
		t := goTypeOf(r, []*bval{b.Doc})
		v := reflect.New(t.t)
		m := t.fill(r, b.Doc, v.Elem())
		p := reflectparser.NewReflectParser()
		st := b.replay(p, func() error { p.Init(v.Elem()); return nil }, nil)
		return M{"docs": []M{m}, "steps": st, "text": fmt.Sprintf("%#v", v.Elem()) + "  ////  " + scheduleText(st)}
	})
	reg("proto", func(r *rand.Rand, b *beh) M {
		s := &pschema{r: r}
		s.typeOf([]*bval{b.Doc})
		buf := s.write(0, b.Doc)
		p, err := protoparser.NewProtoParser("p", "M0", s.desc())
		if err != nil {
			panic(err)
		}
		st := b.replay(p, func() error { return p.Init(buf) }, p.Reset)
		return M{"docs": []M{{"b": keyBytes(buf)}}, "msgs": s.JSON(), "root": 1, "steps": st, "text": s.String() + fmt.Sprintf(" %x", buf) + "  ////  " + scheduleText(st)}
	})
}


func (j *jdoc) render(v *bval) {
	list := func(open, end byte, key bool) {
		j.b.WriteByte(open)
		j.ws()
		for i, c := range v.C {
			if i > 0 {
				j.b.WriteByte(',')
				j.ws()
			}
			if key {
				j.str()
				j.ws()
				j.b.WriteByte(':')
				j.ws()
			}
			j.render(c)
			j.ws()
		}
		j.b.WriteByte(end)
	}
	switch v.K {
	case "map":
		list('{', '}', true)
	case "seq":
		list('[', ']', false)
	default:
		j.val(0)
	}
}

func (y *ydoc) render(ind string, v *bval) {
	sub := ind + strings.Repeat(y.unit, 1+y.n(2))
	for _, c := range v.C {
		switch {
		case v.K == "seq" && c.K == "leaf":
			y.add(ind, "-"+strings.Repeat(" ", 1+y.n(2))+y.scalar(false)+y.trail())
		case v.K == "seq":
			dash := "-" + strings.Repeat(" ", 1+y.n(2))
			if x := c.C[0]; x.K == "leaf" {
				y.add(ind, dash+y.key()+": "+y.scalar(true)+y.trail())
			} else {
				y.add(ind, dash+y.key()+":"+y.trail())
				if y.unit == "\t" {
					y.render(sub, x)
				} else {
					y.render(ind+strings.Repeat(" ", len(dash)+1+y.n(2)), x)
				}
			}
		case c.K == "leaf" && y.n(4) == 0:
			y.add(ind, y.key()+":"+y.trail())
		case c.K == "leaf":
			y.add(ind, y.key()+": "+y.scalar(true)+y.trail())
		default:
			y.add(ind, y.key()+":"+y.trail())
			y.render(sub, c)
		}
	}
}

func (x *xdoc) render(name string, v *bval) {
	if name == "" {
		name = x.name()
	}
	val := func() string {
		t := x.pick("1", "a", "true", "-2.5", "x y", "007")
		x.texts = append(x.texts, t)
		return t
	}
	x.b.WriteString("<" + name)
	rest := v.C
	if v.K == "seq" {
		for i := 0; len(rest) > 0 && rest[0].K == "leaf"; i++ {
			x.sp(1)
			fmt.Fprintf(&x.b, "at%d=\"%s\"", i, val())
			rest = rest[1:]
		}
	}
	x.sp(0)
	if v.K != "leaf" && len(rest) == 0 && x.n(2) == 0 {
		x.b.WriteString("/>")
		return
	}
	x.b.WriteString(">")
	if v.K == "leaf" {
		x.b.WriteString(val())
	}
	for _, c := range rest {
		if x.n(8) == 0 {
			x.b.WriteString("<!-- a -->")
		}
		x.render("", c)
	}
	x.b.WriteString("</" + name)
	x.sp(0)
	x.b.WriteString(">")
}

// goTypeOf makes a type for all the values, which are of one kind
func goTypeOf(r *rand.Rand, vs []*bval) *goType {
	kind := "leaf"
	if len(vs) > 0 {
		kind = vs[0].K
	}
	switch kind {
	case "map":
		t := &goType{kind: "struct"}
		fs := []reflect.StructField{}
		for i := 0; ; i++ {
			by := map[string][]*bval{}
			n := 0
			for _, v := range vs {
				if i < len(v.C) {
					by[v.C[i].K] = append(by[v.C[i].K], v.C[i])
					n++
				}
			}
			if n == 0 {
				break
			}
			for _, k := range []string{"leaf", "map", "seq"} {
				if len(by[k]) == 0 {
					continue
				}
				f := goTypeOf(r, by[k])
				if k != "seq" && (len(by[k]) < len(vs) || r.Intn(2) == 0) {
					f = &goType{kind: "ptr", elem: f, t: reflect.PtrTo(f.t)}
				}
				name := fmt.Sprintf("F%d%s", i, k)
				t.f, t.name = append(t.f, f), append(t.name, name)
				fs = append(fs, reflect.StructField{Name: name, Type: f.t})
			}
		}
		t.t = reflect.StructOf(fs)
		return t
	case "seq":
		es := []*bval{}
		for _, v := range vs {
			es = append(es, v.C...)
		}
		e := goTypeOf(r, es)
		for e.t.Kind() == reflect.Uint8 {
			e = goTypeOf(r, es)
		}
		if len(es) > 0 && r.Intn(3) == 0 {
			e = &goType{kind: "ptr", elem: e, t: reflect.PtrTo(e.t)}
		}
		return &goType{kind: "slice", elem: e, t: reflect.SliceOf(e.t)}
	}
	s := goScalars[r.Intn(len(goScalars))]
	for s.kind == "bytes" {
		s = goScalars[r.Intn(len(goScalars))]
	}
	return &goType{kind: s.kind, t: s.t}
}

func (t *goType) fill(r *rand.Rand, b *bval, v reflect.Value) M {
	switch t.kind {
	case "ptr":
		v.Set(reflect.New(t.elem.t))
		return M{"g": "ptr", "x": t.elem.fill(r, b, v.Elem())}
	case "struct":
		fs := []M{}
		for i, f := range t.f {
			x := M{"g": "nil"}
			var at int
			var kind string
			fmt.Sscanf(t.name[i], "F%d%s", &at, &kind)
			if at < len(b.C) && b.C[at].K == kind {
				x = f.fill(r, b.C[at], v.Field(i))
			}
			fs = append(fs, M{"name": keyBytes([]byte(t.name[i])), "x": x})
		}
		return M{"g": "struct", "f": fs}
	case "slice":
		n := len(b.C)
		v.Set(reflect.MakeSlice(t.t, n, n+r.Intn(2)))
		es := []M{}
		for i := 0; i < n; i++ {
			es = append(es, t.elem.fill(r, b.C[i], v.Index(i)))
		}
		return M{"g": "slice", "e": es}
	}
	return (&goGen{r: r}).val(t, v)
}

// typeOf makes a message type for all the mappings
func (s *pschema) typeOf(vs []*bval) int {
	at := len(s.msgs)
	m := &pmsg{pkg: "p", name: fmt.Sprintf("M%d", at)}
	s.msgs = append(s.msgs, m)
	used := map[int]bool{}
	add := func(i int, kind string, f pfield, sub []*bval) {
		f.name = fmt.Sprintf("f%d%s", i, kind)
		for f.n == 0 || used[f.n] {
			f.n = 1 + s.r.Intn([]int{8, 40, 3000}[s.r.Intn(3)])
		}
		used[f.n] = true
		if len(sub) > 0 {
			f.t, f.m = "msg", s.typeOf(sub)
		} else {
			for f.t == "" || f.t == "msg" {
				f.t = ptypeNames[s.r.Intn(len(ptypeNames))]
			}
		}
		f.pack = f.rep && s.r.Intn(2) == 0
		m.fields = append(m.fields, f)
	}
	for i := 0; ; i++ {
		has, n := map[string][]*bval{}, 0
		for _, v := range vs {
			if i < len(v.C) {
				n++
				c := v.C[i]
				switch {
				case c.K != "seq":
					has[c.K] = append(has[c.K], c)
				case c.C[0].K == "leaf":
					has["leaves"] = append(has["leaves"], c)
				default:
					has["maps"] = append(has["maps"], c.C...)
				}
			}
		}
		if n == 0 {
			return at
		}
		if len(has["leaf"]) > 0 {
			add(i, "leaf", pfield{}, nil)
		}
		if len(has["map"]) > 0 {
			add(i, "map", pfield{}, has["map"])
		}
		if len(has["leaves"]) > 0 {
			add(i, "leaves", pfield{rep: true}, nil)
		}
		if len(has["maps"]) > 0 {
			add(i, "maps", pfield{rep: true}, has["maps"])
		}
	}
}

func (s *pschema) write(mi int, v *bval) []byte {
	out := []byte{}
	for i, c := range v.C {
		kind, els := c.K, []*bval{c}
		if kind == "seq" {
			kind, els = map[string]string{"leaf": "leaves", "map": "maps"}[c.C[0].K], c.C
		}
		for _, f := range s.msgs[mi].fields {
			if f.name != fmt.Sprintf("f%d%s", i, kind) {
				continue
			}
			wt := wireOf(f.t)
			pack := f.rep && wt != 2 && f.pack
			packed := []byte{}
			for _, e := range els {
				b := []byte{}
				if f.t == "msg" {
					b = s.write(f.m, e)
				} else {
					b = s.value(f, 0)
				}
				if pack {
					packed = append(packed, b...)
				} else {
					out = append(out, s.key(f.n, wt)...)
					out = append(out, s.withLen(b, wt)...)
				}
			}
			if pack {
				out = append(out, s.key(f.n, 2)...)
				out = append(out, s.withLen(packed, 2)...)
			}
		}
		if s.r.Intn(10) == 0 { // unknown field
			out = append(out, s.field(pfield{n: 5000 + s.r.Intn(3), t: []string{"int64", "double", "float", "bytes"}[s.r.Intn(4)]}, 0)...)
		}
	}
	return out
}

