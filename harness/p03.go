package main

import (
	"encoding/binary"
	"fmt"
	"math"
	"math/rand"
	"strings"

	"github.com/gogo/protobuf/proto"
	"github.com/gogo/protobuf/protoc-gen-gogo/descriptor"
	protoparser "github.com/katydid/katydid/parser/proto"
)

type pfield struct {
	n    int
	name string
	t    string
	rep  bool
	m    int // index of the message
	ext  bool
	pack bool
}

type pmsg struct {
	pkg, name, parent string
	fields            []pfield
}

type pschema struct {
	r    *rand.Rand
	msgs []*pmsg
	big  int // 1 deep, 2 wide, 3 long
}

var ptypes = map[string]descriptor.FieldDescriptorProto_Type{
	"double": descriptor.FieldDescriptorProto_TYPE_DOUBLE, "float": descriptor.FieldDescriptorProto_TYPE_FLOAT,
	"int64": descriptor.FieldDescriptorProto_TYPE_INT64, "uint64": descriptor.FieldDescriptorProto_TYPE_UINT64,
	"int32": descriptor.FieldDescriptorProto_TYPE_INT32, "fixed64": descriptor.FieldDescriptorProto_TYPE_FIXED64,
	"fixed32": descriptor.FieldDescriptorProto_TYPE_FIXED32, "bool": descriptor.FieldDescriptorProto_TYPE_BOOL,
	"string": descriptor.FieldDescriptorProto_TYPE_STRING, "msg": descriptor.FieldDescriptorProto_TYPE_MESSAGE,
	"bytes": descriptor.FieldDescriptorProto_TYPE_BYTES, "uint32": descriptor.FieldDescriptorProto_TYPE_UINT32,
	"enum": descriptor.FieldDescriptorProto_TYPE_ENUM, "sfixed32": descriptor.FieldDescriptorProto_TYPE_SFIXED32,
	"sfixed64": descriptor.FieldDescriptorProto_TYPE_SFIXED64, "sint32": descriptor.FieldDescriptorProto_TYPE_SINT32,
	"sint64": descriptor.FieldDescriptorProto_TYPE_SINT64,
}
var ptypeNames = []string{"double", "float", "int64", "uint64", "int32", "fixed64", "fixed32", "bool", "string", "msg", "msg", "msg", "bytes", "uint32", "enum", "sfixed32", "sfixed64", "sint32", "sint64", "string"}

func newSchema(r *rand.Rand) *pschema {
	s := &pschema{r: r}
	n := 1 + r.Intn(4)
	for i := 0; i < n; i++ {
		m := &pmsg{pkg: "p", name: fmt.Sprintf("M%d", i)}
		switch i {
		case 2:
			m.parent = "M0"
		case 3:
			m.pkg = "q.r"
		}
		used := map[int]bool{}
		for k := r.Intn(5); k >= 0; k-- {
			f := pfield{n: 1 + r.Intn([]int{4, 15, 40, 3000, 1 << 28}[r.Intn(5)]), name: string(rune('a'+len(m.fields))) + []string{"", "x", "_y"}[r.Intn(3)], t: ptypeNames[r.Intn(len(ptypeNames))], rep: r.Intn(5) < 2}
			if used[f.n] || f.n >= 19000 && f.n < 20000 {
				continue
			}
			used[f.n] = true
			f.m = r.Intn(n)
			f.pack = r.Intn(2) == 0
			f.ext = r.Intn(6) == 0 && m.parent == ""
			m.fields = append(m.fields, f)
		}
		s.msgs = append(s.msgs, m)
	}
	return s
}

func (m *pmsg) full() string {
	if m.parent != "" {
		return "." + m.pkg + "." + m.parent + "." + m.name
	}
	return "." + m.pkg + "." + m.name
}

func (s *pschema) desc() *descriptor.FileDescriptorSet {
	files := map[string]*descriptor.FileDescriptorProto{}
	set := &descriptor.FileDescriptorSet{}
	for _, p := range []string{"p", "q.r"} {
		files[p] = &descriptor.FileDescriptorProto{Name: proto.String(p + ".proto"), Package: proto.String(p)}
		set.File = append(set.File, files[p])
	}
	tops := map[string]*descriptor.DescriptorProto{}
	for _, m := range s.msgs {
		d := &descriptor.DescriptorProto{Name: proto.String(m.name)}
		for _, f := range m.fields {
			lab := descriptor.FieldDescriptorProto_LABEL_OPTIONAL
			if f.rep {
				lab = descriptor.FieldDescriptorProto_LABEL_REPEATED
			}
			t := ptypes[f.t]
			fd := &descriptor.FieldDescriptorProto{Name: proto.String(f.name), Number: proto.Int32(int32(f.n)), Label: &lab, Type: &t}
			if f.t == "msg" {
				fd.TypeName = proto.String(s.msgs[f.m].full())
			}
			if f.t == "enum" {
				fd.TypeName = proto.String(".p.E")
			}
			if f.rep && f.pack && f.t != "msg" && f.t != "string" && f.t != "bytes" {
				fd.Options = &descriptor.FieldOptions{Packed: proto.Bool(true)}
			}
			if f.ext {
				fd.Extendee = proto.String(m.full())
				d.ExtensionRange = []*descriptor.DescriptorProto_ExtensionRange{{Start: proto.Int32(1), End: proto.Int32(1 << 29)}}
				file := "p"
				if len(s.msgs) > 3 && f.n%2 == 0 {
					file = "q.r"
				}
				files[file].Extension = append(files[file].Extension, fd)
			} else {
				d.Field = append(d.Field, fd)
			}
		}
		if m.parent != "" {
			tops[m.parent].NestedType = append(tops[m.parent].NestedType, d)
		} else {
			tops[m.name] = d
			files[m.pkg].MessageType = append(files[m.pkg].MessageType, d)
		}
	}
	return set
}

func (s *pschema) JSON() []M {
	ms := []M{}
	for _, m := range s.msgs {
		fs := []M{}
		for _, f := range m.fields {
			fs = append(fs, M{"n": f.n, "name": keyBytes([]byte(f.name)), "t": f.t, "rep": f.rep, "m": f.m + 1})
		}
		ms = append(ms, M{"fields": fs})
	}
	return ms
}

func (s *pschema) String() string {
	ss := []string{}
	for _, m := range s.msgs {
		x := m.full() + "{"
		for _, f := range m.fields {
			if f.rep {
				x += "repeated "
			}
			t := f.t
			if t == "msg" {
				t = s.msgs[f.m].full()
			}
			x += t + " " + f.name + "=" + fmt.Sprint(f.n)
			if f.ext {
				x += " ext"
			}
			x += "; "
		}
		ss = append(ss, x+"}")
	}
	return strings.Join(ss, " ")
}

func (s *pschema) varint(u uint64) []byte {
	b := make([]byte, 10)
	b = b[:binary.PutUvarint(b, u)]
	if len(b) < 9 && s.r.Intn(12) == 0 { // longer than needed
		b[len(b)-1] |= 0x80
		b = append(b, 0)
	}
	return b
}

func (s *pschema) num() uint64 {
	switch s.r.Intn(5) {
	case 0:
		return s.r.Uint64()
	case 1:
		return []uint64{0, 1, 127, 128, 300, math.MaxInt32, math.MaxUint32, 1 << 31, 1 << 32, math.MaxInt64, 1 << 63, math.MaxUint64, math.MaxUint64 - 1, 0xffffffff80000000}[s.r.Intn(14)]
	case 2:
		return uint64(-int64(s.r.Intn(300)))
	}
	return uint64(s.r.Intn(300))
}

func wireOf(t string) int {
	switch t {
	case "double", "fixed64", "sfixed64":
		return 1
	case "float", "fixed32", "sfixed32":
		return 5
	case "string", "bytes", "msg":
		return 2
	}
	return 0
}

// value writes a value without its key and length
func (s *pschema) value(f pfield, d int) []byte {
	switch f.t {
	case "double":
		b := make([]byte, 8)
		v := []float64{0, 1, -1.5, 3.25, math.Inf(1), math.NaN(), math.Copysign(0, -1), math.MaxFloat64, 5e-324, s.r.NormFloat64()}[s.r.Intn(10)]
		binary.LittleEndian.PutUint64(b, math.Float64bits(v))
		return b
	case "float":
		b := make([]byte, 4)
		v := []float32{0, 1, -1.5, 3.25, float32(math.Inf(-1)), float32(math.NaN()), float32(math.Copysign(0, -1)), math.MaxFloat32, 1e-45, 1e-39, float32(s.r.NormFloat64())}[s.r.Intn(11)]
		binary.LittleEndian.PutUint32(b, math.Float32bits(v))
		return b
	case "fixed64", "sfixed64":
		b := make([]byte, 8)
		binary.LittleEndian.PutUint64(b, s.num())
		return b
	case "fixed32", "sfixed32":
		b := make([]byte, 4)
		binary.LittleEndian.PutUint32(b, uint32(s.num()))
		return b
	case "string", "bytes":
		if s.big == 3 && s.r.Intn(2) == 0 {
			return []byte(strings.Repeat([]string{"a", "xyz", "é"}[s.r.Intn(3)], []int{126, 127, 128, 150}[s.r.Intn(4)]))
		}
		return []byte([]string{"", "a", "ab", "é", "\x00", "\xff", "\x08\x01"}[s.r.Intn(7)])
	case "msg":
		return s.message(f.m, d-1)
	case "bool":
		return s.varint(uint64(s.r.Intn(3)))
	}
	return s.varint(s.num())
}

func (s *pschema) key(n, wt int) []byte { return s.varint(uint64(n)<<3 | uint64(wt)) }

func (s *pschema) withLen(b []byte, wt int) []byte {
	if wt == 2 {
		return append(s.varint(uint64(len(b))), b...)
	}
	return b
}

// field writes one occurrence of a field
func (s *pschema) field(f pfield, d int) []byte {
	wt := wireOf(f.t)
	if !f.rep {
		return append(s.key(f.n, wt), s.withLen(s.value(f, d), wt)...)
	}
	out := []byte{}
	k := s.r.Intn(4)
	if s.big == 2 && (wt != 2 || s.r.Intn(2) == 0) {
		k = 20 + s.r.Intn(60)
		d = 0
	}
	if wt != 2 && (f.pack != (s.r.Intn(8) == 0)) {
		for ; k > 0; k-- {
			out = append(out, s.value(f, d)...)
		}
		return append(s.key(f.n, 2), s.withLen(out, 2)...)
	}
	for ; k >= 0; k-- {
		out = append(out, s.key(f.n, wt)...)
		out = append(out, s.withLen(s.value(f, d), wt)...)
	}
	return out
}

// leads says whether a message can contain messages
func (s *pschema) leads(m int) bool {
	for _, f := range s.msgs[m].fields {
		if f.t == "msg" {
			return true
		}
	}
	return false
}

func (s *pschema) message(m, d int) []byte {
	out := []byte{}
	fs := s.msgs[m].fields
	down := false
	for _, i := range s.r.Perm(len(fs)) {
		if s.big == 1 {
			if fs[i].t == "msg" && d > 0 && !down && s.leads(fs[i].m) {
				down = true
				b := s.message(fs[i].m, d-1)
				out = append(out, append(s.key(fs[i].n, 2), s.withLen(b, 2)...)...)
			} else if fs[i].t != "msg" && s.r.Intn(4) == 0 {
				f := fs[i]
				f.rep = false
				out = append(out, s.field(f, d)...)
			}
			continue
		}
		if d <= 0 && fs[i].t == "msg" || s.r.Intn(4) == 0 {
			continue
		}
		out = append(out, s.field(fs[i], d)...)
		if s.r.Intn(10) == 0 { // unknown field
			u := pfield{n: 5000 + s.r.Intn(3), t: []string{"int64", "double", "float", "bytes"}[s.r.Intn(4)]}
			out = append(out, s.field(u, 0)...)
		}
		if s.r.Intn(12) == 0 { // once more, later
			j := s.r.Intn(len(fs))
			if d > 0 || fs[j].t != "msg" {
				out = append(out, s.field(fs[j], d)...)
			}
		}
	}
	return out
}

func spoilBytes(r *rand.Rand, s []byte) []byte {
	s = append([]byte(nil), s...)
	for k := 1 + r.Intn(2); k > 0; k-- {
		i := 0
		if len(s) > 0 {
			i = r.Intn(len(s))
		}
		x := []byte{0, 1, 2, 7, 8, 0x7f, 0x80, 0xff, 10, 13, byte(r.Intn(256))}[r.Intn(11)]
		switch r.Intn(6) {
		case 0, 1:
			s = s[:i]
		case 2:
			if len(s) > 0 {
				s = append(s[:i], s[i+1:]...)
			}
		case 3:
			s = append(s[:i], append([]byte{x}, s[i:]...)...)
		case 4:
			if len(s) > 0 {
				s[i] = x
			}
		case 5: // a large varint
			s = append(s[:i], append([]byte{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, []byte{0x7f, 0xff, 0x0f}[r.Intn(3)], 1}, s[i:]...)...)
		}
	}
	// with no room behind it
	return append(make([]byte, 0, len(s)), s...)
}

func protoCase(r *rand.Rand, malformed, latent bool) M {
	s := newSchema(r)
	nd := 1 + r.Intn(2)
	if malformed {
		nd = 2 + r.Intn(2)
	}
	docs, good, bufs, texts := []M{}, []bool{}, [][]byte{}, []string{}
	big := r.Intn(20) == 0
	for try := 0; big && try < 20 && !s.leads(0); try++ {
		s = newSchema(r)
	}
	for i := 0; i < nd; i++ {
		var b []byte
		if big {
			s.big = 1 + r.Intn(4)%3
			d := 8 + r.Intn(20)
			if s.big > 1 {
				d = 1
			}
			b = s.message(0, d)
			for try := 0; (len(b) < 40 || len(b) > 600) && try < 10; try++ {
				b = s.message(0, d)
			}
			if len(b) > 900 {
				b = b[:0]
			}
		} else {
			b = s.message(0, 1+r.Intn(3))
			for try := 0; len(b) > 90 && try < 10; try++ {
				b = s.message(0, 1+r.Intn(2))
			}
			if len(b) > 120 {
				b = b[:0]
			}
		}
		g := true
		if malformed && (i > 0 || r.Intn(3) > 0) {
			g = false
			b = spoilBytes(r, b)
		}
		b = append(make([]byte, 0, len(b)), b...)
		docs, good, bufs = append(docs, M{"b": keyBytes(b)}), append(good, g), append(bufs, b)
		texts = append(texts, fmt.Sprintf("%x", b))
	}
	res := M{"docs": docs, "msgs": s.JSON(), "root": 1}
	var p protoparser.ProtoParser
	var d *Drive
	if x := try(func() {
		var err error
		p, err = protoparser.NewProtoParser("p", "M0", s.desc())
		if err != nil {
			panic(err)
		}
	}); x != "" {
		res["steps"] = []M{{"op": "init", "d": 1, "out": "panic", "detail": x}}
		res["text"] = s.String() + " " + x
		return res
	}
	d = &Drive{r: r, p: p, ndocs: nd, good: func(i int) bool { return good[i] }, reset: p.Reset,
		init: func(i int) error { return p.Init(bufs[i]) }}
	if latent {
		for i := 0; i < nd; i++ {
			m := M{"op": "init", "d": i + 1, "out": "ok"}
			n := M{"op": "latent", "out": "ok"}
			d.steps = append(d.steps, m, n)
			if x := try(func() {
				if err := p.Init(bufs[i]); err != nil {
					m["out"] = "err"
				}
				if err := protoparser.NoLatentAppendingOrMerging(p); err != nil {
					n["out"], n["detail"] = "err", err.Error()
				}
			}); x != "" {
				n["out"], n["detail"] = "panic", x
				break
			}
		}
	} else {
		d.deep = big
		d.run(steps(r, big))
	}
	res["steps"] = d.steps
	res["text"] = s.String() + "  ////  " + strings.Join(texts, "  ////  ") + "  ////  " + scheduleText(d.steps)
	return res
}

func init() {
	makers["P03"] = func(r *rand.Rand, idx int, tier string) M { return protoCase(r, false, false) }
	makers["P04"] = func(r *rand.Rand, idx int, tier string) M { return protoCase(r, true, false) }
	makers["P05"] = func(r *rand.Rand, idx int, tier string) M { return protoCase(r, r.Intn(4) == 0, true) }
}
