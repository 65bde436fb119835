package main

import (
	"io"
	"math/rand"
	"regexp"
	"strconv"
	"strings"

	"github.com/katydid/katydid/parser"
)

// answers asks all six accessors
func answers(v parser.Value) Label {
	l := Label{}
	if x, err := v.Double(); err == nil {
		l.D = &x
	}
	if x, err := v.Int(); err == nil {
		l.I = &x
	}
	if x, err := v.Uint(); err == nil {
		l.U = &x
	}
	if x, err := v.Bool(); err == nil {
		l.B = &x
	}
	if x, err := v.String(); err == nil {
		x = string(append([]byte(nil), x...))
		l.S = &x
	}
	if x, err := v.Bytes(); err == nil {
		l.Y, l.HasY = append([]byte(nil), x...), true
	}
	return l
}

// walkAll walks through everything, and gives up after too many nodes
func walkAll(p parser.Interface, left *int) ([]M, error) {
	ms := []M{}
	for {
		if *left--; *left < 0 {
			panic("verif: there is no end to the document")
		}
		err := p.Next()
		if err == io.EOF {
			return ms, nil
		}
		if err != nil {
			return ms, err
		}
		leaf := p.IsLeaf()
		m := M{"l": answers(p).JSON(), "leaf": leaf, "c": []M{}}
		if !leaf {
			p.Down()
			c, err := walkAll(p, left)
			if err != nil {
				return ms, err
			}
			m["c"] = c
			p.Up()
		}
		ms = append(ms, m)
	}
}

// Drive makes legal calls of a parser and records what they give.
type Drive struct {
	r     *rand.Rand
	p     parser.Interface
	init  func(d int) error
	reset func() error // nil: only init
	ndocs int
	good  func(d int) bool // known to be well formed: step through it
	steps []M
	deep  bool // rather go down than elsewhere
}

// again says whether a document is given a second time
func (d *Drive) run(n int) {
	cur := 0
	asked := false // a current node that is known to be inner
	state := "start"
	depth := 0
	step := func(op string, f func(m M)) bool {
		m := M{"op": op, "out": "ok"}
		d.steps = append(d.steps, m)
		if p := try(func() { f(m) }); p != "" {
			m["out"], m["detail"] = "panic", p
			return false
		}
		return true
	}
	init := func() bool {
		cur = d.r.Intn(d.ndocs)
		state, depth, asked = "start", 0, false
		return step("init", func(m M) {
			m["d"] = cur + 1
			if err := d.init(cur); err != nil {
				m["out"], state = "err", "dead"
			}
		})
	}
	reset := func() bool {
		if d.reset == nil || state == "dead" && !d.good(cur) {
			return init()
		}
		state, depth, asked = "start", 0, false
		return step("reset", func(m M) {
			if err := d.reset(); err != nil {
				m["out"], state = "err", "dead"
			}
		})
	}
	if !init() {
		return
	}
	for i := 0; i < n; i++ {
		ok := true
		k := d.r.Intn(16)
		if d.deep && d.r.Intn(3) > 0 {
			switch { // further down
			case state == "current" && !asked:
				k = 10
			case state == "current":
				k = 13
			case state == "start" || state == "passed":
				k = 14
			}
		}
		switch {
		case state == "dead" || k == 0 && d.r.Intn(2) == 0:
			if d.r.Intn(2) == 0 {
				ok = init()
			} else {
				ok = reset()
			}
		case state == "start" && depth == 0 && (!d.good(cur) || d.r.Intn(4) == 0 || d.deep && d.r.Intn(3) == 0):
			ok = step("walk", func(m M) {
				left := 2000
				t, err := walkAll(d.p, &left)
				if err != nil {
					m["out"] = "err"
					m["detail"] = err.Error()
				} else {
					m["tree"] = t
				}
			})
			state = "dead"
		case state == "current" && k < 5:
			ok = step("get", func(m M) { m["got"] = answers(d.p).JSON() })
		case state == "current" && k < 11 && !asked:
			ok = step("leaf", func(m M) {
				m["out"] = "F"
				if d.p.IsLeaf() {
					m["out"] = "T"
				} else {
					asked = true
				}
			})
		case state == "current" && asked && k < 14:
			ok = step("down", func(m M) { d.p.Down() })
			depth++
			state, asked = "start", false
		case depth > 0 && (state == "end" || k == 15):
			ok = step("up", func(m M) { d.p.Up() })
			depth--
			state, asked = "passed", false
		case state == "end":
			ok = reset()
		default:
			asked = false
			ok = step("next", func(m M) {
				err := d.p.Next()
				switch {
				case err == nil:
					state = "current"
				case err == io.EOF:
					state, m["out"] = "end", "eof"
				default:
					state, m["out"], m["detail"] = "dead", "err", err.Error()
				}
			})
		}
		if !ok {
			return
		}
	}
}

var numRun = regexp.MustCompile(`[-+0-9.eE]+`)

func scheduleText(steps []M) string {
	ss := []string{}
	for _, s := range steps {
		x := s["op"].(string)
		if d, ok := s["d"]; ok {
			x += strconv.Itoa(d.(int))
		}
		if s["out"] != "ok" {
			x += "=" + s["out"].(string)
		}
		ss = append(ss, x)
	}
	return strings.Join(ss, " ")
}
