package main

import (
	"io"
	"math/rand"
	"regexp"
	"strconv"
	"strings"

	"github.com/katydid/katydid/parser"
	"github.com/katydid/katydid/parser/debug"
)

// choices gives random numbers and remembers them
type choices struct {
	r   *rand.Rand
	got []int
}

func (c *choices) Intn(n int) int {
	x := c.r.Intn(n)
	c.got = append(c.got, x)
	return x
}

// logTo remembers what is logged
type logTo struct{ lines []string }

var logCall = regexp.MustCompile(`\.([A-Z][A-Za-z]*) ?\(`)

func (l *logTo) Printf(format string, v ...interface{}) { l.lines = append(l.lines, format) }

// calls counts what is called
type callLog struct {
	parser.Interface
	calls   []string
	answers []string
}

func (p *callLog) add(s string, v interface{}, err error) {
	p.calls = append(p.calls, s)
	p.answers = append(p.answers, answerText(v, err))
}

func answerText(v interface{}, err error) string {
	if err != nil {
		return "err " + err.Error()
	}
	switch v := v.(type) {
	case float64:
		return strconv.FormatFloat(v, 'g', -1, 64)
	case int64:
		return strconv.FormatInt(v, 10)
	case uint64:
		return strconv.FormatUint(v, 10) + "u"
	case bool:
		return strconv.FormatBool(v)
	case string:
		return v
	case []byte:
		return hexOf(string(v)) + "x"
	}
	return ""
}
func (p *callLog) Next() error { err := p.Interface.Next(); p.add("Next", nil, err); return err }
func (p *callLog) Down()       { p.Interface.Down(); p.add("Down", nil, nil) }
func (p *callLog) Up()         { p.Interface.Up(); p.add("Up", nil, nil) }
func (p *callLog) IsLeaf() bool {
	v := p.Interface.IsLeaf()
	p.add("IsLeaf", v, nil)
	return v
}
func (p *callLog) Double() (float64, error) {
	v, err := p.Interface.Double()
	p.add("Double", v, err)
	return v, err
}
func (p *callLog) Int() (int64, error) {
	v, err := p.Interface.Int()
	p.add("Int", v, err)
	return v, err
}
func (p *callLog) Uint() (uint64, error) {
	v, err := p.Interface.Uint()
	p.add("Uint", v, err)
	return v, err
}
func (p *callLog) Bool() (bool, error) {
	v, err := p.Interface.Bool()
	p.add("Bool", v, err)
	return v, err
}
func (p *callLog) String() (string, error) {
	v, err := p.Interface.String()
	p.add("String", v, err)
	return v, err
}
func (p *callLog) Bytes() ([]byte, error) {
	v, err := p.Interface.Bytes()
	p.add("Bytes", v, err)
	return v, err
}

func leafJSON(ns []*Node) []interface{} {
	r := make([]interface{}, len(ns))
	for i, n := range ns {
		r[i] = M{"l": n.L.JSON(), "leaf": n.Leaf, "c": leafJSON(n.C)}
	}
	return r
}

func debugTree(ns debug.Nodes) []M {
	r := []M{}
	for _, n := range ns {
		r = append(r, M{"s": keyBytes([]byte(n.Label)), "c": debugTree(n.Children)})
	}
	return r
}

// debugForest has values whose Go texts are easy to read
func (g *Gen) debugForest(d, max int) []*Node {
	ns := []*Node{}
	for i := g.n(max + 1); i > 0; i-- {
		n := &Node{Leaf: d <= 0 || g.p(1, 3)}
		if g.n(8) > 0 {
			n.L = g.multi(g.val(singles[g.n(6)]).label())
		}
		if n.L.S != nil && (strings.Contains(*n.L.S, "\u4e16")) {
			s := "w"
			n.L.S = &s
		}
		if !n.Leaf {
			n.C = g.debugForest(d-1, 3)
		}
		ns = append(ns, n)
	}
	return ns
}

// anyCalls makes legal calls of a parser
func anyCalls(r *rand.Rand, p parser.Interface, n int) {
	depth, state := 0, "start"
	for i := 0; i < n; i++ {
		switch k := r.Intn(10); {
		case state == "current" && k < 6:
			switch k {
			case 0:
				p.Double()
			case 1:
				p.Int()
			case 2:
				p.Uint()
			case 3:
				p.Bool()
			case 4:
				p.String()
			case 5:
				p.Bytes()
			}
		case state == "current" && k < 8:
			if !p.IsLeaf() {
				p.Down()
				depth++
				state = "start"
			}
		case depth > 0 && (state == "end" || k == 9):
			p.Up()
			depth--
			state = "passed"
		case state == "end":
			return
		default:
			state = "current"
			if err := p.Next(); err == io.EOF {
				state = "end"
			} else if err != nil {
				return
			}
		}
	}
}

func init() {
	makers["D01"] = func(r *rand.Rand, idx int, tier string) M {
		g := NewGen(r, GenOpt{Typed: true})
		t := []*Node{}
		for len(t) == 0 {
			t = g.debugForest(2, 4)
		}
		nums := []M{}
		seen := map[string]bool{}
		var number func(ns debug.Nodes)
		addNum := func(s string) {
			if !seen[s] && decimal.MatchString(s) {
				seen[s] = true
				nums = append(nums, M{"x": keyBytes([]byte(s)), "d": nearest(s)})
			}
		}
		number = func(ns debug.Nodes) {
			for _, n := range ns {
				addNum(n.Label)
				number(n.Children)
			}
		}
		runs := []M{}
		run := func(op string, f func(m M, p *TreeParser)) {
			p := NewTreeParser(t)
			m := M{"op": op, "out": "ok", "bad": []string{}}
			if s := try(func() { f(m, p) }); s != "" {
				m["out"], m["detail"] = "panic", s
			}
			if len(p.bad) > 0 {
				m["bad"] = p.bad
			}
			runs = append(runs, m)
		}
		logger := r.Intn(2) == 0
		wrap := func(p parser.Interface) parser.Interface {
			if logger {
				return debug.NewLogger(p, &logTo{})
			}
			return p
		}
		run("walk", func(m M, p *TreeParser) {
			ns := debug.Walk(wrap(p))
			number(ns)
			m["tree"] = debugTree(ns)
		})
		for i := 0; i < 2; i++ {
			run("random", func(m M, p *TreeParser) {
				c := &choices{r, []int{}}
				ns := debug.RandomWalk(wrap(p), c, 2+r.Intn(10), 2+r.Intn(4))
				number(ns)
				m["tree"] = debugTree(ns)
				m["choices"] = c.got
			})
		}
		run("sprint", func(m M, p *TreeParser) {
			p.Next()
			s := parser.Sprint(wrap(p))
			addNum(s)
			m["s"] = keyBytes([]byte(s))
		})
		run("log", func(m M, p *TreeParser) {
			p.failAt = r.Intn(12)
			in := &callLog{Interface: p}
			lg := &logTo{}
			out := &callLog{Interface: debug.NewLogger(in, lg)}
			anyCalls(r, out, 25)
			logged := []string{}
			for _, l := range lg.lines {
				if x := logCall.FindStringSubmatch(l); x != nil {
					logged = append(logged, x[1])
				} else {
					logged = append(logged, l)
				}
			}
			m["calls"], m["logged"] = append([]string{}, in.calls...), logged
			m["got"], m["answers"] = append([]string{}, out.answers...), append([]string{}, in.answers...)
		})
		return M{"t": leafJSON(t), "runs": runs, "nums": nums, "text": nodesString(t)}
	}
}
