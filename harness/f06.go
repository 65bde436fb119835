package main

import (
	"errors"
	"fmt"
	"math/rand"
	"strings"

	"github.com/katydid/katydid/relapse"
	"github.com/katydid/katydid/relapse/funcs"
	"github.com/katydid/katydid/relapse/mem"
)

// what the context holds
type ctxValue struct {
	I *int64
	S *string
	B *bool
}

func (v ctxValue) JSON() M {
	m := M{"ctxint": []interface{}{}, "ctxstring": []interface{}{}, "ctxbool": []interface{}{}}
	if v.I != nil {
		m["ctxint"] = []interface{}{keyInt(*v.I)}
	}
	if v.S != nil {
		m["ctxstring"] = []interface{}{keyBytes([]byte(*v.S))}
	}
	if v.B != nil {
		m["ctxbool"] = []interface{}{*v.B}
	}
	return m
}

type ctxBase struct {
	name string
	ctx  *funcs.Context
}

var errNoContext = errors.New("no context")

func (c *ctxBase) SetContext(ctx *funcs.Context) { c.ctx = ctx }
func (c *ctxBase) HasVariable() bool             { return true }
func (c *ctxBase) Hash() uint64                  { return funcs.Hash(c.name) }
func (c *ctxBase) String() string                { return c.name + "()" }
func (c *ctxBase) value() ctxValue {
	if c.ctx == nil || c.ctx.Value == nil {
		return ctxValue{}
	}
	return c.ctx.Value.(ctxValue)
}
func (c *ctxBase) compare(that funcs.Comparable) int {
	h := that.Hash()
	if c.Hash() != h {
		if c.Hash() < h {
			return -1
		}
		return 1
	}
	return strings.Compare(c.String(), that.String())
}

type ctxInt struct{ ctxBase }
type ctxString struct{ ctxBase }
type ctxBool struct{ ctxBase }

func (c *ctxInt) Compare(that funcs.Comparable) int    { return c.compare(that) }
func (c *ctxString) Compare(that funcs.Comparable) int { return c.compare(that) }
func (c *ctxBool) Compare(that funcs.Comparable) int   { return c.compare(that) }
func (c *ctxInt) Eval() (int64, error) {
	if v := c.value(); v.I != nil {
		return *v.I, nil
	}
	return 0, errNoContext
}
func (c *ctxString) Eval() (string, error) {
	if v := c.value(); v.S != nil {
		return *v.S, nil
	}
	return "", errNoContext
}
func (c *ctxBool) Eval() (bool, error) {
	if v := c.value(); v.B != nil {
		return *v.B, nil
	}
	return false, errNoContext
}

func init() {
	funcs.Register("ctxint", func() funcs.Int { return &ctxInt{ctxBase{name: "ctxint"}} })
	funcs.Register("ctxstring", func() funcs.String { return &ctxString{ctxBase{name: "ctxstring"}} })
	funcs.Register("ctxbool", func() funcs.Bool { return &ctxBool{ctxBase{name: "ctxbool"}} })

	makers["F06"] = func(r *rand.Rand, idx int, tier string) M {
		o := genOpt(r, "quick")
		o.Typed, o.Funcs, o.Ctx, o.NoErr = r.Intn(2) == 0, true, true, true
		g := NewGen(r, o)
		gr := g.Grammar()
		usesCtx := func() bool {
			found := false
			gr.walk(func(p *Pat) {
				if p.E != nil {
					p.E.walk(func(e *Expr) { found = found || e.K == "ctx" })
				}
			})
			return found
		}
		for i := 0; !usesCtx() && i < 20; i++ {
			gr = g.Grammar()
			if r.Intn(3) == 0 {
				gr = g.StressGrammar()
			}
		}
		if r.Intn(2) == 0 {
			g.share(gr)
		}
		ag, text, err := parsed(gr, r)
		var ms [2]*mem.Mem
		for i := range ms {
			if err == nil {
				ms[i], err = relapse.Prepare(ag)
			}
		}
		if err != nil {
			return M{"g": gr.JSON(), "text": text, "steps": []M{{"op": "run", "m": 1, "t": []interface{}{}, "out": "P", "detail": err.Error()}}}
		}
		var consts []*Val
		gr.walk(func(p *Pat) {
			if p.E != nil {
				consts = p.E.consts(consts)
			}
		})
		value := func() ctxValue {
			v := ctxValue{}
			if r.Intn(10) > 0 {
				i := g.int()
				v.I = &i
			}
			if r.Intn(10) > 0 {
				s := g.str()
				v.S = &s
			}
			if r.Intn(10) > 0 {
				b := r.Intn(2) == 0
				v.B = &b
			}
			for _, c := range consts {
				if r.Intn(3) == 0 {
					switch c.T {
					case "int":
						v.I = &c.I
					case "string":
						s := string(c.S)
						v.S = &s
					}
				}
			}
			return v
		}
		// the values of the context also appear in the trees
		relabel := func(t []*Node, v ctxValue) {
			var walk func(ns []*Node)
			walk = func(ns []*Node) {
				for _, n := range ns {
					if n.Leaf && r.Intn(3) == 0 {
						if v.I != nil && o.Typed && r.Intn(2) == 0 {
							n.L = LInt(*v.I)
						} else if v.S != nil {
							n.L = LStr(*v.S)
						}
					}
					walk(n.C)
				}
			}
			walk(t)
		}
		ctxs := []*funcs.Context{}
		pool := [][]*Node{}
		for i := 0; i < 4; i++ {
			pool = append(pool, cloneNodes(g.Tree(gr)))
		}
		steps := []M{}
		for i, n := 0, 8+r.Intn(10); i < n; i++ {
			switch k := r.Intn(10); {
			case k == 0 && len(ctxs) < 3 || len(ctxs) == 0 && k < 7:
				v := value()
				relabel(pool[r.Intn(len(pool))], v)
				ctxs = append(ctxs, &funcs.Context{Value: v})
				steps = append(steps, M{"op": "new", "v": v.JSON()})
			case k < 3 && len(ctxs) > 0:
				m, x := r.Intn(2), r.Intn(len(ctxs))
				ms[m].SetContext(ctxs[x])
				steps = append(steps, M{"op": "set", "m": m + 1, "x": x + 1})
			case k < 5 && len(ctxs) > 0:
				x := r.Intn(len(ctxs))
				v := value()
				ctxs[x].Value = v
				relabel(pool[r.Intn(len(pool))], v)
				steps = append(steps, M{"op": "change", "x": x + 1, "v": v.JSON()})
			default:
				m := r.Intn(4) / 3
				t := pool[r.Intn(len(pool))]
				out, detail := verdict(func() (bool, error) { return ms[m].Validate(NewTreeParser(t)) })
				steps = append(steps, M{"op": "run", "m": m + 1, "t": nodesJSON(t), "tree": nodesString(t), "out": out, "detail": detail})
			}
		}
		return M{"g": gr.JSON(), "steps": steps, "text": text}
	}
}

var _ = fmt.Sprint
