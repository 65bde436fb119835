package main

import (
	"math"
	"math/rand"

	"github.com/katydid/katydid/relapse/funcs"
)

// nudge changes one constant, argument order or operator of an expression
func (g *Gen) nudge(e *Expr) {
	var all []*Expr
	e.walk(func(x *Expr) { all = append(all, x) })
	for try := 0; try < 20; try++ {
		x := all[g.n(len(all))]
		switch x.K {
		case "const":
			if x.V.T == "string" && g.inRegex(e, x) {
				continue
			}
			x.V = g.val(x.T)
			return
		case "fn":
			switch {
			case len(x.A) == 2 && x.A[0].T == x.A[1].T && x.N != "regex" && g.p(1, 2):
				x.A[0], x.A[1] = x.A[1], x.A[0]
				return
			case x.N == "eq" || x.N == "ne":
				x.N = map[string]string{"eq": "ne", "ne": "eq"}[x.N]
				return
			case x.N == "lt" || x.N == "le" || x.N == "gt" || x.N == "ge":
				x.N = []string{"lt", "le", "gt", "ge", "eq"}[g.n(5)]
				return
			case x.N == "and" || x.N == "or":
				x.N = map[string]string{"and": "or", "or": "and"}[x.N]
				return
			case x.N == "toLower" || x.N == "toUpper":
				x.N = map[string]string{"toLower": "toUpper", "toUpper": "toLower"}[x.N]
				return
			case x.N == "hasPrefix" || x.N == "hasSuffix":
				x.N = map[string]string{"hasPrefix": "hasSuffix", "hasSuffix": "hasPrefix"}[x.N]
				return
			}
		case "list":
			if len(x.A) == 2 && x.T == "ints" && x.A[0].K == "const" && x.A[1].K == "const" {
				// a hash collision
				x.A[0].V = VInt(x.A[0].V.I + 1)
				x.A[1].V = VInt(x.A[1].V.I - 31)
				return
			}
			if len(x.A) > 1 {
				i := g.n(len(x.A) - 1)
				x.A[i], x.A[i+1] = x.A[i+1], x.A[i]
				return
			}
			x.A = append(x.A, g.expr(elemOf(x.T), 0))
			return
		}
	}
}

// collide changes an expression such that its hash stays the same; the
// expression itself is first given constants with which that is possible.
func (g *Gen) collide(e *Expr) *Expr {
	if len(e.A) == 0 && e.K != "const" {
		return nil
	}
	path := []int{}
	at := func(x *Expr) *Expr {
		for _, i := range path {
			x = x.A[i]
		}
		return x
	}
	for x := e; len(x.A) > 0 && !(x.K == "list" && g.p(1, 2)); {
		i := g.n(len(x.A))
		path = append(path, i)
		x = x.A[i]
	}
	x := at(e)
	var other *Expr
	two := func() (string, string) { // the hash of a text is 31*a + b
		p, q := byte(65+g.n(20)), byte(97+g.n(20))
		pre, post := []string{"", "b", "1"}[g.n(3)], []string{"", "a", "xy"}[g.n(3)]
		return pre + string([]byte{p, q}) + post, pre + string([]byte{p + 1, q - 31}) + post
	}
	parent := (*Expr)(nil)
	if len(path) > 0 {
		last := path[:len(path)-1]
		parent = e
		for _, i := range last {
			parent = parent.A[i]
		}
	}
	switch {
	case parent != nil && parent.N == "regex" && x == parent.A[0]:
		s, t := two()
		lit := func(s string) *Re {
			var re *Re
			for _, c := range s {
				y := &Re{K: "chr", C: int(c)}
				if re == nil {
					re = y
				} else {
					re = &Re{K: "cat", A: re, B: y}
				}
			}
			return re
		}
		x.V, parent.Re = VStr(s), lit(s)
		other = cloneExpr(e)
		par := other
		for _, i := range path[:len(path)-1] {
			par = par.A[i]
		}
		y := cloneExpr(x)
		y.V = VStr(t)
		par.A[0], par.Re = y, lit(t)
		return other
	case x.K == "const" && x.T == "string":
		s, t := two()
		x.V = VStr(s)
		other = cloneExpr(e)
		at(other).V = VStr(t)
	case x.K == "const" && x.T == "bytes":
		s, t := two()
		x.V = &Val{T: "bytes", S: []byte(s)}
		other = cloneExpr(e)
		at(other).V = &Val{T: "bytes", S: []byte(t)}
	case x.K == "list" && x.T == "ints":
		x.A = []*Expr{EConst(VInt(int64(g.n(5)))), EConst(VInt(int64(g.n(5))))}
		other = cloneExpr(e)
		y := at(other)
		y.A[0].V, y.A[1].V = VInt(x.A[0].V.I+1), VInt(x.A[1].V.I-31)
	case x.K == "list" && x.T == "doubles":
		d := func(k int) *Val { return &Val{T: "double", D: math.Float64frombits(0x4000000000000000 + uint64(k))} }
		x.A = []*Expr{EConst(d(5)), EConst(d(50))}
		other = cloneExpr(e)
		y := at(other)
		y.A[0].V, y.A[1].V = d(6), d(19)
	case x.K == "list" && x.T == "uints":
		x.A = []*Expr{EConst(&Val{T: "uint", U: uint64(g.n(5))}), EConst(&Val{T: "uint", U: uint64(31 + g.n(5))})}
		other = cloneExpr(e)
		y := at(other)
		y.A[0].V, y.A[1].V = &Val{T: "uint", U: x.A[0].V.U + 1}, &Val{T: "uint", U: x.A[1].V.U - 31}
	case x.K == "list" && (x.T == "strings" || x.T == "byteses"):
		x.A = []*Expr{}
		el := elemOf(x.T)
		x.A = append(x.A, EConst(&Val{T: el, S: []byte("xA")}), EConst(&Val{T: el, S: []byte("yz")}))
		other = cloneExpr(e)
		y := at(other)
		y.A[0].V, y.A[1].V = &Val{T: el, S: []byte("xB")}, &Val{T: el, S: []byte("y[")}
	case parent != nil && x.K == "const" && x.T == "int":
		// two arguments next to each other
		i := path[len(path)-1]
		if i == 0 || parent.A[i-1].T != "int" {
			return nil
		}
		parent.A[i-1] = EConst(VInt(int64(g.n(3))))
		other = cloneExpr(e)
		par := other
		for _, j := range path[:len(path)-1] {
			par = par.A[j]
		}
		par.A[i-1].V = VInt(parent.A[i-1].V.I + 1)
		par.A[i].V = VInt(x.V.I - 31)
	}
	return other
}

// solve changes a number in e such that its hash becomes that of another
// expression.
func (g *Gen) solve(e, like *Expr) *Expr {
	e = cloneExpr(e)
	var nums []*Expr
	e.walk(func(x *Expr) {
		if x.K == "const" && (x.T == "int" || x.T == "uint") {
			nums = append(nums, x)
		}
	})
	if len(nums) == 0 {
		return nil
	}
	x := nums[g.n(len(nums))]
	hash := func(e *Expr) uint64 {
		f, err := buildFunc(e)
		if err != nil {
			return 0
		}
		return f.(funcs.Hashable).Hash()
	}
	set := func(u uint64) uint64 {
		if x.T == "int" {
			x.V = VInt(int64(u))
		} else {
			x.V = &Val{T: "uint", U: u}
		}
		return hash(e)
	}
	want := hash(like)
	h0 := set(1000)
	m := set(1001) - h0
	inv := m // of an odd number, modulo 2^64
	for i := 0; i < 6; i++ {
		inv *= 2 - m*inv
	}
	if set(1000+(want-h0)*inv) != want {
		return nil
	}
	return e
}

func (g *Gen) inRegex(e, x *Expr) bool {
	found := false
	e.walk(func(y *Expr) {
		if (y.N == "regex" || y.N == "~=") && len(y.A) > 0 && y.A[0] == x {
			found = true
		}
	})
	return found
}

func (g *Gen) fnExpr(t string, d int) *Expr {
	for {
		e := g.expr(t, d)
		if t == "bool" {
			e = g.boolExpr(d)
		}
		ok := true
		e.walk(func(x *Expr) {
			if x.K == "op" {
				ok = false
			}
		})
		if ok {
			return e
		}
	}
}

func sign(i int) int {
	if i < 0 {
		return -1
	}
	if i > 0 {
		return 1
	}
	return 0
}

func init() {
	makers["F04"] = func(r *rand.Rand, idx int, tier string) M {
		g := NewGen(r, GenOpt{Typed: true, Funcs: true, Coll: r.Intn(3) == 0})
		n := 4 + r.Intn(3)
		t := allTypes[r.Intn(12)]
		if r.Intn(2) == 0 {
			t = "bool"
		}
		d := r.Intn(3)
		mk := func() *Expr {
			tt := t
			if r.Intn(6) == 0 {
				tt = allTypes[r.Intn(12)]
			}
			if tt == "bool" && r.Intn(2) == 0 {
				// simple comparisons
				st := singles[r.Intn(6)]
				f := []string{"eq", "ne"}[r.Intn(2)]
				a, b := EVar(st), EConst(g.val(st))
				if r.Intn(3) == 0 {
					a, b = b, a
				}
				return EFn(f, "bool", a, b)
			}
			return g.fnExpr(tt, d)
		}
		es := []*Expr{}
		keep := func(e *Expr) {
			// arguments that have to be constant may fail to evaluate
			if _, err := buildFunc(e); err == nil {
				es = append(es, e)
			}
		}
		for len(es) < n {
			if k := r.Intn(9); k < 3 && len(es)+1 < n {
				// two with the same hash, in the same surroundings
				t := allTypes[r.Intn(12)]
				e := cloneExpr(g.fnExpr(t, 1+r.Intn(2)))
				if r.Intn(3) == 0 {
					e = EFn("print", t, e)
				}
				switch b := EVar(t); {
				case e.T != t:
				case elemOf(t) == "" && r.Intn(3) == 0:
					if r.Intn(2) == 0 {
						e, b = b, e
					}
					fs := []string{"eq", "ne", "lt", "le", "gt", "ge"}
					m := 6
					if t == "string" || t == "bool" {
						m = 2
					}
					e = EFn(fs[r.Intn(m)], "bool", e, b)
				case elemOf(t) == "" && r.Intn(3) == 0:
					e = EFn("type", "bool", e)
				case elemOf(t) != "" && r.Intn(2) == 0:
					e = EFn("length", "int", e)
				}
				if o := g.collide(e); o != nil {
					k := len(es)
					keep(e)
					if len(es) > k && (o.T == e.T) {
						keep(o)
					}
				}
			} else if k == 3 && len(es) > 0 {
				// another one with the same hash
				like := es[r.Intn(len(es))]
				e := cloneExpr(like)
				if r.Intn(2) == 0 {
					e = mk()
				} else {
					for i := 1 + r.Intn(2); i > 0; i-- {
						g.nudge(e)
					}
				}
				if o := g.solve(e, like); o != nil {
					keep(o)
				}
			} else if len(es) > 0 && k > 4 {
				e := cloneExpr(es[r.Intn(len(es))])
				if r.Intn(3) > 0 {
					g.nudge(e)
				}
				if e.T == "bool" && r.Intn(10) == 0 {
					e = EFn("not", "bool", e)
				}
				keep(e)
			} else {
				keep(mk())
			}
		}
		n = len(es)
		fs := make([]funcs.Comparable, n)
		hs := make([]funcs.Hashable, n)
		js, text := []interface{}{}, ""
		for _, e := range es {
			js = append(js, e.JSON())
			text += ExprText(e, nil) + "\n"
		}
		rec := M{"es": js, "text": text, "ok": true, "detail": "", "ls": []interface{}{}}
		p := try(func() {
			for i, e := range es {
				f, err := buildFunc(e)
				if err != nil {
					rec["ok"], rec["detail"] = false, err.Error()
					return
				}
				fs[i] = f.(funcs.Comparable)
				hs[i] = f.(funcs.Hashable)
			}
			cmp, eq, hash := [][]int{}, [][]bool{}, [][]int{}
			for i := range fs {
				c, q := []int{}, []bool{}
				for j := range fs {
					c = append(c, sign(fs[i].Compare(fs[j])))
					q = append(q, funcs.Equal(fs[i], fs[j]))
				}
				cmp, eq, hash = append(cmp, c), append(eq, q), append(hash, limbs(hs[i].Hash()))
			}
			rec["cmp"], rec["eq"], rec["hash"] = cmp, eq, hash
		})
		if p != "" {
			rec["ok"], rec["detail"] = false, p
		}
		var all []*Expr
		all = append(all, es...)
		rec["ls"] = labelsJSON(g.labelsFor(EFn("and", "bool", all...), 8))
		return rec
	}
}
