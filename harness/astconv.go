package main

import (
	"fmt"

	"github.com/katydid/katydid/relapse/ast"
	"github.com/katydid/katydid/relapse/types"
)

// reTab remembers the structure behind every regular expression text.
var reTab = map[string]*Re{}

func typeName(t types.Type) string {
	switch t {
	case types.SINGLE_DOUBLE:
		return "double"
	case types.SINGLE_INT:
		return "int"
	case types.SINGLE_UINT:
		return "uint"
	case types.SINGLE_BOOL:
		return "bool"
	case types.SINGLE_STRING:
		return "string"
	case types.SINGLE_BYTES:
		return "bytes"
	case types.LIST_DOUBLE:
		return "doubles"
	case types.LIST_INT:
		return "ints"
	case types.LIST_UINT:
		return "uints"
	case types.LIST_BOOL:
		return "bools"
	case types.LIST_STRING:
		return "strings"
	case types.LIST_BYTES:
		return "byteses"
	}
	panic(fmt.Sprintf("type %v", t))
}

var astTypes = map[string]types.Type{"double": types.SINGLE_DOUBLE, "int": types.SINGLE_INT, "uint": types.SINGLE_UINT, "bool": types.SINGLE_BOOL, "string": types.SINGLE_STRING, "bytes": types.SINGLE_BYTES,
	"doubles": types.LIST_DOUBLE, "ints": types.LIST_INT, "uints": types.LIST_UINT, "bools": types.LIST_BOOL, "strings": types.LIST_STRING, "byteses": types.LIST_BYTES}

func fnType(n string, a []*Expr) string {
	switch n {
	case "length":
		return "int"
	case "toLower", "toUpper":
		return "string"
	case "elem":
		return elemOf(a[0].T)
	case "range", "print":
		return a[0].T
	}
	return "bool"
}

func fromExpr(e *ast.Expr) *Expr {
	switch {
	case e.Terminal != nil:
		t := e.Terminal
		switch {
		case t.Variable != nil:
			return EVar(typeName(t.Variable.Type))
		case t.DoubleValue != nil:
			return EConst(&Val{T: "double", D: *t.DoubleValue})
		case t.IntValue != nil:
			return EConst(&Val{T: "int", I: *t.IntValue})
		case t.UintValue != nil:
			return EConst(&Val{T: "uint", U: *t.UintValue})
		case t.BoolValue != nil:
			return EConst(&Val{T: "bool", B: *t.BoolValue})
		case t.StringValue != nil:
			return EConst(VStr(*t.StringValue))
		case t.BytesValue != nil:
			return EConst(&Val{T: "bytes", S: t.BytesValue})
		}
		panic("terminal without a value")
	case e.List != nil:
		l := EList(typeName(e.List.Type))
		for _, x := range e.List.Elems {
			l.A = append(l.A, fromExpr(x))
		}
		return l
	case e.Function != nil:
		f := EFn(e.Function.Name, "")
		for _, x := range e.Function.Params {
			f.A = append(f.A, fromExpr(x))
		}
		f.T = fnType(f.N, f.A)
		f.fixRe()
		return f
	case e.BuiltIn != nil:
		o := EOp(e.BuiltIn.Symbol.Value, fromExpr(e.BuiltIn.Expr))
		o.fixRe()
		return o
	}
	panic("empty expression")
}

func (e *Expr) fixRe() {
	if e.N == "regex" || e.N == "~=" {
		if e.A[0].K == "const" {
			e.Re = reTab[string(e.A[0].V.S)]
		}
		if e.Re == nil {
			panic("unknown regular expression " + e.A[0].String())
		}
	}
}

func (e *Expr) String() string { return ExprText(e, nil) }

func fromName(n *ast.NameExpr) *NameE {
	switch {
	case n.Name != nil:
		v := n.Name
		switch {
		case v.DoubleValue != nil:
			return &NameE{K: "name", V: &Val{T: "double", D: *v.DoubleValue}}
		case v.IntValue != nil:
			return &NameE{K: "name", V: &Val{T: "int", I: *v.IntValue}}
		case v.UintValue != nil:
			return &NameE{K: "name", V: &Val{T: "uint", U: *v.UintValue}}
		case v.BoolValue != nil:
			return &NameE{K: "name", V: &Val{T: "bool", B: *v.BoolValue}}
		case v.StringValue != nil:
			return &NameE{K: "name", V: VStr(*v.StringValue)}
		case v.BytesValue != nil:
			return &NameE{K: "name", V: &Val{T: "bytes", S: v.BytesValue}}
		}
		panic("name without a value")
	case n.AnyName != nil:
		return &NameE{K: "any"}
	case n.AnyNameExcept != nil:
		return &NameE{K: "not", A: fromName(n.AnyNameExcept.Except)}
	case n.NameChoice != nil:
		return &NameE{K: "or", A: fromName(n.NameChoice.Left), B: fromName(n.NameChoice.Right)}
	}
	panic("empty name")
}

func fromPat(p *ast.Pattern) *Pat {
	bin := func(k string, l, r *ast.Pattern) *Pat { return &Pat{K: k, A: fromPat(l), B: fromPat(r)} }
	switch {
	case p.Empty != nil:
		return &Pat{K: "empty"}
	case p.TreeNode != nil:
		return &Pat{K: "tree", N: fromName(p.TreeNode.Name), A: fromPat(p.TreeNode.Pattern)}
	case p.LeafNode != nil:
		return &Pat{K: "leaf", E: fromExpr(p.LeafNode.Expr)}
	case p.Concat != nil:
		return bin("concat", p.Concat.LeftPattern, p.Concat.RightPattern)
	case p.Or != nil:
		return bin("or", p.Or.LeftPattern, p.Or.RightPattern)
	case p.And != nil:
		return bin("and", p.And.LeftPattern, p.And.RightPattern)
	case p.Interleave != nil:
		return bin("inter", p.Interleave.LeftPattern, p.Interleave.RightPattern)
	case p.ZeroOrMore != nil:
		return &Pat{K: "star", A: fromPat(p.ZeroOrMore.Pattern)}
	case p.Optional != nil:
		return &Pat{K: "opt", A: fromPat(p.Optional.Pattern)}
	case p.Not != nil:
		return &Pat{K: "not", A: fromPat(p.Not.Pattern)}
	case p.Contains != nil:
		return &Pat{K: "contains", A: fromPat(p.Contains.Pattern)}
	case p.Reference != nil:
		return &Pat{K: "ref", Ref: p.Reference.Name}
	case p.ZAny != nil:
		return &Pat{K: "zany"}
	}
	panic("empty pattern")
}

func fromGrammar(g *ast.Grammar) *Gram {
	r := &Gram{}
	if g.TopPattern != nil {
		r.Main = fromPat(g.TopPattern)
	}
	for _, d := range g.PatternDecls {
		if d.Name == "main" && r.Main == nil {
			r.Main = fromPat(d.Pattern)
			continue
		}
		r.Refs = append(r.Refs, Decl{d.Name, fromPat(d.Pattern)})
	}
	return r
}

// ---------------------------------------------------------------------------
// the other way, through the constructors of the ast package

func toConst(v *Val) *ast.Expr {
	switch v.T {
	case "double":
		return ast.NewDoubleConst(v.D)
	case "int":
		return ast.NewIntConst(v.I)
	case "uint":
		return ast.NewUintConst(v.U)
	case "bool":
		if v.B {
			return ast.NewTrue()
		}
		return ast.NewFalse()
	case "string":
		return ast.NewStringConst(string(v.S))
	}
	return ast.NewBytesConst(v.S)
}

func toExpr(e *Expr) *ast.Expr {
	as := make([]*ast.Expr, len(e.A))
	for i := range e.A {
		as[i] = toExpr(e.A[i])
	}
	switch e.K {
	case "const":
		return toConst(e.V)
	case "var":
		return ast.NewVar(astTypes[e.T])
	case "ctx":
		return ast.NewNestedFunction(e.N)
	case "list":
		return ast.NewList(astTypes[e.T], as...)
	case "fn":
		return ast.NewNestedFunction(e.N, as...)
	}
	switch e.N {
	case "==":
		return ast.NewEqual(as[0])
	case "!=":
		return ast.NewNotEqual(as[0])
	case "<":
		return ast.NewLessThan(as[0])
	case ">":
		return ast.NewGreaterThan(as[0])
	case "<=":
		return ast.NewLessEqual(as[0])
	case ">=":
		return ast.NewGreaterEqual(as[0])
	case "~=":
		return ast.NewRegex(as[0])
	case "*=":
		return ast.NewHasElem(as[0])
	case "^=":
		return ast.NewHasPrefix(as[0])
	case "$=":
		return ast.NewHasSuffix(as[0])
	}
	return ast.NewType(as[0])
}

func toLeafExpr(e *Expr) *ast.Expr {
	if e.K == "fn" || e.K == "ctx" {
		as := make([]*ast.Expr, len(e.A))
		for i := range e.A {
			as[i] = toExpr(e.A[i])
		}
		return ast.NewFunction(e.N, as...)
	}
	x := toExpr(e)
	if e.K != "op" {
		x.RightArrow = &ast.Keyword{Value: "->"} // an expression that is not a function needs its arrow
	}
	return x
}

func toName(n *NameE) *ast.NameExpr {
	switch n.K {
	case "any":
		return ast.NewAnyName()
	case "not":
		return ast.NewAnyNameExcept(toName(n.A))
	case "or":
		return ast.NewNameChoice(toName(n.A), toName(n.B))
	}
	switch v := n.V; v.T {
	case "double":
		return ast.NewDoubleName(v.D)
	case "int":
		return ast.NewIntName(v.I)
	case "uint":
		return ast.NewUintName(v.U)
	case "bool":
		return ast.NewBoolName(v.B)
	case "string":
		return ast.NewStringName(string(v.S))
	default:
		return ast.NewBytesName(v.S)
	}
}

func toPat(p *Pat) *ast.Pattern {
	switch p.K {
	case "empty":
		return ast.NewEmpty()
	case "zany":
		return ast.NewZAny()
	case "tree":
		return ast.NewTreeNode(toName(p.N), toPat(p.A))
	case "leaf":
		return ast.NewLeafNode(toLeafExpr(p.E))
	case "concat":
		return ast.NewConcat(toPat(p.A), toPat(p.B))
	case "or":
		return ast.NewOr(toPat(p.A), toPat(p.B))
	case "and":
		return ast.NewAnd(toPat(p.A), toPat(p.B))
	case "inter":
		return ast.NewInterleave(toPat(p.A), toPat(p.B))
	case "star":
		return ast.NewZeroOrMore(toPat(p.A))
	case "opt":
		return ast.NewOptional(toPat(p.A))
	case "not":
		return ast.NewNot(toPat(p.A))
	case "contains":
		return ast.NewContains(toPat(p.A))
	case "ref":
		return ast.NewReference(p.Ref)
	}
	panic(p.K)
}

func toGrammar(g *Gram) *ast.Grammar {
	m := map[string]*ast.Pattern{"main": toPat(g.Main)}
	for _, d := range g.Refs {
		m[d.Name] = toPat(d.P)
	}
	return ast.NewGrammar(m)
}
