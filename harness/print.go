package main

import (
	"fmt"
	"math"
	"math/rand"
	"strconv"
	"strings"
)

// Printer writes relapse text.  With a random source it varies white space,
// comments and the equivalent surface forms.
type Printer struct {
	r        *rand.Rand
	noise    bool
	comments bool
	b        strings.Builder
}

func (pr *Printer) sp() {
	if !pr.noise || pr.r.Intn(3) != 0 {
		return
	}
	pr.anySpace()
}

func (pr *Printer) anySpace() {
	n := 1 + pr.r.Intn(2)
	for i := 0; i < n; i++ {
		switch k := pr.r.Intn(8); {
		case k < 4:
			pr.b.WriteString(" ")
		case k == 4:
			pr.b.WriteString("\n")
		case k == 5:
			pr.b.WriteString("\t")
		case k == 6 && pr.comments:
			pr.b.WriteString([]string{"/*c*/", "/* x y */", "/**/"}[pr.r.Intn(3)])
		case k == 7 && pr.comments:
			pr.b.WriteString([]string{"//c\n", "// x:* \n", "//\n"}[pr.r.Intn(3)])
		default:
			pr.b.WriteString(" ")
		}
	}
}

func (pr *Printer) w(s string) { pr.b.WriteString(s) }

func isIdent(s string) bool {
	if s == "" {
		return false
	}
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c == '_' && i == 0 && len(s) == 1 {
			return false
		}
		if !(c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || i > 0 && c >= '0' && c <= '9') {
			return false
		}
	}
	return s != "true" && s != "false"
}

func (pr *Printer) literal(v *Val) string {
	switch v.T {
	case "double":
		if math.IsInf(v.D, 0) || math.IsNaN(v.D) {
			panic("no literal")
		}
		s := strconv.FormatFloat(v.D, 'f', -1, 64)
		if pr.noise && pr.r.Intn(2) == 0 {
			s = strconv.FormatFloat(v.D, 'e', -1, 64)
		}
		return "double(" + s + ")"
	case "int":
		if v.I == 0 || pr.noise && pr.r.Intn(2) == 0 {
			return strconv.FormatInt(v.I, 10)
		}
		if pr.noise {
			return "int(" + strconv.FormatInt(v.I, 10) + ")"
		}
		return strconv.FormatInt(v.I, 10)
	case "uint":
		return "uint(" + strconv.FormatUint(v.U, 10) + ")"
	case "bool":
		return strconv.FormatBool(v.B)
	case "string":
		s := string(v.S)
		if pr.noise && pr.r.Intn(2) == 0 && strconv.CanBackquote(s) {
			return "`" + s + "`"
		}
		return strconv.Quote(s)
	case "bytes":
		ss := make([]string, len(v.S))
		for i, c := range v.S {
			ss[i] = fmt.Sprintf("0x%02x", c)
		}
		return "[]byte{" + strings.Join(ss, ",") + "}"
	}
	panic("literal " + v.T)
}

var listPrefix = map[string]string{"doubles": "[]double", "ints": "[]int", "uints": "[]uint", "bools": "[]bool", "strings": "[]string", "byteses": "[][]byte"}
var varName = map[string]string{"double": "$double", "int": "$int", "uint": "$uint", "bool": "$bool", "string": "$string", "bytes": "$[]byte"}

func (pr *Printer) expr(e *Expr) {
	pr.sp()
	switch e.K {
	case "const":
		if strings.HasSuffix(e.T, "s") && e.T != "bytes" {
			panic("const list")
		}
		pr.w(pr.literal(e.V))
	case "var":
		pr.w(varName[e.T])
	case "ctx":
		pr.w(e.N)
		pr.sp()
		pr.w("(")
		pr.sp()
		pr.w(")")
	case "list":
		pr.w(listPrefix[e.T])
		pr.w("{")
		for i, a := range e.A {
			if i > 0 {
				pr.sp()
				pr.w(",")
			}
			pr.expr(a)
		}
		pr.sp()
		pr.w("}")
	case "fn":
		pr.w(e.N)
		pr.sp()
		pr.w("(")
		for i, a := range e.A {
			if i > 0 {
				pr.sp()
				pr.w(",")
			}
			pr.expr(a)
		}
		pr.sp()
		pr.w(")")
	case "op":
		// a separating space: "a:" followed by ":: $int" would lex as "::" ":"
		if s := pr.b.String(); s != "" && strings.ContainsRune(":=<>!~*^$", rune(s[len(s)-1])) {
			pr.w(" ")
		}
		pr.w(e.N)
		pr.w(" ")
		pr.expr(e.A[0])
	}
}

func (pr *Printer) allExpr(e *Expr) {
	if e.K == "op" {
		pr.expr(e)
		return
	}
	pr.sp()
	pr.w("->")
	pr.expr(e)
}

func (pr *Printer) name(n *NameE) {
	pr.sp()
	switch n.K {
	case "any":
		pr.w("_")
	case "name":
		if n.V.T == "string" && isIdent(string(n.V.S)) && !(pr.noise && pr.r.Intn(3) == 0) {
			pr.w(string(n.V.S))
		} else {
			pr.w(pr.literal(n.V))
		}
	case "not":
		pr.w("!")
		pr.sp()
		pr.w("(")
		pr.name(n.A)
		pr.sp()
		pr.w(")")
	case "or":
		pr.w("(")
		pr.name(n.A)
		rest := n.B
		for {
			pr.sp()
			pr.w("|")
			if rest.K == "or" && pr.noise && pr.r.Intn(2) == 0 {
				pr.name(rest.A)
				rest = rest.B
				continue
			}
			pr.name(rest)
			break
		}
		pr.sp()
		pr.w(")")
	}
}

func (pr *Printer) bin(open, sep, close, k string, p *Pat, extra bool) {
	pr.sp()
	pr.w(open)
	pr.pat(p.A)
	rest := p.B
	for {
		pr.sp()
		pr.w(sep)
		if rest.K == k && pr.noise && pr.r.Intn(2) == 0 {
			pr.pat(rest.A)
			rest = rest.B
			continue
		}
		pr.pat(rest)
		break
	}
	if extra && pr.noise && pr.r.Intn(4) == 0 {
		pr.sp()
		pr.w(sep)
	}
	pr.sp()
	pr.w(close)
}

func (pr *Printer) un(open string, p *Pat, close string) {
	pr.sp()
	pr.w(open)
	pr.pat(p.A)
	pr.sp()
	pr.w(")")
	if close != "" {
		pr.sp()
		pr.w(close)
	}
}

func (pr *Printer) pat(p *Pat) {
	switch p.K {
	case "empty":
		pr.sp()
		pr.w("<empty>")
	case "zany":
		pr.sp()
		pr.w("*")
	case "tree":
		pr.name(p.N)
		depth := p.A.K == "concat" || p.A.K == "inter" || p.A.K == "contains" || p.A.K == "leaf"
		if !depth || !pr.noise || pr.r.Intn(2) == 0 {
			pr.sp()
			pr.w(":")
		} else {
			pr.w(" ")
		}
		pr.pat(p.A)
	case "leaf":
		pr.allExpr(p.E)
	case "concat":
		pr.bin("[", ",", "]", "concat", p, true)
	case "inter":
		pr.bin("{", ";", "}", "inter", p, true)
	case "or":
		pr.bin("(", "|", ")", "or", p, false)
	case "and":
		pr.bin("(", "&", ")", "and", p, false)
	case "star":
		pr.un("(", p, "*")
	case "opt":
		pr.un("(", p, "?")
	case "not":
		pr.sp()
		pr.w("!")
		pr.un("(", p, "")
	case "contains":
		pr.sp()
		pr.w(".")
		pr.pat(p.A)
	case "ref":
		pr.sp()
		pr.w("@" + p.Ref)
	default:
		panic("pat " + p.K)
	}
}

func (pr *Printer) gram(g *Gram) string {
	pr.pat(g.Main)
	for _, d := range g.Refs {
		pr.w("\n")
		pr.sp()
		pr.w("#" + d.Name)
		pr.sp()
		pr.w("=")
		pr.pat(d.P)
	}
	if pr.noise && pr.r.Intn(3) == 0 {
		pr.anySpace()
	}
	return pr.b.String()
}

func GramText(g *Gram, r *rand.Rand) string {
	pr := &Printer{r: r, noise: r != nil, comments: r != nil}
	return pr.gram(g)
}

func PatText(p *Pat) string {
	pr := &Printer{}
	pr.pat(p)
	return pr.b.String()
}

func ExprText(e *Expr, r *rand.Rand) string {
	pr := &Printer{r: r, noise: r != nil}
	pr.allExpr(e)
	return pr.b.String()
}
