package main

import (
	"math/rand"
	"regexp"
	"strings"

	"github.com/katydid/katydid/parser/xml"
)

// xdoc writes an XML document
type xdoc struct {
	r     *rand.Rand
	b     strings.Builder
	texts []string
}

func (x *xdoc) n(n int) int { return x.r.Intn(n) }

func (x *xdoc) pick(ss ...string) string { return ss[x.n(len(ss))] }

func (x *xdoc) name() string {
	return x.pick("a", "b", "c", "Top", "a-1", "_x.y", "é", "p:a", "q:b", "A", "xsl:if", "aéb")
}

func (x *xdoc) sp(min int) {
	for i := 0; i < min || x.n(5) == 0; i++ {
		x.b.WriteByte(" \t\n\r"[x.n(4)])
	}
}

var xmlTexts = []string{"1", "0", "-1", "+7", "007", "true", "false", "TRUE", "t", " true ", "\n0 ", "1.5", "-0.25", "1e3", "inf", "-Inf", "NaN", "0x10", "0x1p-2", "1_000", "9223372036854775807", "9223372036854775808",
	"-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "1e400", "-", "+", ".", ".5", "5.", "yes", "hello", "é", "€", "😀", "]]", "]>", "a b", " ", "\n", " 1", "1 ", "Inf", "--", "/", "=", "'", "\"", ">", "?", "?>", "\t"}

// text writes a piece of text and remembers what it means
func (x *xdoc) text(quote string) {
	t := ""
	put := func(raw, means string) {
		x.b.WriteString(raw)
		t += means
	}
	plain := x.pick(xmlTexts...)
	if quote != "" && (strings.Contains(plain, quote) || strings.ContainsAny(plain, "\n\t\r")) || strings.Contains(plain, "]") && x.n(2) == 0 {
		plain = ""
	}
	switch x.n(6) {
	case 0:
		e := [][2]string{{"&lt;", "<"}, {"&gt;", ">"}, {"&amp;", "&"}, {"&apos;", "'"}, {"&quot;", "\""}, {"&#65;", "A"}, {"&#x2d;", "-"}, {"&#x1F600;", "😀"}, {"&#x49;", "I"},
			{"&#13;", "\r"}, {"&#10;", "\n"}, {"&#x9;", "\t"}, {"&#49;", "1"}, {"&#233;", "é"}, {"&#x5D;", "]"}, {"&#00032;", " "}}[x.n(16)]
		put(e[0], e[1])
		put(plain, plain)
	case 1:
		if quote == "" && plain != "" {
			put(plain+"\r\n", plain+"\n")
			put("\r1", "\n1")
		} else {
			put(plain, plain)
		}
	default:
		put(plain, plain)
	}
	if quote == "" && x.n(8) == 0 {
		put("<?pi "+x.pick("", "x='1'", "?", ">", "</a>", "\n")+"?>", "")
		y := x.pick(xmlTexts...)
		if !strings.Contains(t+y, "]") {
			put(y, y)
		}
	}
	x.texts = append(x.texts, t)
}

func (x *xdoc) elem(d int) {
	n := x.name()
	x.b.WriteString("<" + n)
	used := map[string]bool{}
	for k := x.n(5) - 2; k > 0; k-- {
		a := x.pick("a", "b", "c", "p:a", "xmlns", "xmlns:p", "d", "é")
		if used[a] {
			continue
		}
		used[a] = true
		x.sp(1)
		x.b.WriteString(a)
		x.sp(0)
		x.b.WriteByte('=')
		x.sp(0)
		q := x.pick("\"", "'")
		x.b.WriteString(q)
		x.text(q)
		x.b.WriteString(q)
	}
	x.sp(0)
	if x.n(4) == 0 {
		x.b.WriteString("/>")
		return
	}
	x.b.WriteByte('>')
	for k := x.n(5); k > 0; k-- {
		switch m := x.n(10); {
		case m < 4 && d > 0:
			x.elem(d - 1)
		case m == 4:
			x.b.WriteString("<!--" + x.pick("", " x ", "<a>", "<?", "-?>", "é", "&", "]]>", "<![CDATA[", "</a>\n") + "-->")
		case m == 5:
			t := x.pick("", "1", "<a>", "&amp;", "]]", "true", "<?x?>", "<!--", "\n", "]", "> ")
			x.b.WriteString("<![CDATA[" + t + "]]>")
			x.texts = append(x.texts, t)
		case m == 6 && x.n(2) == 0:
			x.b.WriteString("<?" + x.pick("pi", "php", "a") + x.pick("", " ", " x", " x?y", " <b>", " -->", "\n<b/>\n") + "?>")
		default:
			x.text("")
		}
	}
	x.b.WriteString("</" + n)
	x.sp(0)
	x.b.WriteByte('>')
}

func xmlDoc(r *rand.Rand, depth, max int) (string, []string) {
	for {
		x := &xdoc{r: r}
		x.sp(0)
		if x.n(4) == 0 {
			x.b.WriteString(x.pick(`<?xml version="1.0"?>`, `<?xml version="1.0" encoding="UTF-8"?>`, `<?pi?>`, "<?a\n?>"))
			x.sp(0)
		}
		if x.n(8) == 0 {
			x.b.WriteString(x.pick("<!--c-->", "<!DOCTYPE a>"))
		}
		x.elem(depth)
		if x.n(8) == 0 {
			x.b.WriteString(x.pick("<!--c-->", "<?pi?>", "<?pi <?a?>"))
		}
		x.sp(0)
		if x.b.Len() <= max {
			return x.b.String(), x.texts
		}
	}
}

// xmlBig writes a deep, wide or long document
func xmlBig(r *rand.Rand) (string, []string) {
	x := &xdoc{r: r}
	if x.n(4) == 0 {
		x.b.WriteString(`<?xml version="1.0"?>`)
	}
	attrs := func(k int) {
		for i := 0; i < k; i++ {
			q := x.pick("\"", "'")
			x.sp(1)
			x.b.WriteString(string(rune('a'+i%26)) + strings.Repeat("x", i/26) + "=" + q)
			x.text(q)
			x.b.WriteString(q)
		}
	}
	long := func() {
		t := ""
		ent := [][2]string{{"&lt;", "<"}, {"&amp;", "&"}, {"&#x1F600;", "😀"}, {"&#13;", "\r"}, {"\r\n", "\n"}, {"a", "a"}, {"é", "é"}, {"1", "1"}, {" ", " "}, {"]", "]"}, {"<!--c-->", ""}, {"<?p?>", ""}}
		a := r.Intn(len(ent) - 2)
		m := 2 + r.Intn(len(ent)-a-1)
		for n := 30 + r.Intn(120); n > 0; n-- {
			e := ent[a+r.Intn(m)]
			x.b.WriteString(e[0])
			t += e[1]
		}
		x.texts = append(x.texts, t)
	}
	var deep func(d int)
	deep = func(d int) {
		if d == 0 {
			x.elem(1)
			return
		}
		n := x.name()
		x.b.WriteString("<" + n)
		if x.n(5) == 0 {
			attrs(1 + r.Intn(3))
		}
		x.b.WriteByte('>')
		if x.n(5) == 0 {
			x.text("")
		}
		deep(d - 1)
		if x.n(5) == 0 {
			x.text("")
		}
		x.b.WriteString("</" + n + ">")
	}
	switch x.n(6) {
	case 0:
		x.b.WriteString("<w")
		attrs(10 + r.Intn(25))
		x.b.WriteString("><v")
		attrs(r.Intn(10))
		x.b.WriteString("/></w>")
	case 1:
		x.b.WriteString("<w>")
		for n := 15 + r.Intn(30); n > 0; n-- {
			switch x.n(5) {
			case 0:
				x.text("")
			case 1:
				x.elem(0)
			default:
				x.b.WriteString(x.pick("<a/>", "<b></b>", "<!--x-->", "<c>1</c>", "<![CDATA[]]>"))
			}
		}
		x.b.WriteString("</w>")
	case 2:
		x.b.WriteString("<w>")
		long()
		x.b.WriteString(x.pick("", "<a/>", "<a>", "<b>"))
		s := x.b.String()
		if strings.HasSuffix(s, "<a>") || strings.HasSuffix(s, "<b>") {
			long()
			x.b.WriteString("</" + s[len(s)-2:])
		}
		x.b.WriteString("</w>")
	default:
		deep(6 + r.Intn(20))
	}
	return x.b.String(), x.texts
}

var xmlNoise = []string{"<", ">", "</", "/>", "<a>", "</a>", "<b/>", "\"", "'", "=", "&", ";", "&amp;", "&#", "<!--", "-->", "--", "<![CDATA[", "]]>", "<?", "?>", " ", "a", ":", "1", "\x01", "\xff", "&#0;", "&nbsp;", "<!", "é", "<?x?>", "\n"}

var decimal = regexp.MustCompile(`^[-+]?([0-9]+(\.[0-9]*)?|\.[0-9]+)([eE][-+]?[0-9]+)?$`)

// oddNum matches other notations of a double, which are not judged
var oddNum = regexp.MustCompile(`(?i)inf|nan|0x|_`)

func xmlDouble(t string) []interface{} {
	if !decimal.MatchString(t) {
		return []interface{}{}
	}
	return nearest(t)
}

func xmlCase(r *rand.Rand, malformed bool) M {
	nd := 1 + r.Intn(2)
	if malformed {
		nd = 2 + r.Intn(3)
	}
	docs, good, texts := []M{}, []bool{}, []string{}
	big := r.Intn(25) == 0
	for i := 0; i < nd; i++ {
		s, ts := "", []string{}
		if big && (i == 0 || r.Intn(2) == 0) {
			s, ts = xmlBig(r)
		} else {
			s, ts = xmlDoc(r, 1+r.Intn(3), 90)
		}
		g := true
		if malformed && (i > 0 || r.Intn(3) > 0) {
			g = false
			if r.Intn(2) == 0 {
				s = s[:r.Intn(len(s))]
			} else {
				s = spoilText(r, s, xmlNoise)
			}
		}
		nums := []M{}
		seen := map[string]bool{}
		for _, t := range ts {
			if !seen[t] && !oddNum.MatchString(t) {
				seen[t] = true
				nums = append(nums, M{"x": keyBytes([]byte(t)), "d": xmlDouble(t)})
			}
		}
		docs, good, texts = append(docs, M{"b": keyBytes([]byte(s)), "nums": nums}), append(good, g), append(texts, s)
	}
	opts := []xml.Option{}
	pre := M{"elem": []int{}, "attr": []int{}, "text": []int{}}
	if r.Intn(2) == 0 {
		for _, k := range []string{"elem", "attr", "text"} {
			s := []string{"", "e_", "@", "#t", "1"}[r.Intn(5)]
			pre[k] = keyBytes([]byte(s))
			switch k {
			case "elem":
				opts = append(opts, xml.WithElemPrefix(s))
			case "attr":
				opts = append(opts, xml.WithAttrPrefix(s))
			default:
				opts = append(opts, xml.WithTextPrefix(s))
			}
		}
	}
	p := xml.NewXMLParser(opts...)
	bufs := make([][]byte, nd)
	d := &Drive{r: r, p: p, ndocs: nd, good: func(i int) bool { return good[i] }, reset: p.Reset,
		init: func(i int) error {
			bufs[i] = []byte(texts[i])
			return p.Init(bufs[i])
		}}
	d.deep = big
	d.run(steps(r, big))
	return M{"docs": docs, "pre": pre, "steps": d.steps, "text": strings.Join(texts, "  ////  ") + "  ////  " + scheduleText(d.steps)}
}

func init() {
	makers["P07"] = func(r *rand.Rand, idx int, tier string) M { return xmlCase(r, false) }
	makers["P08"] = func(r *rand.Rand, idx int, tier string) M { return xmlCase(r, true) }
}
