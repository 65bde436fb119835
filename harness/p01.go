package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"strings"

	"github.com/katydid/katydid/parser/json"
)

// jdoc writes a JSON document
type jdoc struct {
	r *rand.Rand
	b strings.Builder
}

func (j *jdoc) n(n int) int { return j.r.Intn(n) }

func (j *jdoc) ws() {
	for j.n(5) == 0 {
		j.b.WriteByte(" \t\n\r"[j.n(4)])
	}
}

var jstrPieces = []string{"a", "b", "1", " ", "{", "}", "[", "]", ",", ":", "'", "true", "\\\"", "\\\\", "\\/", "\\b", "\\f", "\\n", "\\r", "\\t",
	"\\u0041", "\\u00e9", "\\u20aC", "\\uD83D\\uDE00", "\\ud800", "\\uDC00", "\\ud800\\u0041", "\\u0000", "\\u0022", "\\u005c", "é", "€", "😀", "\x7f", "\\\\\\\"", "\\u005B", "\\ud83d\\ud83d\\ude00", "\\ud800\\ndc00", "\\uDBFF\\tdFFF", "\\ud83d\\\\uDE00", "\\ud83dudc00", "\\uD83D\\\"DE00"}

func (j *jdoc) str() {
	j.b.WriteByte('"')
	for k := j.n(4); k > 0; k-- {
		j.b.WriteString(jstrPieces[j.n(len(jstrPieces))])
	}
	j.b.WriteByte('"')
}

var jnums = []string{"0", "-0", "1", "-1", "7", "42", "1234567890", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809",
	"18446744073709551615", "18446744073709551616", "1e3", "1E+08", "-2e2", "120e-1", "125e-2", "1.5", "-0.5", "0.1", "1.0", "100.0e1", "3.14159", "1e400", "-1e400", "1e-400", "0e5", "0.0", "-0.0",
	"9007199254740993", "4.9e-324", "1.7976931348623157e308", "123456789012345678901234567890", "2.50e1", "5e-1", "10e-1", "1e15", "1e18", "0.30000000000000004"}

func (j *jdoc) num() {
	switch j.n(4) {
	case 0:
		fmt.Fprintf(&j.b, "%d", j.n(2000)-1000)
	case 1:
		fmt.Fprintf(&j.b, "%g", float64(j.n(20000)-10000)/float64([]int{1, 2, 4, 8, 10, 100, 1000}[j.n(7)]))
	default:
		j.b.WriteString(jnums[j.n(len(jnums))])
	}
}

func (j *jdoc) val(d int) {
	k := j.n(10)
	if d <= 0 {
		k = 4 + j.n(6)
	}
	switch k {
	case 0, 1:
		j.list('{', '}', func() {
			j.str()
			j.ws()
			j.b.WriteByte(':')
			j.ws()
			j.val(d - 1)
		})
	case 2, 3:
		j.list('[', ']', func() { j.val(d - 1) })
	case 4, 5:
		j.str()
	case 6, 7:
		j.num()
	default:
		j.b.WriteString([]string{"true", "false", "null"}[j.n(3)])
	}
}

func (j *jdoc) list(open, end byte, elem func()) {
	j.b.WriteByte(open)
	j.ws()
	for k := j.n(4); k > 0; k-- {
		elem()
		j.ws()
		if k > 1 {
			j.b.WriteByte(',')
			j.ws()
		}
	}
	j.b.WriteByte(end)
}

func jsonDoc(r *rand.Rand, depth int, max int) string {
	for {
		j := &jdoc{r: r}
		j.ws()
		if r.Intn(6) == 0 {
			j.val(depth)
		} else {
			for {
				k := j.b.Len()
				j.val(depth)
				s := strings.TrimLeft(j.b.String(), " \t\r\n")
				if s[0] == '{' || s[0] == '[' {
					break
				}
				x := j.b.String()[:k]
				j.b.Reset()
				j.b.WriteString(x)
			}
		}
		j.ws()
		if j.b.Len() <= max {
			return j.b.String()
		}
	}
}

// jsonBig writes a deep, wide or long document
func jsonBig(r *rand.Rand) string {
	j := &jdoc{r: r}
	long := func() string {
		k := &jdoc{r: r}
		k.b.WriteByte('"')
		p := jstrPieces
		if r.Intn(2) == 0 {
			a := r.Intn(len(p) - 3)
			p = p[a : a+3]
		}
		for n := 40 + r.Intn(100); n > 0; n-- {
			k.b.WriteString(p[r.Intn(len(p))])
		}
		k.b.WriteByte('"')
		return k.b.String()
	}
	in := func(n int, f func(i int)) {
		obj := r.Intn(2) == 0
		j.b.WriteByte("[{"[bool2int(obj)])
		for i := 0; i < n; i++ {
			if i > 0 {
				j.b.WriteByte(',')
			}
			if obj {
				j.b.WriteString([]string{`"a":`, `"":`, `"b\n":`}[r.Intn(3)])
			}
			f(i)
		}
		j.b.WriteByte("]}"[bool2int(obj)])
	}
	leaf := func() {
		switch r.Intn(4) {
		case 0:
			j.num()
		case 1:
			j.str()
		default:
			j.val(0)
		}
	}
	switch r.Intn(4) {
	case 0: // wide
		n := 20 + r.Intn(40)
		in(n, func(i int) {
			if r.Intn(6) == 0 {
				j.val(1)
			} else {
				leaf()
			}
		})
	case 1: // long
		n := 1 + r.Intn(3)
		in(n, func(i int) {
			if i == n-1 || r.Intn(3) == 0 {
				j.b.WriteString(long())
			} else {
				leaf()
			}
		})
	default: // deep
		var deep func(d int)
		deep = func(d int) {
			if d == 0 {
				j.val(1)
				return
			}
			n := 1 + r.Intn(3)/2
			at := r.Intn(n)
			in(n, func(i int) {
				if i == at {
					deep(d - 1)
				} else {
					leaf()
				}
			})
		}
		deep(6 + r.Intn(25))
	}
	return j.b.String()
}

func bool2int(b bool) int {
	if b {
		return 1
	}
	return 0
}

// spoilText makes a small change to a text
func spoilText(r *rand.Rand, s string, alphabet []string) string {
	for k := 1 + r.Intn(2); k > 0; k-- {
		i := 0
		if len(s) > 0 {
			i = r.Intn(len(s))
		}
		switch r.Intn(6) {
		case 0, 1:
			s = s[:i]
		case 2:
			if len(s) > 0 {
				s = s[:i] + s[i+1:]
			}
		case 3, 4:
			x := alphabet[r.Intn(len(alphabet))]
			if r.Intn(6) == 0 {
				x = []string{"\xff", "\x80", "\xed\xa0\x80", "\xf0\x9f", "\x00", "\u00e9", "\U0001d11e", "\ufeff"}[r.Intn(8)]
				if r.Intn(2) == 0 { // in front of the end of a string or name
					if q := strings.IndexAny(s[i:], "\"'<:"); q >= 0 {
						i += q
					}
				}
			}
			if r.Intn(4) == 0 {
				x = strings.Repeat(x, 2+r.Intn([]int{4, 30}[r.Intn(2)]))
			}
			s = s[:i] + x + s[i:]
		case 5:
			e := i + r.Intn(len(s)-i+1)
			s = s[:i] + s[e:] + s[i:e]
		}
	}
	return s
}

var jsonNoise = []string{"{", "}", "[", "]", "\"", ":", ",", "\\", "1", "-", "0", ".", "e", "true", "nul", " ", "\\u12", "\\u", "\x01", "\n", "a", "\\\"", "\\x", "\u2028", "\u0085"}

func nearest(text string) []interface{} {
	f, _, err := big.ParseFloat(text, 10, 2000, big.ToNearestEven)
	if err != nil {
		return []interface{}{}
	}
	d, _ := f.Float64()
	if d > 1.7976931348623157e308 || d < -1.7976931348623157e308 {
		return []interface{}{}
	}
	return []interface{}{keyDouble(d)}
}

func jsonRec(s string) M {
	nums := []M{}
	seen := map[string]bool{}
	for _, x := range numRun.FindAllString(s, -1) {
		if !seen[x] && len(x) < 60 {
			seen[x] = true
			nums = append(nums, M{"x": keyBytes([]byte(x)), "d": nearest(x)})
		}
	}
	return M{"b": keyBytes([]byte(s)), "nums": nums, "s": s}
}

func jsonCase(r *rand.Rand, malformed bool, tier string) M {
	nd := 1 + r.Intn(2)
	if malformed {
		nd = 2 + r.Intn(3)
	}
	docs, good, texts := []M{}, []bool{}, []string{}
	big := r.Intn(25) == 0
	for i := 0; i < nd; i++ {
		s := ""
		if big && (i == 0 || r.Intn(2) == 0) {
			s = jsonBig(r)
		} else {
			s = jsonDoc(r, 1+r.Intn(3), 70)
		}
		g := true
		if malformed && (i > 0 || r.Intn(3) > 0) {
			g = false
			s = spoilText(r, s, jsonNoise)
		}
		docs, good, texts = append(docs, jsonRec(s)), append(good, g), append(texts, s)
	}
	p := json.NewJsonParser()
	bufs := make([][]byte, nd)
	d := &Drive{r: r, p: p, ndocs: nd, good: func(i int) bool { return good[i] }, reset: p.Reset,
		init: func(i int) error {
			bufs[i] = []byte(texts[i])
			return p.Init(bufs[i])
		}}
	d.deep = big
	d.run(steps(r, big))
	return M{"docs": docs, "steps": d.steps, "text": strings.Join(texts, "  ////  ") + "  ////  " + scheduleText(d.steps)}
}

func steps(r *rand.Rand, big bool) int {
	if big {
		return 50 + r.Intn(150)
	}
	return 12 + r.Intn(30)
}

func init() {
	makers["P01"] = func(r *rand.Rand, idx int, tier string) M { return jsonCase(r, false, tier) }
	makers["P02"] = func(r *rand.Rand, idx int, tier string) M { return jsonCase(r, true, tier) }
}
