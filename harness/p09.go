package main

import (
	"math/rand"
	"strings"

	"github.com/katydid/katydid/parser/yaml"
)

// ydoc writes a YAML document
type ydoc struct {
	r     *rand.Rand
	unit  string
	lines []string
	texts []string
}

func (y *ydoc) n(n int) int { return y.r.Intn(n) }

var yamlScalars = []string{"1", "0", "-1", "+7", "007", "00", "-01", "00.5", "0.5", "0e1", "true", "false", "1.5", "-0.25", "1e3", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809",
	"18446744073709551615", "18446744073709551616", "1e400", "yes", "hello", "a b", "é", "x/y", "a.b", "a-b", "1.0", "5.", ".5", "2e-1", "b2", "True", "true false", "1 2", "_", "10000000000000000000000"}

func (y *ydoc) scalar(colon bool) string {
	s := yamlScalars[y.n(len(yamlScalars))]
	if colon && y.n(8) == 0 {
		s += ":x"
	}
	y.texts = append(y.texts, s)
	return s
}

func (y *ydoc) key() string {
	return []string{"a", "b", "A", "Top", "x1", "k_y", "1", "true"}[y.n(8)]
}

func (y *ydoc) trail() string {
	return strings.Repeat(" ", []int{0, 0, 0, 1, 2}[y.n(5)])
}

func (y *ydoc) add(ind, s string) {
	y.lines = append(y.lines, ind+s)
	for y.n(10) == 0 {
		y.lines = append(y.lines, []string{"", " ", "\t", ind}[y.n(4)])
	}
}

func (y *ydoc) block(ind string, d int) {
	sub := ind + strings.Repeat(y.unit, 1+y.n(2))
	if y.n(3) == 0 { // a sequence
		for k := 1 + y.n(3); k > 0; k-- {
			dash := "-" + strings.Repeat(" ", 1+y.n(2))
			switch m := y.n(6); {
			case m == 0 && y.n(2) == 0:
				y.add(ind, "-"+y.trail())
			case m < 3:
				y.add(ind, dash+y.scalar(false)+y.trail())
			case m == 3:
				y.add(ind, dash+y.key()+": "+y.trail()+y.scalar(true)+y.trail())
			case m == 4 || d == 0:
				y.add(ind, dash+y.key()+":"+y.trail())
			default:
				y.add(ind, dash+y.key()+":"+y.trail())
				if y.unit == "\t" {
					y.block(sub, d-1)
				} else {
					y.block(ind+strings.Repeat(" ", len(dash)+1+y.n(2)), d-1)
				}
			}
		}
		return
	}
	for k := 1 + y.n(4); k > 0; k-- {
		switch m := y.n(6); {
		case m < 2:
			y.add(ind, y.key()+": "+y.trail()+y.scalar(true)+y.trail())
		case m == 2:
			y.add(ind, y.key()+":"+y.trail())
		case m == 3 && y.n(2) == 0:
			y.add(ind, y.key())
		case d > 0:
			y.add(ind, y.key()+":"+y.trail())
			y.block(sub, d-1)
		default:
			y.add(ind, y.key()+": "+y.scalar(true))
		}
	}
}

func yamlDoc(r *rand.Rand, depth, max int) (string, []string) {
	for {
		y := &ydoc{r: r, unit: []string{" ", "  ", "\t"}[r.Intn(3)]}
		for y.n(4) == 0 {
			y.lines = append(y.lines, "")
		}
		y.block(strings.Repeat(y.unit, []int{0, 0, 0, 1, 2}[y.n(5)]), depth)
		s := strings.Join(y.lines, "\n")
		if r.Intn(2) == 0 {
			s += "\n"
		}
		if len(s) <= max {
			return s, y.texts
		}
	}
}

// yamlBig writes a deep, wide or long document
func yamlBig(r *rand.Rand) (string, []string) {
	y := &ydoc{r: r, unit: " "}
	switch r.Intn(4) {
	case 0:
		for n := 15 + r.Intn(40); n > 0; n-- {
			if r.Intn(6) == 0 {
				y.add("", y.key()+":")
				y.block(" ", 0)
			} else {
				y.add("", y.key()+": "+y.scalar(true))
			}
		}
	case 1:
		y.add("", "a:")
		for n := 15 + r.Intn(40); n > 0; n-- {
			y.add(" ", "- "+y.scalar(false))
		}
		y.add("", "b: "+strings.Repeat(y.pick2(), 20+r.Intn(60))+"z")
	default:
		d := 6 + r.Intn(16)
		for i := 0; i <= d; i++ {
			ind := strings.Repeat(" ", i)
			if r.Intn(6) == 0 {
				y.add(ind, y.key()+": "+y.scalar(true))
			}
			y.add(ind, y.key()+":")
		}
		y.block(strings.Repeat(" ", d+1), 1)
		for i := d; i >= 0; i -= 1 + r.Intn(5) {
			y.add(strings.Repeat(" ", i), y.key()+": "+y.scalar(true))
		}
	}
	return strings.Join(y.lines, "\n"), y.texts
}

func (y *ydoc) pick2() string { return []string{"ab", "x.", "é", "a b"}[y.n(4)] }

var yamlNoise = []string{"\n", " ", "\t", ":", "-", "- ", "a", "1", "#", "\"", "{", "---", "\r", "\x00", "  ", "- - ", "\n- ", ": ", "\n\n", "é", "a:"}

func yamlCase(r *rand.Rand, malformed bool) M {
	nd := 1 + r.Intn(2)
	if malformed {
		nd = 2 + r.Intn(3)
	}
	docs, good, texts := []M{}, []bool{}, []string{}
	big := r.Intn(25) == 0
	for i := 0; i < nd; i++ {
		s, ts := "", []string{}
		if big && (i == 0 || r.Intn(2) == 0) {
			s, ts = yamlBig(r)
		} else {
			s, ts = yamlDoc(r, 1+r.Intn(3), 110)
		}
		g := true
		if malformed && (i > 0 || r.Intn(3) > 0) {
			g = false
			s = spoilText(r, s, yamlNoise)
		}
		nums := []M{}
		seen := map[string]bool{}
		for _, t := range ts {
			if !seen[t] && !oddNum.MatchString(t) {
				seen[t] = true
				nums = append(nums, M{"x": keyBytes([]byte(t)), "d": xmlDouble(t)})
			}
		}
		docs, good, texts = append(docs, M{"b": keyBytes([]byte(s)), "nums": nums}), append(good, g), append(texts, s)
	}
	p := yaml.NewYamlParser()
	bufs := make([][]byte, nd)
	d := &Drive{r: r, p: p, ndocs: nd, good: func(i int) bool { return good[i] }, reset: p.Reset,
		init: func(i int) error {
			bufs[i] = []byte(texts[i])
			return p.Init(bufs[i])
		}}
	d.deep = big
	d.run(steps(r, big))
	return M{"docs": docs, "steps": d.steps, "text": strings.Join(texts, "  ////  ") + "  ////  " + scheduleText(d.steps)}
}

func init() {
	makers["P09"] = func(r *rand.Rand, idx int, tier string) M { return yamlCase(r, false) }
	makers["P09junk"] = func(r *rand.Rand, idx int, tier string) M { return yamlCase(r, true) }
}
