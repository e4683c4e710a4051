package main

import (
	"fmt"
	"math/rand/v2"
	"runtime"
	"strings"

	dx "github.com/suiyunonghen/dxsvalue"
)

func yamlCase(c *C, anchors bool, budget, depth int) {
	s, n, y := genYAML(c.R, anchors, budget, depth)
	yamlCheck(c, s, n, y)
}

func yamlCheck(c *C, s string, n *N, y *yamlGen) {
	c.Describe(func() string { return s + "\n=> " + n.dump() })
	c.NonTrivial(s)
	feed(c, FYAML, []byte(s), n, diffOpt{Num: true, Unordered: y.merged})
	for k, v := range y.count {
		c.Ev(k, int64(v))
	}
	if y.count["aliases"]+y.count["merges"] > 0 { // copies are independent
		v, err := dx.NewValueFromYaml([]byte(s), c.R.IntN(2) == 0)
		if err != nil {
			c.Failf("refused: %v", err)
		}
		seen := map[*dx.DxValue]string{}
		if d := nodesOf(v, seen, "$"); d != "" {
			c.Failf("an alias shares a node: %s", d)
		}
	}
}

var yamlBits = []string{"- ", "-", ":", ": ", "a", "b: ", "key: v", "key:", "&x", "*x", "<<: *x", "<<:", " #", "#", "\n", "\n", "\n", "\n ", "\n  ", "\n    ", "\r\n", "\r", " ", "  ", "\t", "{", "}", "[1]", "'", "\"", "1", "-1.5", "true", "false", "null", "~", "&x 1", "- &y", "*y", "- *x", "---", "...", "|", ">", "? ", "%", "\x00", "\xff", "中", "&", "*", "<<: ", ":x", "- a: 1", "- - a"}

func yamlSoup(r *rand.Rand) string {
	var sb strings.Builder
	for k := 1 + r.IntN(14); k > 0; k-- {
		sb.WriteString(yamlBits[r.IntN(len(yamlBits))])
	}
	return sb.String()
}

// arbYAML makes an irregular document.
func arbYAML(r *rand.Rand) string {
	switch r.IntN(4) {
	case 0:
		return yamlSoup(r)
	case 1: // lines of a regular document, reindented, dropped, doubled or swapped
		s, _, _ := genYAML(r, true, 4+r.IntN(20), 4)
		l := strings.Split(s, "\n")
		for k := 1 + r.IntN(3); k > 0 && len(l) > 0; k-- {
			p := r.IntN(len(l))
			switch r.IntN(6) {
			case 0:
				l[p] = strings.Repeat(" ", r.IntN(8)) + strings.TrimLeft(l[p], " ")
			case 1:
				l = append(l[:p], l[p+1:]...)
			case 2:
				l = append(l[:p+1], l[p:]...)
			case 3:
				q := r.IntN(len(l))
				l[p], l[q] = l[q], l[p]
			case 4:
				l[p] = strings.Repeat(" ", r.IntN(4)) + yamlSoup(r)
			case 5:
				l[p] += yamlBits[r.IntN(len(yamlBits))]
			}
		}
		return strings.Join(l, "\n")
	}
	s, _, _ := genYAML(r, true, 4+r.IntN(20), 4)
	o, _, _ := genYAML(r, true, 4, 3)
	return string(mutateBytes(r, []byte(s), []byte(" \n-:#&*<{}[]\r\ta1\x00\xff"), []byte(o)))
}

// badYAML feeds one arbitrary text.
func badYAML(c *C, s string) {
	for _, e := range entriesOf[FYAML] {
		in := guard().place([]byte(s))
		if in == nil {
			return
		}
		var v *dx.DxValue
		var prev *dx.DxValue
		var err error
		if e.load {
			prev, _ = prevValue(c.R, e.cached)
		}
		run := func() {
			if e.load {
				v, err = prev, loadInto(FYAML, prev, in, false)
			} else {
				v, err = e.dec(c.R, in)
			}
		}
		if strings.Count(s, "*") <= 3 {
			c.bounded(e.name, len(s), run)
		} else {
			run()
		}
		c.Ev("inputs fed", 1)
		if err != nil {
			c.Ev("inputs refused", 1)
			if err.Error() == "" {
				c.Failf("%s: the error has no text", e.name)
			}
			if !e.load && v != nil {
				c.Failf("%s: an error and a value", e.name)
			}
			if e.load {
				usable(c, v, e.name+" failed")
			}
			continue
		}
		if v == nil {
			c.Failf("%s: neither a value nor an error", e.name)
		}
		n := snap(v)
		bad := ""
		n.walk(func(x *N) {
			if x.K == KBad {
				bad = x.S
			}
		})
		if bad != "" {
			c.Failf("%s: the tree holds a broken node: %s", e.name, bad)
		}
		seen := map[*dx.DxValue]string{}
		if d := nodesOf(v, seen, "$"); d != "" {
			c.Failf("%s: the tree shares a node: %s", e.name, d)
		}
		guard().revoke()
		if d := diff(n, snap(v), diffOpt{}); d != "" {
			c.Failf("%s: content changed: %s", e.name, d)
		}
		c.Ev("inputs accepted", 1)
	}
}

func yamlResult(s string, cached bool) string {
	v, err := dx.NewValueFromYaml([]byte(s), cached)
	if err != nil {
		return "error"
	}
	return snap(v).dump()
}

func init() {
	register(&Prop{ID: "C10", Scale: 18,
		Rule:   "A case is a random document of the block subset written together with the tree it denotes (nested mappings and sequences, '- key: value' items, plain scalars incl. number-like texts, comments, blank lines, CRLF, anchors, redefined anchors, aliases, merges with colliding keys), decoded by all 4 entry points from read-only memory that is revoked afterwards. Node identities show that aliases are copies. Distinct = distinct documents.",
		Assume: []string{"numbers are -?digits[.digits][exponent], as float64; other YAML number spellings, quoting, flow style, tabs, null words and multi-line scalars are outside the subset", "key order of a mapping with a merge is left open"},
		Gens: []*Gen{
			{Name: "plain", Quick: 8000, Fn: func(c *C, i int) { yamlCase(c, false, 5+c.R.IntN(25), 1+c.R.IntN(5)) }},
			{Name: "anchors", Quick: 14000, Fn: func(c *C, i int) { yamlCase(c, true, 8+c.R.IntN(30), 2+c.R.IntN(4)) }},
			{Name: "big", Quick: 300, Fn: func(c *C, i int) { yamlCase(c, c.R.IntN(2) == 0, 60+c.R.IntN(300), 40) }},
			{Name: "deep", Quick: 500, Fn: func(c *C, i int) {
				s, n, y := genDeepYAML(c.R)
				yamlCheck(c, s, n, y)
			}},
			{Name: "scalars", Quick: 2000, Fn: func(c *C, i int) {
				y := &yamlGen{r: c.R, count: map[string]int{}}
				n, a := nObj(), nArr()
				var sb strings.Builder
				for k := 0; k < 20; k++ {
					s, x := y.scalar()
					if i*20+k < len(yamlTexts) {
						s = yamlTexts[i*20+k]
						x = nStr(s)
					}
					fmt.Fprintf(&sb, "k%d: %s\n", k, s)
					n.add(fmt.Sprintf("k%d", k), x)
				}
				sb.WriteString("list:\n")
				for k := 0; k < 20; k++ {
					s, x := y.scalar()
					fmt.Fprintf(&sb, "  - %s\n", s)
					a.C = append(a.C, x)
				}
				n.add("list", a)
				c.Describe(sb.String)
				c.NonTrivial(sb.String())
				feed(c, FYAML, []byte(sb.String()), n, diffOpt{Num: true})
			}},
		}})
	register(&Prop{ID: "C11", Scale: 5,
		Rule:   "A case is an irregular text (token soup, shuffled and reindented lines of regular documents, byte-level damage) fed to all 4 entry points in guarded memory with metered allocation; or a history: the result of a text decoded after other (failing and succeeding) parses must equal the result it gives after the parser pool was drained by two collections. Distinct = distinct texts.",
		Assume: []string{"memory is metered for texts with at most three aliases, because aliases copy their anchor"},
		Gens: []*Gen{
			{Name: "irregular", Quick: 40000, Fn: func(c *C, i int) {
				s := arbYAML(c.R)
				c.Describe(func() string { return fmt.Sprintf("%q", s) })
				c.NonTrivial(s)
				badYAML(c, s)
			}},
			{Name: "truncate", Quick: 300, Fn: func(c *C, i int) {
				s, _, _ := genYAML(c.R, true, 4+c.R.IntN(20), 4)
				if len(s) > 500 {
					s = s[:500]
				}
				c.Describe(func() string { return fmt.Sprintf("prefixes of %q", s) })
				for k := 0; k <= len(s); k++ {
					c.NonTrivial(s[:k])
					badYAML(c, s[:k])
				}
			}},
			{Name: "large", Quick: 48, Thorough: 1200, Fn: func(c *C, i int) {
				unit := []string{"-\n", "- ", "a:\n", " ", "\n", "- a: b\n", "&x ", "a: *x\n", ":", "#", "\r", "<<: *x\n"}[i%12]
				var sb strings.Builder
				if c.R.IntN(2) == 0 { // ever deeper
					for k := 0; sb.Len() < 60000; k++ {
						sb.WriteString(strings.Repeat(" ", k) + unit + "\n")
					}
				} else {
					for sb.Len() < 60000 {
						sb.WriteString(unit)
					}
				}
				s := sb.String()
				c.Describe(func() string { return fmt.Sprintf("%q repeated, %d bytes", unit, len(s)) })
				c.NonTrivial(s)
				badYAML(c, s)
			}},
			{Name: "history", Quick: 2500, Fn: func(c *C, i int) {
				texts := make([]string, 4+c.R.IntN(6))
				for k := range texts {
					if c.R.IntN(2) == 0 {
						texts[k], _, _ = genYAML(c.R, true, 6+c.R.IntN(20), 4)
					} else {
						texts[k] = arbYAML(c.R)
					}
				}
				c.Describe(func() string { return fmt.Sprintf("%q", texts) })
				want := make([]string, len(texts))
				probe := c.R.IntN(len(texts))
				runtime.GC()
				runtime.GC()
				want[probe] = yamlResult(texts[probe], false)
				for k := 0; k < 20; k++ {
					q := c.R.IntN(len(texts))
					cached := c.R.IntN(2) == 0
					got := yamlResult(texts[q], cached)
					if want[q] == "" {
						want[q] = got
					} else if want[q] != got {
						c.Failf("text %d gives %s after other parses, %s before", q, got, want[q])
					}
					if c.R.IntN(6) == 0 {
						v := dx.NewObject(cached)
						v.LoadFromYaml([]byte(texts[c.R.IntN(len(texts))]))
					}
				}
				if got := yamlResult(texts[probe], true); got != want[probe] {
					c.Failf("text %d gives %s after other parses, %s in a fresh parser", probe, got, want[probe])
				}
				c.NonTrivial(strings.Join(texts, "\x00"))
				c.Ev("parses compared across histories", 21)
			}},
		}})
}
