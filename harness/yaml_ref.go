package main

import (
	"fmt"
	"math/rand/v2"
	"strconv"
	"strings"
)

// yamlGen writes a random document of the supported block subset together with the tree it denotes.
type yamlGen struct {
	r       *rand.Rand
	sb      strings.Builder
	eol     string
	noise   bool // comments and blank lines
	anchors bool
	names   []string // anchors defined so far
	vals    map[string]*N
	open    map[string]bool
	fresh   int
	merged  bool
	budget  int
	count   map[string]int
}

var yamlTexts = []string{"hello", "a b", "a  b   c", "http://host:80/x?y=1", "10:30", "2024-01-02", "1.2.3", "v1.2", "12abc", "1,000", "1 2", "e5", "1e", "5-",
	"a#b", "a:b", "it's", "say \"x\"", "中文", "日本 語", "é", "😀", "x=1", "a-b", "-x", "a,b", "a[0]", "a{b}", "C:\\dir\\n", "%41", "\\u0041", "a & b", "a*b", "nothing", "truex", "falsey", "true false",
	"192.168.1.1", "2024-01-02 10:30:00", "10%", "~user", "a|b", "<html>", "k;v", "$x", "(p)", "0x", "1-2", "1/2", "--5", "-a", "00:00",
	"tRuE", "trUE", "TruE", "fAlse", "falsE", "FaLSE", "tru", "fals", "true1", "1true"}

func (y *yamlGen) text() string {
	if y.r.IntN(3) > 0 {
		return yamlTexts[y.r.IntN(len(yamlTexts))]
	}
	const first = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
	const inner = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-./ "
	b := []byte{first[y.r.IntN(len(first))]}
	k := y.r.IntN(14)
	if y.r.IntN(60) == 0 {
		k = longSize(y.r) % 9000
	}
	for ; k > 0; k-- {
		b = append(b, inner[y.r.IntN(len(inner))])
	}
	s := strings.TrimRight(string(b), " ")
	switch strings.ToLower(s) {
	case "true", "false", "null", "inf", "nan", "yes", "no", "on", "off", "y", "n":
		s += "x"
	}
	return s
}

func (y *yamlGen) scalar() (string, *N) {
	switch y.r.IntN(8) {
	case 0:
		if y.r.IntN(2) == 0 {
			return "true", nBool(true)
		}
		return "false", nBool(false)
	case 1, 2:
		i := genInt(y.r)
		s := strconv.FormatInt(i, 10)
		f, _ := strconv.ParseFloat(s, 64)
		return s, nDbl(f)
	case 3:
		f := genFloat(y.r, false)
		s := strconv.FormatFloat(f, []byte{'f', 'e', 'g', 'E'}[y.r.IntN(4)], -1, 64)
		return s, nDbl(f)
	case 4:
		s := fmt.Sprintf("%s%d.%0*d", []string{"", "-"}[y.r.IntN(2)], y.r.IntN(1000), 1+y.r.IntN(6), y.r.IntN(100))
		f, _ := strconv.ParseFloat(s, 64)
		return s, nDbl(f)
	}
	s := y.text()
	return s, nStr(s)
}

var yamlKeys = []string{"name", "key", "a", "b", "c", "id", "host", "first name", "x.y", "x/y", "key-1", "1", "007", "true", "中文键", "é", "it's", "a#b", "k\"q", "A", "Name", "a:b", "http://x", "-", "a_b", "x y z", "10:30"}

func (y *yamlGen) keys(n int) []string {
	seen := map[string]bool{}
	var out []string
	for len(out) < n {
		var k string
		if y.r.IntN(2) == 0 {
			k = yamlKeys[y.r.IntN(len(yamlKeys))]
		} else {
			k = genASCII(y.r, 1+y.r.IntN(8))
			if y.r.IntN(60) == 0 {
				k = genASCII(y.r, longSize(y.r)%3000+1)
			}
		}
		if k[0] == '-' || k[0] == '.' || seen[k] {
			k = "k" + strconv.Itoa(len(out)) + k
		}
		if seen[k] {
			continue
		}
		seen[k] = true
		out = append(out, k)
	}
	return out
}

// line writes one line with optional trailing blanks and comment.
func (y *yamlGen) line(indent int, s string) {
	if y.noise {
		switch y.r.IntN(14) {
		case 0:
			y.sb.WriteString(y.eol)
		case 1:
			y.sb.WriteString(strings.Repeat(" ", y.r.IntN(9)) + y.eol)
		case 2:
			y.sb.WriteString(strings.Repeat(" ", y.r.IntN(9)) + "# " + yamlTexts[y.r.IntN(len(yamlTexts))] + y.eol)
		case 3:
			y.sb.WriteString(strings.Repeat(" ", indent) + []string{"#key: value", "#", "#- x", "# a: &x 1", "# a # b: c", "##"}[y.r.IntN(6)] + y.eol)
		}
	}
	y.sb.WriteString(strings.Repeat(" ", indent))
	y.sb.WriteString(s)
	if y.noise {
		switch y.r.IntN(8) {
		case 0:
			y.sb.WriteString(strings.Repeat(" ", 1+y.r.IntN(3)))
		case 1:
			y.sb.WriteString(strings.Repeat(" ", 1+y.r.IntN(3)) + []string{"# c: ", "#", "# # ", "# a: 1 # ", "#- x #", "## "}[y.r.IntN(6)] + yamlTexts[y.r.IntN(len(yamlTexts))])
		}
	}
	y.sb.WriteString(y.eol)
}

func (y *yamlGen) newAnchor() string {
	if len(y.names) > 0 && y.r.IntN(8) == 0 {
		if a := y.names[y.r.IntN(len(y.names))]; !y.open[a] {
			return a // redefined
		}
	}
	y.fresh++
	switch y.r.IntN(12) {
	case 0:
		return strconv.Itoa(y.fresh)
	case 1:
		return "an" + strconv.Itoa(y.fresh) + genASCII(y.r, 20+y.r.IntN(200))
	case 2:
		return "an-" + strconv.Itoa(y.fresh) + "_.x"
	}
	return "an" + strconv.Itoa(y.fresh)
}

func (y *yamlGen) define(name string, n *N) {
	if _, ok := y.vals[name]; !ok {
		y.names = append(y.names, name)
	}
	y.vals[name] = n
	y.count["anchors"]++
}

func (y *yamlGen) forget(name string) {
	for i, a := range y.names {
		if a == name {
			y.names = append(y.names[:i:i], y.names[i+1:]...)
			delete(y.vals, name)
			return
		}
	}
}

func (y *yamlGen) step() int {
	if y.r.IntN(40) == 0 {
		return 5 + y.r.IntN(80)
	}
	return 1 + y.r.IntN(4)
}

func (y *yamlGen) entries() int {
	switch y.r.IntN(60) {
	case 0, 1, 2, 3, 4:
		return 9 + y.r.IntN(4)
	case 5:
		return 16 + y.r.IntN(60)
	case 6:
		if y.r.IntN(4) == 0 {
			return 100 + y.r.IntN(400)
		}
	}
	return 1 + y.r.IntN(4)
}

// value writes "prefix <value>" at indent; containers go deeper than pos.
func (y *yamlGen) value(prefix string, indent, pos, depth int) *N {
	y.budget--
	sp := " "
	if y.r.IntN(6) == 0 {
		sp = "  "
	}
	if y.anchors && len(y.names) > 0 && y.r.IntN(6) == 0 {
		a := y.names[y.r.IntN(len(y.names))]
		y.line(indent, prefix+sp+"*"+a)
		y.count["aliases"]++
		return y.vals[a].clone()
	}
	anchor := ""
	if y.anchors && y.r.IntN(5) == 0 {
		anchor = y.newAnchor()
	}
	if depth <= 0 || y.budget <= 0 || y.r.IntN(100) < 55 {
		s, n := y.scalar()
		if anchor != "" {
			y.line(indent, prefix+sp+"&"+anchor+" "+s)
			y.define(anchor, n)
		} else {
			y.line(indent, prefix+sp+s)
		}
		return n
	}
	if anchor != "" {
		y.line(indent, prefix+" &"+anchor)
	} else {
		y.line(indent, prefix)
	}
	if anchor != "" { // not to be used, or defined again, before it is complete
		y.open[anchor] = true
		y.forget(anchor)
	}
	n := y.container(pos+y.step(), depth-1)
	delete(y.open, anchor)
	if anchor != "" {
		y.define(anchor, n)
	}
	return n
}

func (y *yamlGen) container(indent, depth int) *N {
	if y.r.IntN(5) < 3 {
		return y.mapping(indent, depth, "")
	}
	return y.sequence(indent, depth)
}

// mapping writes a mapping at indent; first is a prefix of its first line ("- " of a sequence item).
func (y *yamlGen) mapping(indent, depth int, first string) *N {
	cnt := y.entries()
	n := nObj()
	var objs []string
	for _, a := range y.names {
		if y.vals[a].K == KObj {
			objs = append(objs, a)
		}
	}
	mergeAt := -1
	var src *N
	ks := y.keys(cnt)
	if y.anchors && len(objs) > 0 && y.r.IntN(3) == 0 {
		mergeAt = y.r.IntN(cnt + 1)
		a := objs[y.r.IntN(len(objs))]
		src = y.vals[a].clone()
		was := y.open[a]
		y.open[a] = true // not to be defined again before it is merged
		defer func() { y.open[a] = was }()
		for i := range ks { // let some keys collide
			if y.r.IntN(3) == 0 {
				k := src.Keys[y.r.IntN(len(src.Keys))]
				ok := true
				for _, x := range ks {
					ok = ok && x != k
				}
				if ok {
					ks[i] = k
				}
			}
		}
		y.merged = true
		y.count["merges"]++
		defer func() {
			for i, k := range src.Keys {
				if n.idx(k) < 0 {
					n.add(k, src.C[i])
				} else {
					y.count["merged keys written explicitly"]++
				}
			}
		}()
		for i := 0; i <= cnt; i++ {
			if i == mergeAt {
				y.item(indent, first, "<<: *"+a)
				first = ""
			}
			if i < cnt {
				n.add(ks[i], y.pair(indent, first, ks[i], depth))
				first = ""
			}
		}
		return n
	}
	for _, k := range ks {
		n.add(k, y.pair(indent, first, k, depth))
		first = ""
	}
	return n
}

func (y *yamlGen) item(indent int, first, s string) {
	if first != "" {
		y.line(indent-2, first+s)
	} else {
		y.line(indent, s)
	}
}

func (y *yamlGen) pair(indent int, first, k string, depth int) *N {
	if first != "" {
		return y.value(first+k+":", indent-2, indent, depth)
	}
	return y.value(k+":", indent, indent, depth)
}

func (y *yamlGen) sequence(indent, depth int) *N {
	n := nArr()
	cnt := y.entries()
	for ; cnt > 0; cnt-- {
		if depth > 0 && y.budget > 0 && y.r.IntN(3) == 0 {
			n.C = append(n.C, y.mapping(indent+2, depth-1, "- "))
		} else {
			n.C = append(n.C, y.value("-", indent, indent, depth))
		}
	}
	return n
}

// chain writes containers nested in each other; most levels end with the level they hold, so that the line
// after it comes back over many levels at once.
func (y *yamlGen) chain(indent, levels int) *N {
	side := func(add func()) {
		for k := y.r.IntN(3) / 2; k >= 0 && y.r.IntN(4) == 0; k-- {
			y.budget = 4
			add()
		}
	}
	step := 1
	if y.r.IntN(10) == 0 {
		step = 2 + y.r.IntN(3)
	}
	inner := func(prefix string) *N {
		anchor := ""
		if y.anchors && y.r.IntN(12) == 0 {
			anchor = y.newAnchor()
			y.forget(anchor)
			y.open[anchor] = true
			prefix += " &" + anchor
		}
		y.line(indent, prefix)
		x := y.chain(indent+step, levels-1)
		if anchor != "" {
			delete(y.open, anchor)
			y.define(anchor, x)
		}
		return x
	}
	if y.r.IntN(3) > 0 {
		n, ks := nObj(), y.keys(12)
		entry := func() {
			n.add(ks[0], y.pair(indent, "", ks[0], 1))
			ks = ks[1:]
		}
		side(entry)
		if levels > 0 {
			k := ks[0]
			ks = ks[1:]
			n.add(k, inner(k+":"))
		} else {
			entry()
		}
		side(entry)
		return n
	}
	n := nArr()
	entry := func() { n.C = append(n.C, y.value("-", indent, indent, 1)) }
	side(entry)
	if levels > 0 {
		n.C = append(n.C, inner("-"))
	} else {
		entry()
	}
	side(entry)
	return n
}

// genDeepYAML gives a document of a few deep chains.
func genDeepYAML(r *rand.Rand) (string, *N, *yamlGen) {
	y := &yamlGen{r: r, eol: "\n", noise: r.IntN(3) == 0, anchors: r.IntN(2) == 0, vals: map[string]*N{}, open: map[string]bool{}, count: map[string]int{}}
	if r.IntN(4) == 0 {
		y.eol = "\r\n"
	}
	n := nObj()
	for i, k := range y.keys(1 + r.IntN(4)) {
		if i%2 == 1 {
			y.budget = 4
			n.add(k, y.pair(0, "", k, 1))
			continue
		}
		y.line(0, k+":")
		n.add(k, y.chain(1+r.IntN(3), []int{3, 8, 20, 40, 70, 130}[r.IntN(6)]+r.IntN(10)))
	}
	y.line(0, "last-one: end")
	n.add("last-one", nStr("end"))
	return y.sb.String(), n, y
}

// genYAML gives a document, the tree it denotes and whether key order is left open by merges.
func genYAML(r *rand.Rand, anchors bool, budget, depth int) (string, *N, *yamlGen) {
	y := &yamlGen{r: r, eol: "\n", noise: r.IntN(2) == 0, anchors: anchors, vals: map[string]*N{}, open: map[string]bool{}, budget: budget, count: map[string]int{}}
	if r.IntN(4) == 0 {
		y.eol = "\r\n"
	}
	indent := 0
	if r.IntN(8) == 0 {
		indent = r.IntN(4)
	}
	if r.IntN(6) == 0 {
		y.sb.WriteString("# heading" + y.eol + y.eol)
	}
	var n *N
	if r.IntN(3) == 0 {
		n = y.sequence(indent, depth)
	} else {
		n = y.mapping(indent, depth, "")
	}
	s := y.sb.String()
	switch r.IntN(4) {
	case 0:
		s = strings.TrimSuffix(s, y.eol)
	case 1:
		s += y.eol + "# end" + y.eol
	}
	return s, n, y
}
