package main

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math"
	"math/rand/v2"
	"strconv"
	"strings"
	"time"

	dx "github.com/suiyunonghen/dxsvalue"
)

// noDate drops texts that the Date(n) dialect would read as a date.
func jsonStr(r *rand.Rand) string {
	for {
		if s := genString(r); !dateDialect(s) {
			return s
		}
	}
}

func jsonKey(r *rand.Rand) string { return genKey(r) }

// decodeAll feeds a valid document to every entry point and compares with the standard decoder.
func decodeAll(c *C, b []byte, deepCheck bool) {
	want, err := stdJSON(b)
	if err != nil {
		c.Ev("documents outside the domain", 1)
		return
	}
	g := guard()
	for _, e := range entriesOf[FJSON] {
		in := g.place(b)
		v, err := e.dec(c.R, in)
		if err != nil {
			c.Failf("%s: valid document refused: %v", e.name, err)
		}
		if !e.share { // a copied value must not need the input any more
			g.revoke()
		}
		c.same(e.name, want, v, diffOpt{})
		if deepCheck {
			if d := accessors(v, want); d != "" {
				c.Failf("%s: %s", e.name, d)
			}
		}
		if e.cached && !e.load && c.R.IntN(2) == 0 {
			dx.FreeValue(v)
		}
	}
	g.readOnly()
	c.Ev("entry points exercised", int64(len(entriesOf[FJSON])))
	c.Ev("nodes decoded", int64(want.count()))
}

var numSpellings = []string{"0", "-0", "1", "-1", "10", "0.0", "-0.0", "1.0", "0.5", "1e1", "1E1", "1e+1", "1E-1", "0e0", "0.1e-6", "123456789012345678", "1234567890123456789", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "-9223372036854775809", "18446744073709551615", "12345678901234567890123", "0.1234567890123456789", "1e308", "1.7976931348623157e308", "2.2250738585072014e-308", "5e-324", "4.9406564584124654e-324", "1e-400", "3.14159265358979323846264338327950288", "100000000000000000000", "1e22", "1e23", "8.41e21", "9007199254740993", "9007199254740992.5", "0.30000000000000004", "123e5", "1.5e300", "-1.5E-300", "999999999999999999", "1000000000000000000", "-999999999999999999", "-1000000000000000000", "9999999999999999999", "2e0", "20.00", "7E0", "1.e1x"}

func jsonNumText(r *rand.Rand) string {
	switch r.IntN(4) {
	case 0:
		return numSpellings[r.IntN(len(numSpellings)-1)]
	case 1:
		return strconv.FormatInt(genInt(r), 10)
	case 2:
		return string(writeJNum(r, nil, genFloat(r, false), jsonStyle{NumForm: true}))
	}
	// a random spelling of the number grammar
	var sb strings.Builder
	if r.IntN(2) == 0 {
		sb.WriteByte('-')
	}
	digits := func(n int) {
		for ; n > 0; n-- {
			sb.WriteByte(byte('0' + r.IntN(10)))
		}
	}
	if r.IntN(4) == 0 {
		sb.WriteByte('0')
	} else {
		sb.WriteByte(byte('1' + r.IntN(9)))
		digits(r.IntN(25))
	}
	if r.IntN(2) == 0 {
		sb.WriteByte('.')
		digits(1 + r.IntN(25))
	}
	if r.IntN(3) == 0 {
		sb.WriteByte("eE"[r.IntN(2)])
		if k := r.IntN(3); k > 0 {
			sb.WriteByte("+-"[k-1])
		}
		digits(1 + r.IntN(2))
	}
	return sb.String()
}

// jsonStrText is a string literal, possibly with lone surrogates and every escape.
func jsonStrText(r *rand.Rand) string {
	switch r.IntN(5) {
	case 0:
		return string(writeJStr(r, nil, jsonStr(r), jsonStyle{Escape: 2}))
	case 1:
		return string(writeJStr(r, nil, jsonStr(r), jsonStyle{Escape: 1}))
	}
	var sb strings.Builder
	sb.WriteByte('"')
	for i := r.IntN(9); i > 0; i-- {
		switch r.IntN(8) {
		case 0:
			sb.WriteString([]string{`\"`, `\\`, `\/`, `\b`, `\f`, `\n`, `\r`, `\t`}[r.IntN(8)])
		case 1:
			sb.WriteString(fmt.Sprintf(`\u%04x`, r.IntN(0x10000)))
		case 2:
			sb.WriteString(fmt.Sprintf(`\uD8%02x\uDc%02X`, r.IntN(256), r.IntN(256)))
		case 3:
			sb.WriteString([]string{`\ud83d`, `\ude00`, `\u0000`, `\u0022`, `\u005c`, `\u005C`, `\u0025`, `\uFFFF`, `\u2028`, `\\u0041`, `\\\"`, `\\\\`}[r.IntN(12)])
		case 4:
			sb.WriteRune(genRune(r))
		default:
			sb.WriteString(genASCII(r, r.IntN(4)))
		}
	}
	sb.WriteByte('"')
	return sb.String()
}

// inDomain tells whether a string literal avoids the dialect points (Date(n), %XX).
func jsonTextInDomain(b []byte) bool {
	if !json.Valid(b) || bytes.Contains(b, []byte("Date(")) {
		return false
	}
	for i := 0; i+2 < len(b); i++ {
		if b[i] == '%' && isHex(b[i+1]) && isHex(b[i+2]) {
			return false
		}
	}
	return true
}

func distinctKeys(n *N) bool {
	ok := true
	n.walk(func(x *N) {
		if x.K == KObj {
			seen := map[string]bool{}
			for _, k := range x.Keys {
				if seen[k] {
					ok = false
				}
				seen[k] = true
			}
		}
	})
	return ok
}

func genJSONDoc(r *rand.Rand) []byte {
	n := genTree(r, treeOpt{Root: -1, Str: jsonStr, Key: jsonKey, Wide: true})
	return writeJSON(r, n, genStyle(r))
}

var jsonDocs = []string{`{}`, `[]`, ` {} `, "\n[\t]\r", `""`, `"\""`, `"\\"`, `"\\\""`, `{"":""}`, `{"":{"":[]}}`, `[[]]`, `[{}]`, `[[],[]]`, `{"a":{}}`, `{"a":[]}`,
	`{"a\"b":1}`, `{"a\\":1}`, `{"a\\\"b":1,"c":2}`, `{"\u0061":1}`, `{"a":1,"b":{"c":[1,2,{"d":null}]}}`, `[true,false,null]`, `true`, `false`, `null`, `[null]`, `{"a":null}`,
	`"😀"`, `"\ud83d\ude00"`, `"\ud83d"`, `"\ud83d\ud83d\ude00"`, `"\ude00\ud83d"`, `["\u00e9","é"]`, `"\/"`, `"\b\f\n\r\t"`, `"\u0000"`, `1`, `-1.5e-3`, ` 12 `, `[1,-2,3.5,1e5]`,
	`{"k":"v","k2":"v2","k3":["v3"]}`, `{"a":"x\\","b":"y"}`, `["\\",""]`, `["\\\\","\\\\\\\\"]`, `["a\\\"","b"]`, `{"x\u005c":1,"y":"\u005c"}`, `{"\u0022":"\u0022"}`, `"%"`, `"50%"`, `"%%"`, `["%","a%g0"]`,
	`"/Date"`, `"Date"`, `"[1]"`, `"{}"`, `{"true":true,"null":null}`, `[0]`, `[0.0]`, `[-0]`, `{"a" : 1 , "b" : [ 1 , 2 ] }`, "{\r\n\t\"a\"\r\n:\r\n1\r\n}", "[\n1\n,\n2\n]", `"\ufeff"`}

// hugeJSON is a document whose size strains one thing: elements, entries, blanks, a text, a key or a number.
func hugeJSON(r *rand.Rand, i int) ([]byte, string) {
	var b []byte
	blanks := func(n int) {
		for ; n > 0; n-- {
			b = append(b, " \t\n\r"[r.IntN(4)])
		}
	}
	switch i % 8 {
	case 0, 1:
		n := 1<<17 + r.IntN(1<<18)
		if i%8 == 1 {
			n = 66000 + r.IntN(20000)
		}
		b = append(b, '[')
		for k := 0; k < n; k++ {
			if k > 0 {
				b = append(b, ',')
			}
			if i%8 == 0 {
				b = strconv.AppendInt(b, int64(k), 10)
			} else {
				b = append(b, []string{"[]", "{}", `"x\ty"`, "true", `{"k":[1]}`, "null", "-1.5", `""`}[k%8]...)
			}
		}
		return append(b, ']'), fmt.Sprintf("%d elements", n)
	case 2:
		n := 66000 + r.IntN(40000)
		b = append(b, '{')
		for k := 0; k < n; k++ {
			if k > 0 {
				b = append(b, ',')
			}
			b = append(b, fmt.Sprintf(`"key\u002d%d":%d`, k, k)...)
		}
		return append(b, '}'), fmt.Sprintf("%d entries", n)
	case 3:
		toks := []string{"{", `"a"`, ":", "[", "1", ",", `"b"`, ",", "{", "}", ",", "true", "]", ",", `"c"`, ":", "{", `"d"`, ":", "null", "}", ",", `"e"`, ":", "[", "]", "}", ""}
		for k := range toks {
			blanks([]int{0, 1, 300, 5000, 70000}[r.IntN(5)])
			b = append(b, toks[k]...)
		}
		return b, "long runs of blanks"
	case 4, 5:
		n := []int{70000, 1 << 20, 17 << 20}[(i/8)%3] + r.IntN(3000)
		t := make([]byte, n)
		for k := range t {
			t[k] = byte('a' + k%23)
		}
		copy(t, []string{"", " ", "0", "/", "{", "[", "-", "é"}[r.IntN(8)])
		for k := r.IntN(4); k > 0; k-- {
			copy(t[r.IntN(n-8):], []string{`\n`, `\\`, `\"`, `\u00e9`}[r.IntN(4)])
		}
		if i%8 == 4 {
			return append(append([]byte(`[1,"`), t...), `",2]`...), fmt.Sprintf("a text of %d bytes", n)
		}
		return append(append([]byte(`{"a":1,"`), t...), `":"v","b":2}`...), fmt.Sprintf("a key of %d bytes", n)
	case 6:
		n := 300 + r.IntN(5000)
		b = append(b, "[0."...)
		for k := 0; k < n; k++ {
			b = append(b, byte('0'+r.IntN(10)))
		}
		b = append(b, ",1"...)
		for k := r.IntN(307); k > 0; k-- {
			b = append(b, byte('0'+r.IntN(10)))
		}
		b = append(b, ",-1"...)
		for k := r.IntN(300); k > 0; k-- {
			b = append(b, '0')
		}
		return append(b, "e0]"...), fmt.Sprintf("a number of %d digits", n)
	}
	b = append(b, '[')
	for k := 20000 + r.IntN(9000); k > 0; k-- {
		b = append(b, fmt.Sprintf(`{"id":%d,"n":"x\"%d","l":[%d]},`, k, k, k)...)
	}
	return append(b, "0]"...), "many small objects"
}

func init() {
	register(&Prop{ID: "C01", Scale: 30,
		Rule:   "A case is a valid JSON text (random tree in a random spelling; random number/string spellings; directed, deep or wide documents). It is decoded by all 8 entry points from a read-only buffer that ends at an inaccessible page (revoked after decoding when copied), and every node is compared with encoding/json's token stream. Distinct = distinct document texts of at least 2 bytes.",
		Assume: []string{"encoding/json is the reference decoder", "strings of the Date(n) dialect and raw %XX triplets are outside the domain", "numbers within float64, valid UTF-8, distinct keys, nesting up to 10000"},
		Gens: []*Gen{
			{Name: "directed", Quick: len(jsonDocs), Thorough: len(jsonDocs), Fn: func(c *C, i int) {
				b := []byte(jsonDocs[i])
				c.Describe(func() string { return string(b) })
				c.NonTrivial(b)
				decodeAll(c, b, true)
			}},
			{Name: "numbers", Quick: 3000, Fn: func(c *C, i int) {
				var b []byte
				if i%2 == 0 {
					b = []byte(jsonNumText(c.R))
				} else {
					n := 1 + c.R.IntN(9)
					parts := make([]string, n)
					for k := range parts {
						parts[k] = jsonNumText(c.R)
						if i%4 == 3 {
							parts[k] = fmt.Sprintf(`"k%d":%s`, k, parts[k])
						}
					}
					b = []byte("[" + strings.Join(parts, ",") + "]")
					if i%4 == 3 {
						b = []byte("{" + strings.Join(parts, ",") + "}")
					}
				}
				c.Describe(func() string { return string(b) })
				c.NonTrivial(b)
				decodeAll(c, b, false)
			}},
			{Name: "strings", Quick: 4000, Fn: func(c *C, i int) {
				var b []byte
				switch i % 3 {
				case 0:
					b = []byte(jsonStrText(c.R))
				case 1:
					b = []byte("[" + jsonStrText(c.R) + "," + jsonStrText(c.R) + "]")
				default:
					b = []byte("{" + jsonStrText(c.R) + ":" + jsonStrText(c.R) + "," + jsonStrText(c.R) + " :1}")
				}
				if !jsonTextInDomain(b) {
					return
				}
				n, err := stdJSON(b)
				if err != nil || !distinctKeys(n) {
					return
				}
				c.Describe(func() string { return string(b) })
				c.NonTrivial(b)
				decodeAll(c, b, true)
			}},
			{Name: "random", Quick: 6000, Fn: func(c *C, i int) {
				b := genJSONDoc(c.R)
				if !jsonTextInDomain(b) {
					return
				}
				c.Describe(func() string { return string(b) })
				c.NonTrivial(b)
				decodeAll(c, b, i%4 == 0)
			}},
			{Name: "deep", Quick: 16, Thorough: 160, Fn: func(c *C, i int) {
				d := []int{100, 1000, 5000, 9990}[i%4]
				kind := c.R.IntN(3)
				var pre, post []byte
				for k := 0; k < d; k++ {
					if kind == 0 || kind == 2 && c.R.IntN(2) == 0 {
						pre = append(pre, `[`...)
						post = append(post, ']')
					} else {
						pre = append(pre, `{"k":`...)
						post = append(post, '}')
					}
				}
				for a, z := 0, len(post)-1; a < z; a, z = a+1, z-1 {
					post[a], post[z] = post[z], post[a]
				}
				b := append(append(pre, "17"...), post...)
				c.Describe(func() string { return fmt.Sprintf("nested %d levels", d) })
				c.NonTrivial(b)
				decodeAll(c, b, false)
			}},
			{Name: "huge", Quick: 24, Thorough: 240, Fn: func(c *C, i int) {
				b, what := hugeJSON(c.R, i)
				c.Describe(func() string { return what })
				c.NonTrivial(b)
				decodeAll(c, b, false)
				guard().drop()
			}},
			{Name: "wide", Quick: 16, Thorough: 200, Fn: func(c *C, i int) {
				n := []int{100, 1000, 2500, 20000}[i%4]
				var b []byte
				if c.R.IntN(2) == 0 {
					b = append(b, '[')
					for k := 0; k < n; k++ {
						if k > 0 {
							b = append(b, ',')
						}
						b = strconv.AppendInt(b, int64(k), 10)
					}
					b = append(b, ']')
				} else {
					b = append(b, '{')
					for k := 0; k < n; k++ {
						if k > 0 {
							b = append(b, ',')
						}
						b = append(b, fmt.Sprintf(`"k%d":"\u0041%d"`, k, k)...)
					}
					b = append(b, '}')
				}
				c.Describe(func() string { return fmt.Sprintf("%d entries: %s", n, clip(string(b), 100)) })
				c.NonTrivial(b)
				decodeAll(c, b, false)
			}},
		}})

	register(&Prop{ID: "C02", Scale: 30,
		Rule:   "A case is a value tree (all node kinds, strings with every escaping hazard) obtained by a random route (built, cached, decoded and partly read, cloned), encoded compact and indented, with every escaping style and date form. Every output must be accepted by encoding/json and denote the tree; the library's own decoder must agree. Distinct = distinct trees with at least one string, number or container below the root.",
		Assume: []string{"encoding/json is the reference decoder", "strings valid UTF-8", "re-decoding with this library leaves out texts of the Date(n) dialect", "escaping switched off (JSE_NoEscape) only for trees whose texts need no escaping"},
		Gens: []*Gen{
			{Name: "trees", Quick: 9000, Fn: func(c *C, i int) { encJSONCase(c, allKinds, jsonStr) }},
			{Name: "jsonable", Quick: 6000, Fn: func(c *C, i int) { encJSONCase(c, jsonKinds, jsonStr) }},
			{Name: "texts", Quick: 6000, Fn: func(c *C, i int) {
				encJSONCase(c, []Kind{KStr}, func(r *rand.Rand) string {
					if r.IntN(3) == 0 {
						return string(genRune(r))
					}
					return jsonStr(r)
				})
			}},
			{Name: "eachRune", Quick: 136, Thorough: 1088, Fn: func(c *C, i int) {
				// every scalar value of a block, as text and as key
				n := nObj()
				step := 0x110000 / 1088
				if c.Tier != "thorough" {
					step = 16
				}
				lo := i * step
				if c.Tier != "thorough" && i >= 128 {
					lo = []int{0x2000, 0xd7f0, 0xe000, 0xfff0, 0x10000, 0x1f600, 0x10fff0, 0xfe00}[i-128]
				}
				for x := lo; x < lo+step && x < 0x110000; x++ {
					if x >= 0xd800 && x < 0xe000 {
						continue
					}
					n.add(fmt.Sprintf("k%x%c", x, rune(x)), nStr(string(rune(x))))
				}
				v := fresh(c.R, n, false)
				c.Describe(func() string { return fmt.Sprintf("code points from %#x", lo) })
				c.NonTrivial(n.dump())
				checkJSONOutputs(c, n, v, true)
			}},
			{Name: "noescape", Quick: 800, Fn: func(c *C, i int) {
				n := genTree(c.R, treeOpt{Root: -1, Kinds: jsonKinds, Str: func(r *rand.Rand) string {
					return genASCII(r, r.IntN(20)) + []string{"", "中文", "é😀"}[r.IntN(3)]
				}, Key: genPlainKey})
				v, _ := made(c.R, n, true)
				c.Describe(n.dump)
				c.NonTrivial(n.dump())
				for _, format := range []bool{false, true} {
					out := v.ToJson(format, dx.JSE_NoEscape, false, nil)
					got, err := stdJSON(out)
					if err != nil {
						c.Failf("format=%v: output is not JSON: %v: %s", format, err, clip(string(out), 400))
					}
					if d := diffJSON(n, got, "$"); d != "" {
						c.Failf("format=%v: %s", format, d)
					}
				}
			}},
			{Name: "floats", Quick: 4000, Fn: func(c *C, i int) {
				n := nArr()
				for k := 0; k < 16; k++ {
					if c.R.IntN(4) == 0 {
						n.C = append(n.C, nFlt(genFloat32(c.R, true)))
					} else {
						n.C = append(n.C, nDbl(genFloat(c.R, true)))
					}
				}
				c.Describe(n.dump)
				c.NonTrivial(n.dump())
				checkJSONOutputs(c, n, fresh(c.R, n, false), false)
			}},
		}})

	register(&Prop{ID: "C03", Scale: 15,
		Rule:   "A case is a damaged or random document: every truncation of a valid text, single-byte corruptions, insertions, deletions, splices, random structural soup, unbalanced deep nesting. Every entry point must return; texts that not even the lenient recogniser accepts must be refused with a renderable error and no value, texts RFC 8259 accepts must be accepted; a failed load must leave an empty, usable target. The input buffer is read-only and ends at a guard page; allocation is metered. Distinct = distinct inputs that are refused or damaged.",
		Assume: []string{"dialect leniencies may be accepted: inf/nan words, leading '+', leading zeros, missing digits beside the point, raw control characters, unknown escapes", "nesting up to 10000", "an empty or blank text given to a load clears the value"},
		Gens: []*Gen{
			{Name: "truncate", Quick: 500, Fn: func(c *C, i int) {
				b := genJSONDoc(c.R)
				c.Describe(func() string { return "prefixes of " + string(b) })
				for _, k := range append(cuts(c.R, len(b)), len(b)) {
					badJSON(c, b[:k], c.R.IntN(8))
				}
			}},
			{Name: "corrupt", Quick: 30000, Fn: func(c *C, i int) {
				b := mutateBytes(c.R, genJSONDoc(c.R), []byte(`{}[]",:\0123456789.eE+-tfnaulrsi =;'()<>/|*#`), genJSONDoc(c.R))
				c.Describe(func() string { return fmt.Sprintf("%q", b) })
				badJSON(c, b, -1)
			}},
			{Name: "everyByte", Quick: 4 * 256, Fn: func(c *C, i int) {
				// one small document, every position x every byte
				doc := []byte([]string{`{"a":[1,"b"],"c":null}`, `[true,{"x":"\u0041\n"},-1.5e3]`, `{"k\"":{"z":[]},"y":false}`, `["",0,"\\",{"":""}]`}[i%4])
				b := append([]byte(nil), doc...)
				x := byte(i / 4)
				c.Describe(func() string { return fmt.Sprintf("%q with %q at each position", doc, x) })
				for p := range doc {
					copy(b, doc)
					b[p] = x
					badJSON(c, b, -1)
					badJSON(c, append(append(append([]byte(nil), doc[:p]...), x), doc[p:]...), c.R.IntN(8))
				}
				for p := range doc {
					badJSON(c, append(append([]byte(nil), doc[:p]...), doc[p+1:]...), -1)
				}
			}},
			{Name: "soup", Quick: 20000, Fn: func(c *C, i int) {
				toks := []string{"{", "}", "[", "]", ",", ":", `"`, `"a"`, `"b":`, "1", "-", "1e", "1.5", "true", "tru", "null", "nul", "nan", "inf", "-inf", "+1", "01", ".5", "5.", "--1", "1-2", "1.2.3", " ", "\n", "\\", `\u12`, "\x00", "é", "x", `"\"`, `"\\"`, "[]", "{}", "Date(", `"/Date(1)/"`, `"Date()"`, `"Date(x)"`, `"/Date(1-)/"`, `"Date(1+0)"`, `"Date(12345678901+0x)"`}
				var sb strings.Builder
				for k := 1 + c.R.IntN(8); k > 0; k-- {
					sb.WriteString(toks[c.R.IntN(len(toks))])
				}
				b := []byte(sb.String())
				c.Describe(func() string { return fmt.Sprintf("%q", b) })
				badJSON(c, b, -1)
			}},
			{Name: "bytes", Quick: 10000, Fn: func(c *C, i int) {
				b := randBytes(c.R, c.R.IntN(24))
				c.Describe(func() string { return fmt.Sprintf("%q", b) })
				badJSON(c, b, -1)
			}},
			{Name: "deep", Quick: 24, Thorough: 240, Fn: func(c *C, i int) {
				d := []int{10, 1000, 9000}[i%3]
				pre := []string{"[", `{"a":`, `[{"a":[`, `[[],`}[c.R.IntN(4)]
				b := []byte(strings.Repeat(pre, d/len(pre)+1))
				if c.R.IntN(2) == 0 {
					b = append(b, strings.Repeat("]", c.R.IntN(d))...)
				}
				c.Describe(func() string { return fmt.Sprintf("%d x %q", d, pre) })
				badJSON(c, b, -1)
			}},
			{Name: "large", Quick: 40, Thorough: 400, Fn: func(c *C, i int) {
				unit := []string{`"`, `\`, `\"`, "1", "[1,", `{"a":1,`, " ", "e", `"a":`, "-", "\x00", `{"\u0041":`, "nul"}[i%13]
				n := 1 + c.R.IntN(60000)
				if unit[0] == '{' || unit[0] == '[' {
					n = 1 + c.R.IntN(60000)
				}
				k := n / len(unit)
				if k > 9000 && (unit[0] == '{' || unit[0] == '[') {
					k = 9000
				}
				b := []byte(strings.Repeat(unit, k))
				if c.R.IntN(2) == 0 {
					b = append([]byte(`["`), b...)
				}
				c.Describe(func() string { return fmt.Sprintf("%q x %d", unit, k) })
				badJSON(c, b, -1)
			}},
		}})
}

// badJSON judges one arbitrary input; which selects one entry point (-1: two random ones plus both loads).
func badJSON(c *C, b []byte, which int) {
	if len(b) > guardSize {
		return
	}
	ok, depth := lenientJSON(b)
	if depth > 9900 {
		return
	}
	strict := ok && len(b) < 5000 && strictJSON(b)
	blank := len(bytes.Trim(b, " \t\r\n")) == 0
	es := entriesOf[FJSON]
	var pick []*entry
	if which >= 0 {
		pick = []*entry{es[which]}
	} else {
		pick = []*entry{es[c.R.IntN(4)*2], es[c.R.IntN(4)*2+1]}
	}
	if !ok {
		c.NonTrivial(b)
	}
	for _, e := range pick {
		in := guard().place(b)
		var v *dx.DxValue
		var err error
		var prev *dx.DxValue
		if e.load {
			prev, _ = prevValue(c.R, e.cached)
		}
		c.bounded(e.name, len(b), func() {
			if e.load {
				v, err = prev, loadInto(FJSON, prev, in, e.share)
			} else {
				v, err = e.dec(c.R, in)
			}
		})
		c.Ev("inputs fed", 1)
		if err != nil {
			c.Ev("inputs refused", 1)
			if s := err.Error(); s == "" {
				c.Failf("%s: the error has no text", e.name)
			}
			if strict {
				c.Failf("%s: valid JSON refused: %v", e.name, err)
			}
			if !e.load && v != nil {
				c.Failf("%s: an error and a value", e.name)
			}
			if e.load {
				if e.load && blank {
					c.Failf("%s: a blank text must clear the value, got %v", e.name, err)
				}
				usable(c, v, e.name+" failed")
			}
			continue
		}
		if v == nil {
			c.Failf("%s: neither a value nor an error", e.name)
		}
		if !ok && !(e.load && blank) {
			c.Failf("%s: malformed text accepted as %s", e.name, snap(v).dump())
		}
		n := snap(v) // must be walkable
		c.Ev("inputs accepted", 1)
		if e.load && blank && len(n.C) > 0 {
			c.Failf("%s: a blank text left %s", e.name, n.dump())
		}
	}
}

func encJSONCase(c *C, kinds []Kind, str func(*rand.Rand) string) {
	n := genTree(c.R, treeOpt{Root: -1, Kinds: kinds, NaNs: true, Str: str, Key: jsonKey})
	if c.R.IntN(6) == 0 { // BSON marked binaries
		n.walk(func(x *N) {
			if x.K == KBin && c.R.IntN(2) == 0 {
				if c.R.IntN(2) == 0 {
					x.Ext, x.B = extObjectID, randBytes(c.R, 12)
				} else {
					x.Ext, x.B = extDecimal, randBytes(c.R, 16)
				}
			}
		})
	}
	jsonable, msgpackable := true, true
	n.walk(func(x *N) {
		switch x.K {
		case KStr, KInt, KNull, KTrue, KFalse, KObj, KArr:
		case KDbl:
			if math.IsNaN(x.F) || math.IsInf(x.F, 0) {
				jsonable = false
			}
		default:
			jsonable = false
		}
		if x.Ext != 0 {
			msgpackable = false
		}
	})
	var v *dx.DxValue
	origin := "built"
	if msgpackable {
		v, origin = made(c.R, n, jsonable)
	} else {
		v = fresh(c.R, n, c.R.IntN(2) == 0)
	}
	c.Describe(func() string { return origin + ": " + n.dump() })
	if n.count() > 1 {
		c.NonTrivial(n.dump())
	}
	c.Ev("origin "+origin, 1)
	checkJSONOutputs(c, n, v, true)
}

func checkJSONOutputs(c *C, n *N, v *dx.DxValue, redecode bool) {
	hasDateText := false
	n.walk(func(x *N) {
		if x.K == KStr && dateDialect(x.S) || x.K == KTime {
			hasDateText = true
		}
	})
	for _, style := range []dx.JsonEscapeStyle{dx.JSE_AllEscape, dx.JSE_OnlyAnsiChar} {
		for _, escDT := range []bool{false, true} {
			if escDT && !hasDateText && style == dx.JSE_AllEscape {
				continue
			}
			var first *N
			for _, format := range []bool{false, true} {
				var out []byte
				switch c.R.IntN(2) {
				case 0:
					out = v.ToJson(format, style, escDT, nil)
				default:
					if format {
						out = dx.Value2FormatJson(v, style, escDT, nil)
					} else {
						out = dx.Value2Json(v, style, escDT, nil)
					}
				}
				got, err := stdJSON(out)
				if err != nil {
					c.Failf("style=%d format=%v: the output is not JSON: %v: %s", style, format, err, clip(string(out), 600))
				}
				if d := diffJSON(n, got, "$"); d != "" {
					c.Failf("style=%d format=%v escDT=%v: %s\noutput: %s", style, format, escDT, d, clip(string(out), 600))
				}
				if first == nil {
					first = got
				} else if d := diff(first, got, diffOpt{}); d != "" {
					c.Failf("style=%d: compact and indented forms differ: %s", style, d)
				}
				c.Ev("encodings checked", 1)
				if redecode && !hasDateText {
					back, err := dx.NewValueFromJson(out, c.R.IntN(2) == 0, c.R.IntN(2) == 0)
					if err != nil {
						c.Failf("style=%d format=%v: own output refused: %v: %s", style, format, err, clip(string(out), 400))
					}
					c.same("re-decoded output", got, back, diffOpt{Num: true})
				}
			}
		}
	}
	if out, err := dx.Marshal(v); err != nil {
		c.Failf("Marshal: %v", err)
	} else if got, err := stdJSON(out); err != nil {
		c.Failf("Marshal: the output is not JSON: %v: %s", err, clip(string(out), 400))
	} else if d := diffJSON(n, got, "$"); d != "" {
		c.Failf("Marshal: %s", d)
	}
	if n.K == KObj || n.K == KArr {
		if got, err := stdJSON([]byte(v.String())); err != nil {
			c.Failf("String: not JSON: %v: %s", err, clip(v.String(), 400))
		} else if d := diffJSON(n, got, "$"); d != "" {
			c.Failf("String: %s", d)
		}
	}
}

// diffJSON compares a tree with what a standard decoder made of its JSON encoding.
func diffJSON(n, got *N, path string) string {
	bad := func() string {
		return fmt.Sprintf("at %s: %s is denoted by %s", clip(path, 200), clip(n.dump(), 300), clip(got.dump(), 300))
	}
	switch n.K {
	case KObj:
		if got.K != KObj || len(got.Keys) != len(n.Keys) {
			return bad()
		}
		for i, k := range n.Keys {
			if got.Keys[i] != k {
				return fmt.Sprintf("at %s: key %q is denoted by %q", clip(path, 200), clip(k, 100), clip(got.Keys[i], 100))
			}
			if d := diffJSON(n.C[i], got.C[i], path+"."+clip(k, 20)); d != "" {
				return d
			}
		}
	case KArr:
		if got.K != KArr || len(got.C) != len(n.C) {
			return bad()
		}
		for i := range n.C {
			if d := diffJSON(n.C[i], got.C[i], path+"["+strconv.Itoa(i)+"]"); d != "" {
				return d
			}
		}
	case KStr:
		if got.K != KStr || got.S != n.S {
			return bad()
		}
	case KInt:
		if got.K != KInt || got.I != n.I {
			return bad()
		}
	case KDbl, KFlt:
		if math.IsNaN(n.F) || math.IsInf(n.F, 0) {
			if got.K != KNull {
				return bad()
			}
			return ""
		}
		if !isNum(got.K) || got.num() != n.F {
			return bad()
		}
	case KTrue, KFalse, KNull:
		if got.K != n.K {
			return bad()
		}
	case KNaN, KInf:
		if got.K != KNull {
			return bad()
		}
	case KBin, KExt:
		h := strings.ToLower(hex.EncodeToString(n.B))
		text := ""
		switch got.K {
		case KStr:
			text = got.S
		case KObj:
			if len(got.C) == 1 && got.C[0].K == KStr {
				text = got.C[0].S
			}
		default:
			return bad()
		}
		if !strings.Contains(strings.ToLower(text), h) {
			return bad()
		}
	case KTime:
		if got.K != KStr {
			return bad()
		}
		t, ok := parseJSONDate(got.S)
		if d := dayToTime(n.F).Sub(t); !ok || d < -2*time.Millisecond || d > time.Second+2*time.Millisecond {
			return bad()
		}
	default:
		return bad()
	}
	return ""
}

func parseJSONDate(s string) (time.Time, bool) {
	if strings.HasPrefix(s, "/Date(") && strings.HasSuffix(s, ")/") {
		ms, err := strconv.ParseInt(s[6:len(s)-2], 10, 64)
		return time.UnixMilli(ms), err == nil
	}
	t, err := time.ParseInLocation("2006-01-02 15:04:05", s, time.Local)
	return t, err == nil
}
