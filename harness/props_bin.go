package main

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"math/rand/v2"
	"strings"
	"time"

	dx "github.com/suiyunonghen/dxsvalue"
)

var delphiBase = time.Date(1899, 12, 30, 0, 0, 0, 0, time.UTC)

// setTimes gives every date-time node an instant and the day number it is stored as (workers run in UTC).
func setTimes(r *rand.Rand, n *N, whole time.Duration) *N {
	n.walk(func(x *N) {
		if x.K == KTime {
			sec := int64(31536000) + r.Int64N(220*365*86400)
			if r.IntN(4) == 0 { // from 1900 to 1971
				sec = 31536000 - r.Int64N(71*365*86400)
			}
			var ns int64
			switch r.IntN(4) {
			case 0:
			case 1:
				ns = r.Int64N(1000000000)
			default:
				ns = r.Int64N(1000) * 1000000
			}
			if r.IntN(6) == 0 {
				sec = []int64{31536000, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 946684800, 0, -1, -86400, -1 << 31}[r.IntN(10)]
			}
			x.T = time.Unix(sec, ns).UTC().Truncate(whole)
			x.F = dayOf(x.T)
		}
	})
	return n
}

func dayOf(t time.Time) float64 {
	return float64(t.Sub(delphiBase)) / (24 * float64(time.Hour))
}

const msDays = 1.0 / 86400000

// wireTimes fills T of date-times decoded by a reference decoder into the F scale.
func wireTimes(n *N) *N {
	n.walk(func(x *N) {
		if x.K == KTime {
			x.F = dayOf(x.T)
		}
	})
	return n
}

func mpKinds(r *rand.Rand) []Kind {
	switch r.IntN(4) {
	case 0:
		return []Kind{KInt}
	case 1:
		return []Kind{KStr, KBin, KExt}
	}
	return allKinds
}

// checkMPOutput judges the MsgPack encoding of v against n.
func checkMPOutput(c *C, n *N, v *dx.DxValue) {
	var out []byte
	if c.R.IntN(2) == 0 {
		out = dx.Value2MsgPack(v, nil)
	} else {
		out = v.ToMsgPack(nil)
	}
	info := &mpInfo{}
	got, rest, err := decMP(out, 0, info)
	if err != nil {
		c.Failf("the encoding is not MsgPack: %v: %x", err, clipB(out))
	}
	if len(rest) != 0 {
		c.Failf("%d bytes follow the encoded object: %x", len(rest), clipB(out))
	}
	if d := diff(n, wireTimes(got), diffOpt{NaNConst: true, NoExt: true, TimeTol: 0.01 * msDays}); d != "" {
		c.Failf("an independent decoder reads another tree: %s (%x)", d, clipB(out))
	}
	if info.NonMinimal != "" {
		c.Failf("not the smallest format: %s", info.NonMinimal)
	}
	for k := 0; k < 2; k++ {
		e := entriesOf[FMP][c.R.IntN(8)]
		if hugeObj(n) { // decoding a huge map is quadratic in the number of keys
			if e = entriesOf[FMP][0]; k > 0 || c.Tier != "thorough" {
				break
			}
		}
		back, err := e.dec(c.R, out)
		if err != nil {
			c.Failf("%s: own encoding refused: %v", e.name, err)
		}
		c.same(e.name, n, back, diffOpt{NaNConst: true, NoExt: true, TimeTol: 0.01 * msDays})
	}
	c.Ev("encodings checked", 1)
	c.Ev("bytes judged", int64(len(out)))
}

// wideMP are directed shapes at header-size boundaries.
func wideMP(r *rand.Rand, i int) *N {
	sizes := []int{0, 1, 14, 15, 16, 17, 30, 31, 32, 33, 127, 128, 254, 255, 256, 257, 1000, 32767, 32768, 65534, 65535, 65536, 65537, 70000}
	sz := sizes[i%len(sizes)]
	switch (i / len(sizes)) % 7 {
	case 0:
		return nStr(genASCII(r, sz))
	case 1:
		return nBin(randBytes(r, sz))
	case 2:
		return nExt(byte(r.IntN(255)), randBytes(r, sz))
	case 3:
		n := nArr()
		for k := 0; k < sz; k++ {
			n.C = append(n.C, nInt(int64(k)))
		}
		return n
	case 4:
		n := nObj()
		for k := 0; k < sz; k++ {
			n.add(fmt.Sprintf("k%d", k), nNull())
		}
		return n
	case 5:
		return nObj().add(genASCII(r, sz), nInt(1)).add("z", nStr("tail"))
	}
	return nArr(nStr(genASCII(r, sz)), nBin(randBytes(r, sz)), nExt(7, randBytes(r, sz)), nInt(3))
}

// giant has one text, binary or extension whose length needs the top byte of a 32-bit header.
func giant(r *rand.Rand, i int, bson bool) (*N, string) {
	sz := 1<<24 + r.IntN(70000)
	b := make([]byte, sz)
	for k := 0; k < sz; k += 1 + r.IntN(4000) {
		b[k] = byte(r.IntN(128))
	}
	var x *N
	switch i % 3 {
	case 0:
		for k := range b {
			b[k] &= 0x7f
		}
		x = nStr(string(b))
	case 1:
		x = nBin(b)
	default:
		x = nExt(byte(1+r.IntN(100)), b)
		if bson {
			x.Ext, x.X = extBinary, []byte{1, 3, 4, 5, 6, 7, 0x80}[r.IntN(7)]
		}
	}
	what := fmt.Sprintf("%v of %d bytes between two integers", x.K, sz)
	if bson || r.IntN(2) == 0 {
		return nObj().add("a", nInt(1)).add("big", x).add("z", nInt(2)), what
	}
	return nArr(nInt(1), x, nInt(2)), what
}

// someLen is a length in the range between the small trees and the giants, often next to a power of two.
func someLen(r *rand.Rand, lo, hi int) int {
	e := lo + r.IntN(hi-lo+1)
	switch r.IntN(4) {
	case 0:
		return 1<<e + r.IntN(9) - 4
	case 1:
		return 1<<e + 1 + r.IntN(300)
	}
	return 1<<e + r.IntN(1<<e)
}

// bigPieces is a map or array of texts, binaries, extensions and keys of at least 70000 bytes each, up to some MB.
func bigPieces(r *rand.Rand, bson bool, hi int) (*N, string) {
	n := nObj()
	if !bson && r.IntN(3) == 0 {
		n = nArr()
	}
	what := ""
	put := func(k string, x *N) {
		if n.K == KObj {
			n.add(k, x)
		} else {
			n.C = append(n.C, x)
		}
	}
	put("a", nInt(1))
	for k := 1 + r.IntN(3); k > 0; k-- {
		sz := someLen(r, 16, hi)
		var x *N
		switch r.IntN(4) {
		case 0:
			x = nStr(genASCII(r, sz))
		case 1:
			x = nBin(randBytes(r, sz))
		case 2:
			x = nExt(byte(1+r.IntN(100)), randBytes(r, sz))
			if bson {
				x.Ext, x.X = extBinary, []byte{1, 3, 4, 5, 6, 7, 0x80}[r.IntN(7)]
			}
		default:
			x = nObj().add(genASCII(r, sz), nInt(int64(k))).add("after", nNull())
			if n.K == KObj && r.IntN(2) == 0 {
				what += fmt.Sprintf(" key of %d bytes", sz)
				put(genASCII(r, sz), nInt(int64(k)))
				continue
			}
		}
		what += fmt.Sprintf(" %v of %d bytes", x.K, sz)
		put(fmt.Sprint("k", k), x)
	}
	put("z", nInt(2))
	return n, n.K.String() + " with" + what
}

// manyBSON is a document with an array of very many elements, the i-th kind of element or a mix.
func manyBSON(r *rand.Rand, i int) (*N, string) {
	sz := []int{5000, 10001, 70000, 40000}[(i/3)%4] + r.IntN(500)
	a := nArr()
	el := func(k int) *N {
		switch k {
		case 0:
			return nObj().add("n", nInt(int64(len(a.C))))
		case 1:
			return nArr(nInt(int64(len(a.C))))
		case 2:
			return nStr(fmt.Sprint(len(a.C)))
		case 3:
			return nNull()
		case 4:
			return nBin([]byte{byte(len(a.C))})
		}
		return nInt(int64(len(a.C)))
	}
	for len(a.C) < sz {
		k := i % 3
		if k == 2 {
			k = r.IntN(6)
		}
		a.C = append(a.C, el(k))
	}
	return nObj().add("first", nInt(1)).add("many", a).add("last", nInt(2)), fmt.Sprintf("array of %d elements, kind %d", sz, i%3)
}

// bigFresh builds n; big objects come from JSON because setting keys one by one is quadratic.
func bigFresh(r *rand.Rand, n *N) *dx.DxValue {
	if n.K == KObj && len(n.C) > 2000 {
		v, err := dx.NewValueFromJson(writeJSON(r, n, jsonStyle{}), false, false)
		if err != nil {
			panic(failure{"valid JSON refused: " + err.Error()})
		}
		return v
	}
	return fresh(r, n, false)
}

func hugeObj(n *N) bool { return n.K == KObj && len(n.C) > 2000 }

func bsonKey(r *rand.Rand) string {
	for {
		if k := genKey(r); !strings.Contains(k, "\x00") {
			return k
		}
	}
}

var bsonKinds = []Kind{KStr, KStr, KInt, KInt, KDbl, KFlt, KBin, KBin, KTime, KNull, KTrue, KFalse}

// bsonMarks turns some scalars into object ids, decimals, timestamps and binaries with a subtype.
func bsonMarks(r *rand.Rand, n *N) *N {
	n.walk(func(x *N) {
		switch {
		case x.K == KBin && r.IntN(2) == 0:
			switch r.IntN(3) {
			case 0:
				x.Ext, x.B = extObjectID, randBytes(r, 12)
			case 1:
				x.Ext, x.B = extDecimal, randBytes(r, 16)
			default:
				x.K, x.Ext, x.X = KExt, extBinary, []byte{1, 3, 4, 5, 6, 7, 0x80, 0xff}[r.IntN(8)]
			}
		case x.K == KInt && r.IntN(6) == 0:
			x.Ext = extTimestamp
		}
	})
	return n
}

func genBSONTree(r *rand.Rand, nan bool) *N {
	kinds := bsonKinds
	if r.IntN(4) == 0 {
		kinds = []Kind{KInt, KDbl, KBin}
	}
	n := genTree(r, treeOpt{Root: int(KObj), Kinds: kinds, NaNs: nan, Key: bsonKey})
	bsonMarks(r, n)
	return setTimes(r, n, time.Millisecond)
}

// fltToDbl: BSON has only doubles.
func fltToDbl(n *N) *N {
	n = n.clone()
	n.walk(func(x *N) {
		if x.K == KFlt {
			x.K = KDbl
		}
	})
	return n
}

func checkBSONOutput(c *C, n *N, v *dx.DxValue) {
	var out []byte
	if c.R.IntN(2) == 0 {
		o, err := dx.Value2Bson(v, nil)
		if err != nil {
			c.Failf("Value2Bson: %v", err)
		}
		out = o
	} else {
		out = v.ToBson(nil)
	}
	got, used, err := decBSON(out, n.K == KArr, 0)
	if err != nil {
		c.Failf("the encoding is not BSON: %v: %x", err, clipB(out))
	}
	if used != len(out) {
		c.Failf("the document says %d bytes, the encoding has %d", used, len(out))
	}
	want := fltToDbl(n)
	o := diffOpt{NaNConst: true, TimeTol: 0.01 * msDays}
	if d := diff(want, wireTimes(got), o); d != "" {
		c.Failf("an independent decoder reads another tree: %s (%x)", d, clipB(out))
	}
	if n.K == KObj {
		for k := 0; k < 2; k++ {
			e := entriesOf[FBSON][c.R.IntN(8)]
			back, err := e.dec(c.R, out)
			if err != nil {
				c.Failf("%s: own encoding refused: %v", e.name, err)
			}
			o.TimeTol = 0.51 * msDays
			c.same(e.name, want, back, o)
		}
	}
	c.Ev("encodings checked", 1)
	c.Ev("bytes judged", int64(len(out)))
}

// feed gives a valid binary document to every entry point.
func feed(c *C, f Format, b []byte, want *N, o diffOpt) {
	feedSome(c, f, b, want, o, func(k int) bool {
		return !hugeObj(want) || c.I%2 == k // decoding a huge map is quadratic in the number of keys
	})
}

func feedSome(c *C, f Format, b []byte, want *N, o diffOpt, sel func(k int) bool) {
	g := guard()
	if len(b) > 1<<20 {
		defer g.drop()
	}
	for k, e := range entriesOf[f] {
		if !sel(k) {
			continue
		}
		c.Ev("entry points exercised", 1)
		in := g.place(b)
		v, err := e.dec(c.R, in)
		if err != nil {
			c.Failf("%s: conforming document refused: %v (%x)", e.name, err, clipB(b))
		}
		if !e.share {
			g.revoke()
		}
		c.same(e.name, want, v, o)
		if e.cached && !e.load && c.R.IntN(2) == 0 {
			dx.FreeValue(v)
		}
	}
	g.readOnly()
}

// badBinary judges one arbitrary input of a binary format.
func badBinary(c *C, f Format, b []byte, both bool) {
	var refErr error
	var mustReject, mustAccept bool
	if f == FMP {
		_, _, refErr = decMP(b, 0, nil)
		mustReject = refErr != nil && !errors.Is(refErr, errMPSoft)
		mustAccept = refErr == nil
	} else {
		_, _, refErr = decBSON(b, false, 0)
		mustReject = refErr != nil && !errors.Is(refErr, errSoft) && !errors.Is(refErr, errType)
		mustAccept = refErr == nil
	}
	es := entriesOf[f]
	pick := []*entry{es[c.R.IntN(8)]}
	if both {
		pick = []*entry{es[c.R.IntN(4)*2], es[c.R.IntN(4)*2+1]}
	}
	if refErr != nil {
		c.NonTrivial(b)
	}
	for _, e := range pick {
		in := guard().place(b)
		if in == nil {
			return
		}
		if c.R.IntN(8) == 0 { // a reused buffer, with more of some other document behind the end
			in = append(append(make([]byte, 0, 2*len(b)+64), b...), b...)[:len(b)]
			c.Ev("inputs at the front of a larger buffer", 1)
		}
		var v, prev *dx.DxValue
		var err error
		if e.load {
			prev, _ = prevValue(c.R, e.cached)
		}
		c.bounded(e.name, len(b), func() {
			if e.load {
				v, err = prev, loadInto(f, prev, in, e.share)
			} else {
				v, err = e.dec(c.R, in)
			}
		})
		c.Ev("inputs fed", 1)
		if err != nil {
			c.Ev("inputs refused", 1)
			if err.Error() == "" {
				c.Failf("%s: the error has no text", e.name)
			}
			if mustAccept {
				c.Failf("%s: conforming document refused: %v", e.name, err)
			}
			if !e.load && v != nil {
				c.Failf("%s: an error and a value", e.name)
			}
			if e.load {
				usable(c, v, e.name+" failed")
			}
			continue
		}
		if v == nil {
			c.Failf("%s: neither a value nor an error", e.name)
		}
		if mustReject && !(e.load && len(b) == 0) {
			c.Failf("%s: malformed input accepted (reference: %v) as %s", e.name, refErr, snap(v).dump())
		}
		n := snap(v)
		if e.load && len(b) == 0 && len(n.C) > 0 {
			c.Failf("%s: empty input left %s", e.name, n.dump())
		}
		c.Ev("inputs accepted", 1)
	}
}

var mpAlphabet = []byte{0xc0, 0xc1, 0xc2, 0xc4, 0xc5, 0xc6, 0xc7, 0xc8, 0xc9, 0xca, 0xcb, 0xcc, 0xcd, 0xce, 0xcf, 0xd0, 0xd1, 0xd2, 0xd3, 0xd4, 0xd5, 0xd6, 0xd7, 0xd8, 0xd9, 0xda, 0xdb, 0xdc, 0xdd, 0xde, 0xdf, 0x80, 0x81, 0x8f, 0x90, 0x91, 0x9f, 0xa0, 0xa1, 0xbf, 0xe0, 0xff, 0, 1, 0x7f}
var bsonAlphabet = []byte{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 0x7f, 0xff, 0x80, 'a', '0', '1'}

func genMPDoc(r *rand.Rand) []byte {
	n := genTree(r, treeOpt{Root: -1, Kinds: []Kind{KStr, KStr, KInt, KInt, KDbl, KFlt, KBin, KExt, KTime, KNull, KTrue, KFalse}, Budget: 3 + r.IntN(25)})
	setTimes(r, n, 1)
	return encMP(r, n, r.IntN(2) == 0, nil)
}

// cuts gives the lengths of the prefixes to try: all of a short document, the ends and samples of a long one.
func cuts(r *rand.Rand, n int) (ks []int) {
	if n <= 900 {
		for k := 0; k < n; k++ {
			ks = append(ks, k)
		}
		return
	}
	for k := 0; k < 150; k++ {
		ks = append(ks, k)
	}
	for k := n - 60; k < n; k++ {
		ks = append(ks, k)
	}
	for k := 0; k < 60; k++ {
		ks = append(ks, r.IntN(n))
	}
	return
}

func genBSONDoc(r *rand.Rand) []byte {
	n := genTree(r, treeOpt{Root: int(KObj), Kinds: bsonKinds, Key: bsonKey, Budget: 3 + r.IntN(25)})
	return encBSON(r, setTimes(r, bsonMarks(r, n), time.Millisecond), nil)
}

func init() {
	register(&Prop{ID: "C04", Scale: 50,
		Rule:   "A case is a value tree (all node kinds; sizes around every header boundary) built through varied API routes, encoded to MsgPack. An independent strict decoder must read the same tree, find every header minimal and nothing left over, and this library's decoder must give the tree back. Distinct = distinct trees.",
		Assume: []string{"the strict decoder of the harness (msgpack_ref.go) implements the MsgPack specification", "extension type -1 with 4, 8 or 12 bytes is the timestamp type"},
		Gens: []*Gen{
			{Name: "bigPieces", Quick: 60, Thorough: 900, Fn: func(c *C, i int) {
				n, what := bigPieces(c.R, false, 21)
				c.Describe(func() string { return what })
				c.NonTrivial(what)
				checkMPOutput(c, n, fresh(c.R, n, i%2 == 0))
			}},
			{Name: "giant", Quick: 3, Thorough: 30, Fn: func(c *C, i int) {
				n, what := giant(c.R, i, false)
				c.Describe(func() string { return what })
				c.NonTrivial(what)
				checkMPOutput(c, n, fresh(c.R, n, i%2 == 0))
			}},
			{Name: "trees", Quick: 12000, Fn: func(c *C, i int) {
				n := genTree(c.R, treeOpt{Root: -1, Kinds: mpKinds(c.R), NaNs: true, Wide: true})
				setTimes(c.R, n, time.Millisecond)
				v, origin := made(c.R, n, false)
				c.Describe(func() string { return origin + ": " + n.dump() })
				c.NonTrivial(n.dump())
				checkMPOutput(c, n, v)
			}},
			{Name: "fromJson", Quick: 3000, Fn: func(c *C, i int) {
				n := genTree(c.R, treeOpt{Root: -1, Kinds: jsonKinds, Str: jsonStr})
				v, origin := made(c.R, n, true)
				c.Describe(func() string { return origin + ": " + n.dump() })
				c.NonTrivial(n.dump())
				checkMPOutput(c, snap(v.Clone(false)), v)
				if d := diff(n, snap(v), diffOpt{Num: true}); d != "" {
					c.Failf("source tree: %s", d)
				}
			}},
			{Name: "boundary", Quick: 24 * 7, Thorough: 24 * 7 * 5, Fn: func(c *C, i int) {
				n := wideMP(c.R, i)
				c.Describe(func() string { return clip(n.dump(), 200) })
				c.NonTrivial("b", i)
				checkMPOutput(c, n, bigFresh(c.R, n))
			}},
			{Name: "many", Quick: 6, Thorough: 60, Fn: func(c *C, i int) {
				n := nArr()
				for sz := []int{1<<17 + 1, 1<<18 + 3, 1<<20 + 5}[i%3] + c.R.IntN(1000); sz > 0; sz-- {
					n.C = append(n.C, nInt(int64(sz)))
				}
				c.Describe(func() string { return fmt.Sprintf("array of %d elements", len(n.C)) })
				c.NonTrivial("many", len(n.C))
				checkMPOutput(c, n, fresh(c.R, n, i%2 == 0))
			}},
			{Name: "ints", Quick: 600, Fn: func(c *C, i int) {
				n := nArr()
				for k := 0; k < 100; k++ {
					base := int64(1) << uint(c.R.IntN(63))
					if c.R.IntN(2) == 0 {
						base = -base
					}
					n.C = append(n.C, nInt(base+int64(c.R.IntN(5))-2))
				}
				if i < 8 {
					n = nArr()
					for k := -70; k < 300; k++ {
						n.C = append(n.C, nInt(int64(k)*[]int64{1, 3, 127, 128, 255, 256, 257, 65535}[i]))
					}
				}
				c.NonTrivial(n.dump())
				c.Describe(n.dump)
				checkMPOutput(c, n, fresh(c.R, n, false))
			}},
		}})
	register(&Prop{ID: "C05", Scale: 18,
		Rule:   "A case is a tree encoded by the harness with every header written in a randomly chosen equivalent format (non-minimal sizes, signed or unsigned integers, all timestamp formats and extension sizes), decoded by all 8 entry points from a read-only buffer at a guard page (revoked afterwards when copied). Distinct = distinct encodings.",
		Assume: []string{"string map keys, integers within int64"},
		Gens: []*Gen{
			{Name: "bigPieces", Quick: 60, Thorough: 900, Fn: func(c *C, i int) {
				n, what := bigPieces(c.R, false, 21)
				c.Describe(func() string { return what })
				c.NonTrivial(what)
				feed(c, FMP, encMP(c.R, n, false, nil), n, diffOpt{})
			}},
			{Name: "giant", Quick: 3, Thorough: 30, Fn: func(c *C, i int) {
				n, what := giant(c.R, i, false)
				c.Describe(func() string { return what })
				c.NonTrivial(what)
				feed(c, FMP, encMP(c.R, n, false, nil), n, diffOpt{})
			}},
			{Name: "trees", Quick: 8000, Fn: func(c *C, i int) {
				n := genTree(c.R, treeOpt{Root: -1, Kinds: []Kind{KStr, KStr, KInt, KInt, KDbl, KFlt, KBin, KExt, KTime, KNull, KTrue, KFalse}, NaNs: true, Wide: true})
				setTimes(c.R, n, []time.Duration{1, time.Millisecond, time.Second}[c.R.IntN(3)])
				b := encMP(c.R, n, false, nil)
				c.Describe(func() string { return fmt.Sprintf("%s: %x", n.dump(), clipB(b)) })
				c.NonTrivial(b)
				feed(c, FMP, b, n, diffOpt{TimeTol: 0.01 * msDays, NaNConst: true})
			}},
			{Name: "scalars", Quick: 4000, Fn: func(c *C, i int) {
				kinds := []Kind{KStr, KInt, KDbl, KFlt, KBin, KExt, KTime, KNull, KTrue, KFalse}
				n := genScalar(c.R, kinds[i%len(kinds)], &treeOpt{NaNs: true, Str: genString})
				setTimes(c.R, n, []time.Duration{1, time.Second}[c.R.IntN(2)])
				b := encMP(c.R, n, false, nil)
				c.Describe(func() string { return fmt.Sprintf("%s: %x", n.dump(), clipB(b)) })
				c.NonTrivial(b)
				feed(c, FMP, b, n, diffOpt{TimeTol: 0.01 * msDays, NaNConst: true})
			}},
			{Name: "hugeMaps", Quick: 2, Thorough: 8, Fn: func(c *C, i int) {
				sz := 32768 + 300*(i/2)
				if i >= 4 {
					sz = 65534 + i/2
				}
				n := nObj()
				for k := 0; k < sz; k++ {
					n.add(fmt.Sprintf("k%d", k), nInt(int64(k)))
				}
				b := encMP(c.R, n, true, nil)
				c.NonTrivial(b)
				c.Describe(func() string { return fmt.Sprintf("map of %d keys", sz) })
				feed(c, FMP, b, n, diffOpt{})
			}},
			{Name: "hugeArrays", Quick: 3, Thorough: 12, Fn: func(c *C, i int) {
				sz := []int{1<<17 + 1, 1<<18 + 3, 1<<20 + 5}[i%3] + c.R.IntN(1+i*100)
				n := nArr()
				for k := 0; k < sz; k++ {
					n.C = append(n.C, nInt(int64(k)))
				}
				b := encMP(c.R, n, true, nil)
				c.NonTrivial(b)
				c.Describe(func() string { return fmt.Sprintf("array of %d elements", sz) })
				feedSome(c, FMP, b, n, diffOpt{}, func(k int) bool { return k%4 == i%4 })
			}},
			{Name: "mapsBeyond16", Quick: 1, Thorough: 4, Fn: func(c *C, i int) { // decoding is quadratic in the number of keys
				sz := 1<<16 + 1 + c.R.IntN(50)
				n := nObj()
				for k := 0; k < sz; k++ {
					n.add(fmt.Sprintf("k%d", k), nInt(int64(k)))
				}
				b := encMP(c.R, n, true, nil)
				c.NonTrivial(b)
				c.Describe(func() string { return fmt.Sprintf("map of %d keys", sz) })
				feedSome(c, FMP, b, n, diffOpt{}, func(k int) bool { return k == c.I%8 })
			}},
			{Name: "boundary", Quick: 24 * 7, Thorough: 24 * 7 * 5, Fn: func(c *C, i int) {
				n := wideMP(c.R, i)
				if hugeObj(n) {
					return // see hugeMaps
				}
				b := encMP(c.R, n, false, nil)
				c.Describe(func() string { return clip(n.dump(), 200) })
				c.NonTrivial(b)
				feed(c, FMP, b, n, diffOpt{})
			}},
			{Name: "deep", Quick: 8, Thorough: 80, Fn: func(c *C, i int) {
				d := []int{50, 1000, 5000, 9000}[i%4]
				var b []byte
				n := nInt(5)
				for k := 0; k < d; k++ {
					if c.R.IntN(2) == 0 {
						n = nArr(n)
					} else {
						n = nObj().add("k", n)
					}
				}
				b = encMP(c.R, n, false, nil)
				c.NonTrivial(b)
				c.Describe(func() string { return fmt.Sprintf("nested %d levels", d) })
				feed(c, FMP, b, n, diffOpt{})
			}},
		}})
	register(&Prop{ID: "C06", Scale: 22,
		Rule:   "A case is a damaged or random byte string (every truncation, single-byte corruptions, splices, huge declared lengths, reserved codes, non-string keys). The decoder must return, within metered memory and without touching the guard page; what the strict reference decoder refuses for framing must be refused, what it accepts must be accepted; a failed load leaves an empty, usable target. Distinct = distinct inputs the reference refuses.",
		Assume: []string{"bytes after the first complete object are ignored by design", "integers beyond int64 and out-of-range timestamps may be accepted or refused", "empty input given to a load clears the value"},
		Gens: []*Gen{
			{Name: "truncateLarge", Quick: 120, Fn: func(c *C, i int) {
				n, what := bigPieces(c.R, false, 17)
				b := encMP(c.R, n, c.R.IntN(2) == 0, nil)
				c.Describe(func() string { return "prefixes of " + what })
				for k := 0; k < 12; k++ {
					cut := c.R.IntN(len(b))
					if k%3 == 0 {
						cut = len(b) - 1 - c.R.IntN(20)
					}
					badBinary(c, FMP, b[:cut], false)

				}
			}},
			{Name: "truncate", Quick: 600, Fn: func(c *C, i int) {
				b := genMPDoc(c.R)
				c.Describe(func() string { return fmt.Sprintf("prefixes of %x", b) })
				for _, k := range cuts(c.R, len(b)) {
					badBinary(c, FMP, b[:k], false)
				}
			}},
			{Name: "corrupt", Quick: 40000, Fn: func(c *C, i int) {
				b := mutateBytes(c.R, genMPDoc(c.R), mpAlphabet, genMPDoc(c.R))
				c.Describe(func() string { return fmt.Sprintf("%x", b) })
				badBinary(c, FMP, b, true)
			}},
			{Name: "soup", Quick: 30000, Fn: func(c *C, i int) {
				b := make([]byte, c.R.IntN(14))
				for k := range b {
					b[k] = mpAlphabet[c.R.IntN(len(mpAlphabet))]
				}
				c.Describe(func() string { return fmt.Sprintf("%x", b) })
				badBinary(c, FMP, b, true)
			}},
			{Name: "codes", Quick: 256, Thorough: 2560, Fn: func(c *C, i int) {
				// every first byte, alone and with short tails
				code := byte(i)
				for l := 0; l < 40; l++ {
					b := append([]byte{code}, randBytes(c.R, l)...)
					if l%3 == 0 {
						for k := 1; k < len(b); k++ {
							b[k] = []byte{0, 0xff, 0x80, 0x7f}[c.R.IntN(4)]
						}
					}
					c.Describe(func() string { return fmt.Sprintf("%x", b) })
					badBinary(c, FMP, b, true)
					badBinary(c, FMP, append([]byte{0x92, 0xc0}, b...), true)
					badBinary(c, FMP, append([]byte{0x81, 0xa1, 'k'}, b...), true)
					badBinary(c, FMP, append([]byte{0x81}, b...), true)
				}
			}},
			{Name: "lengths", Quick: 3000, Fn: func(c *C, i int) {
				code := []byte{0xc4, 0xc5, 0xc6, 0xc7, 0xc8, 0xc9, 0xd9, 0xda, 0xdb, 0xdc, 0xdd, 0xde, 0xdf}[i%13]
				b := append([]byte{code}, []byte{0xff, 0xff, 0xff, 0xff, 0x7f, 0x80, 0, 1}[c.R.IntN(8)], byte(c.R.Uint32()), byte(c.R.Uint32()), byte(c.R.Uint32()))
				b = append(b, randBytes(c.R, c.R.IntN(300))...)
				c.Describe(func() string { return fmt.Sprintf("%x", clipB(b)) })
				badBinary(c, FMP, b, true)
			}},
			{Name: "large", Quick: 24, Thorough: 240, Fn: func(c *C, i int) {
				unit := [][]byte{{0x91}, {0x81, 0xa1, 'k'}, {0xdd, 0xff, 0xff, 0xff, 0xff}, {0xdf, 0, 0, 0xff, 0xff, 0xa0}, {0x9f}, {0xc0}, {0x8f, 0xa0}, {0xdc, 0x7f, 0xff}}[i%8]
				b := []byte{}
				for len(b) < c.R.IntN(50000)+100 {
					b = append(b, unit...)
				}
				c.Describe(func() string { return fmt.Sprintf("%x x %d", unit, len(b)/len(unit)) })
				badBinary(c, FMP, b, true)
			}},
		}})
	register(&Prop{ID: "C07", Scale: 60,
		Rule:   "A case is an object (all kinds BSON can carry, marked object ids, decimals, timestamps and binary subtypes, empty and nested containers, NUL inside strings) encoded to BSON. A strict independent decoder must read the same tree with exact lengths, terminators and array indexes; this library's decoder must give it back. Distinct = distinct trees.",
		Assume: []string{"the strict decoder of the harness (bson_ref.go) implements the BSON specification", "keys without NUL; binary extension data of MsgPack origin is not BSON content"},
		Gens: []*Gen{
			{Name: "bigPieces", Quick: 60, Thorough: 900, Fn: func(c *C, i int) {
				n, what := bigPieces(c.R, true, 21)
				c.Describe(func() string { return what })
				c.NonTrivial(what)
				checkBSONOutput(c, n, fresh(c.R, n, i%2 == 0))
			}},
			{Name: "giant", Quick: 3, Thorough: 30, Fn: func(c *C, i int) {
				n, what := giant(c.R, i, true)
				c.Describe(func() string { return what })
				c.NonTrivial(what)
				checkBSONOutput(c, n, fresh(c.R, n, i%2 == 0))
			}},
			{Name: "trees", Quick: 15000, Fn: func(c *C, i int) {
				n := genBSONTree(c.R, true)
				v := fresh(c.R, n, c.R.IntN(2) == 0)
				if c.R.IntN(4) == 0 {
					v = v.Clone(c.R.IntN(2) == 0)
				}
				c.Describe(n.dump)
				c.NonTrivial(n.dump())
				checkBSONOutput(c, n, v)
			}},
			{Name: "foreign", Quick: 2500, Fn: func(c *C, i int) { // extensions of MsgPack origin among the rest
				r := c.R
				n := genBSONTree(r, true)
				seen := 0
				var mark func(x *N)
				mark = func(x *N) {
					for k := range x.C {
						if x.C[k].K > KArr && (seen == 0 || r.IntN(4) == 0) {
							x.C[k] = nExt(byte(r.IntN(255)), genBytes(r))
							seen++
						}
						mark(x.C[k])
					}
				}
				mark(n)
				n.add("tail\x01", nInt(7))
				v := fresh(r, n, r.IntN(2) == 0)
				c.Describe(n.dump)
				if seen == 0 {
					return
				}
				c.NonTrivial(n.dump())
				out := v.ToBson(nil)
				got, used, err := decBSON(out, false, 0)
				if err != nil || used != len(out) {
					c.Failf("the encoding is not BSON: %v, %d of %d bytes: %x", err, used, len(out), clipB(out))
				}
				// in their place some binary holds the bytes; everything else is as it was
				var settle func(w, g *N)
				settle = func(w, g *N) {
					if w.K == KExt && w.Ext == 0 {
						if (g.K == KBin || g.K == KExt) && bytes.HasSuffix(g.B, w.B) {
							*w = *g
						}
						return
					}
					for k := range w.C {
						if k < len(g.C) {
							settle(w.C[k], g.C[k])
						}
					}
				}
				want := fltToDbl(n)
				settle(want, got)
				if d := diff(want, wireTimes(got), diffOpt{NaNConst: true, TimeTol: 0.01 * msDays}); d != "" {
					c.Failf("an independent decoder reads another tree: %s (%x)", d, clipB(out))
				}
				c.Ev("foreign extensions", int64(seen))
			}},
			{Name: "special", Quick: 1500, Fn: func(c *C, i int) {
				n := genTree(c.R, treeOpt{Root: int(KObj), Kinds: []Kind{KNaN, KInf, KNull, KTrue, KFalse, KFlt, KDbl}, NaNs: true, Key: bsonKey})
				c.Describe(n.dump)
				c.NonTrivial(n.dump())
				checkBSONOutput(c, n, fresh(c.R, n, false))
			}},
			{Name: "fromJson", Quick: 4000, Fn: func(c *C, i int) {
				n := genTree(c.R, treeOpt{Root: int(KObj), Kinds: jsonKinds, Str: jsonStr, Key: bsonKey})
				v, origin := made(c.R, n, true)
				c.Describe(func() string { return origin + ": " + n.dump() })
				c.NonTrivial(n.dump())
				checkBSONOutput(c, snap(v.Clone(false)), v)
			}},
			{Name: "many", Quick: 12, Thorough: 120, Fn: func(c *C, i int) {
				n, what := manyBSON(c.R, i)
				c.Describe(func() string { return what })
				c.NonTrivial("many", i)
				checkBSONOutput(c, n, fresh(c.R, n, i%2 == 0))
			}},
			{Name: "boundary", Quick: 40, Thorough: 400, Fn: func(c *C, i int) {
				sz := []int{0, 1, 4, 5, 9, 10, 11, 99, 100, 101, 255, 256, 999, 1000, 1001, 65535, 65536, 11000, 12, 16}[i%20]
				n := nObj()
				switch (i / 20) % 2 {
				case 0:
					a := nArr()
					for k := 0; k < sz; k++ {
						a.C = append(a.C, nInt(int64(k)-5))
					}
					n.add("a", a).add("z", nInt(1))
				default:
					n.add("s", nStr(genASCII(c.R, sz))).add("b", nBin(randBytes(c.R, sz))).add(genASCII(c.R, sz)+"!", nNull()).add("e", nObj()).add("f", nArr())
				}
				c.Describe(func() string { return clip(n.dump(), 200) })
				c.NonTrivial("b", i)
				checkBSONOutput(c, n, fresh(c.R, n, false))
			}},
		}})
	register(&Prop{ID: "C08", Scale: 30,
		Rule:   "A case is a conforming BSON document written by the harness (int32 or int64 for small integers, old and generic binary subtypes, every supported element type) and decoded by all 8 entry points from a read-only buffer at a guard page; or a document with one unsupported element, which must be refused. Distinct = distinct documents.",
		Assume: []string{"undefined, min key and max key carry no payload and may be read as null"},
		Gens: []*Gen{
			{Name: "bigPieces", Quick: 60, Thorough: 900, Fn: func(c *C, i int) {
				n, what := bigPieces(c.R, true, 21)
				c.Describe(func() string { return what })
				c.NonTrivial(what)
				feed(c, FBSON, encBSON(c.R, n, nil), n, diffOpt{})
			}},
			{Name: "giant", Quick: 3, Thorough: 30, Fn: func(c *C, i int) {
				n, what := giant(c.R, i, true)
				c.Describe(func() string { return what })
				c.NonTrivial(what)
				feed(c, FBSON, encBSON(c.R, n, nil), n, diffOpt{})
			}},
			{Name: "trees", Quick: 9000, Fn: func(c *C, i int) {
				n := genBSONTree(c.R, true)
				b := encBSON(c.R, n, nil)
				want := fltToDbl(n)
				c.Describe(func() string { return fmt.Sprintf("%s: %x", n.dump(), clipB(b)) })
				c.NonTrivial(b)
				feed(c, FBSON, b, want, diffOpt{TimeTol: 0.51 * msDays, NaNConst: true})
			}},
			{Name: "many", Quick: 12, Thorough: 120, Fn: func(c *C, i int) {
				n, what := manyBSON(c.R, i)
				c.Describe(func() string { return what })
				c.NonTrivial("many", i)
				feed(c, FBSON, encBSON(c.R, n, nil), n, diffOpt{})
			}},
			{Name: "elements", Quick: 3000, Fn: func(c *C, i int) {
				kinds := []Kind{KStr, KInt, KDbl, KBin, KTime, KNull, KTrue, KFalse, KObj, KArr}
				x := genNode(c.R, &treeOpt{Str: genString, Key: bsonKey, Kinds: bsonKinds, NaNs: true}, 1, new(int), int(kinds[i%len(kinds)]))
				n := setTimes(c.R, bsonMarks(c.R, nObj().add(bsonKey(c.R), x)), time.Millisecond)
				if c.R.IntN(2) == 0 {
					n = nObj().add("arr", nArr(n.C[0], nInt(1)))
				}
				b := encBSON(c.R, n, nil)
				c.Describe(func() string { return fmt.Sprintf("%s: %x", n.dump(), clipB(b)) })
				c.NonTrivial(b)
				feed(c, FBSON, b, fltToDbl(n), diffOpt{TimeTol: 0.51 * msDays, NaNConst: true})
			}},
			{Name: "unsupported", Quick: 3000, Fn: func(c *C, i int) {
				// a document with one regex, db pointer, code, symbol or scoped code element
				n := genTree(c.R, treeOpt{Root: int(KObj), Kinds: bsonKinds, Key: bsonKey, Budget: 6})
				setTimes(c.R, n, time.Millisecond)
				t := []byte{0x0b, 0x0c, 0x0d, 0x0e, 0x0f}[i%5]
				var pay []byte
				s := genASCII(c.R, 1+c.R.IntN(9))
				switch t {
				case 0x0b:
					pay = append(append(append([]byte(s), 0), "im"...), 0)
				case 0x0c:
					pay = append(append(le32(nil, uint32(len(s)+1)), s...), 0)
					pay = append(pay, randBytes(c.R, 12)...)
				case 0x0d, 0x0e:
					pay = append(append(le32(nil, uint32(len(s)+1)), s...), 0)
				case 0x0f:
					pay = append(append(le32(nil, uint32(len(s)+1)), s...), 0)
					pay = append(pay, 5, 0, 0, 0, 0)
					pay = append(le32(nil, uint32(len(pay)+4)), pay...)
				}
				arr := c.R.IntN(2) == 0
				wrap := func(pre, post *N) []byte {
					var d []byte
					d = le32(d, 0)
					for k, x := range pre.C {
						d = encBSONElem(c.R, pre.Keys[k], x, d)
					}
					if arr {
						d = append(d, 4, 'q', 0)
						l := len(d)
						d = le32(d, 0)
						d = append(append(append(d, t), '0', 0), pay...)
						d = append(d, 0)
						copy(d[l:], le32(nil, uint32(len(d)-l)))
					} else {
						d = append(append(append(d, t), 'q', 0), pay...)
					}
					for k, x := range post.C {
						d = encBSONElem(c.R, post.Keys[k]+"2", x, d)
					}
					d = append(d, 0)
					copy(d, le32(nil, uint32(len(d))))
					return d
				}
				b := wrap(n, nObj().add("tail", nInt(5)))
				c.Describe(func() string { return fmt.Sprintf("element type %#x: %x", t, b) })
				c.NonTrivial(b)
				for _, e := range entriesOf[FBSON] {
					v, err := e.dec(c.R, guard().place(b))
					if err == nil {
						c.Failf("%s: element type %#x accepted as %s", e.name, t, snap(v).dump())
					}
					if !e.load && v != nil {
						c.Failf("%s: an error and a value", e.name)
					}
				}
				c.Ev("unsupported elements refused", 8)
			}},
			{Name: "deep", Quick: 8, Thorough: 80, Fn: func(c *C, i int) {
				d := []int{50, 500, 2000, 6000}[i%4]
				n := nInt(5)
				for k := 0; k < d; k++ {
					if c.R.IntN(2) == 0 {
						n = nArr(n)
					} else {
						n = nObj().add("k", n)
					}
				}
				n = nObj().add("root", n)
				b := encBSON(c.R, n, nil)
				c.NonTrivial(b)
				c.Describe(func() string { return fmt.Sprintf("nested %d levels", d) })
				feed(c, FBSON, b, n, diffOpt{})
			}},
		}})
	register(&Prop{ID: "C09", Scale: 12,
		Rule:   "A case is a damaged or random byte string (every truncation, single-byte and length-field corruptions, splices, missing terminators). The decoder must return, within metered memory and without touching the guard page; what the reference framing check refuses must be refused, what the strict reference accepts must be accepted; a failed load leaves an empty, usable target. Distinct = distinct inputs the reference refuses.",
		Assume: []string{"bytes after the document are ignored by design", "intact framing with questionable content (booleans other than 0/1, array keys out of order, invalid UTF-8) may be accepted or refused", "empty input given to a load clears the value"},
		Gens: []*Gen{
			{Name: "truncateLarge", Quick: 120, Fn: func(c *C, i int) {
				n, what := bigPieces(c.R, true, 17)
				b := encBSON(c.R, n, nil)
				c.Describe(func() string { return "prefixes of " + what })
				for k := 0; k < 12; k++ {
					cut := c.R.IntN(len(b))
					if k%3 == 0 {
						cut = len(b) - 1 - c.R.IntN(20)
					}
					badBinary(c, FBSON, b[:cut], false)
					x := append([]byte(nil), b[:cut]...)
					if cut > 4 {
						copy(x, le32(nil, uint32(cut)))
						badBinary(c, FBSON, x, false)
					}
				}
			}},
			{Name: "truncate", Quick: 600, Fn: func(c *C, i int) {
				b := genBSONDoc(c.R)
				c.Describe(func() string { return fmt.Sprintf("prefixes of %x", b) })
				for _, k := range cuts(c.R, len(b)) {
					badBinary(c, FBSON, b[:k], false)
					if k >= 4 { // with the outer length adapted
						x := append([]byte(nil), b[:k]...)
						copy(x, le32(nil, uint32(k)))
						badBinary(c, FBSON, x, false)
					}
				}
			}},
			{Name: "corrupt", Quick: 40000, Fn: func(c *C, i int) {
				b := mutateBytes(c.R, genBSONDoc(c.R), bsonAlphabet, genBSONDoc(c.R))
				if c.R.IntN(2) == 0 && len(b) >= 4 {
					copy(b, le32(nil, uint32(len(b))))
				}
				c.Describe(func() string { return fmt.Sprintf("%x", b) })
				badBinary(c, FBSON, b, true)
			}},
			{Name: "lengths", Quick: 20000, Fn: func(c *C, i int) {
				b := genBSONDoc(c.R)
				p := c.R.IntN(len(b) - 3)
				x := []uint32{0, 1, 2, 3, 4, 5, 6, 12, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffffb, uint32(len(b)), uint32(len(b) - p), uint32(len(b) - p + 1), uint32(len(b) - p - 1), uint32(len(b) - p - 4), uint32(len(b) - p - 5)}[c.R.IntN(18)]
				copy(b[p:], le32(nil, x))
				c.Describe(func() string { return fmt.Sprintf("%x", b) })
				badBinary(c, FBSON, b, true)
			}},
			{Name: "binaries", Quick: 6000, Fn: func(c *C, i int) { // binary elements whose two lengths do not fit
				r := c.R
				var d []byte
				d = le32(d, 0)
				for k := 1 + r.IntN(3); k > 0; k-- {
					body := randBytes(r, r.IntN(12))
					if r.IntN(2) == 0 {
						for j := range body {
							body[j] = []byte{0, 0xff, 1, 0x7f}[r.IntN(4)]
						}
					}
					if r.IntN(2) == 0 && len(body) >= 4 {
						copy(body, le32(nil, uint32(len(body)-4+[]int{0, 0, 1, -1, -4}[r.IntN(5)])))
					}
					d = append(d, 5, 'b', 0)
					d = append(le32(d, uint32(len(body)+[]int{0, 0, 0, 1, -1, 2}[r.IntN(6)])), []byte{2, 2, 0, 5}[r.IntN(4)])
					d = append(d, body...)
					for j := r.IntN(3); j > 0; j-- {
						d = append(d, []byte{0xff, 0x7f, 0x0a, 6}[r.IntN(4)], []byte{'k', 0}[r.IntN(2)], 0)
					}
				}
				d = append(d, 0)
				copy(d, le32(nil, uint32(len(d))))
				c.Describe(func() string { return fmt.Sprintf("%x", d) })
				badBinary(c, FBSON, d, true)
			}},
			{Name: "soup", Quick: 20000, Fn: func(c *C, i int) {
				b := make([]byte, c.R.IntN(40))
				for k := range b {
					b[k] = bsonAlphabet[c.R.IntN(len(bsonAlphabet))]
				}
				if len(b) > 4 && c.R.IntN(4) > 0 {
					copy(b, le32(nil, uint32(len(b))))
					if c.R.IntN(2) == 0 {
						b[len(b)-1] = 0
					}
				}
				c.Describe(func() string { return fmt.Sprintf("%x", b) })
				badBinary(c, FBSON, b, true)
			}},
			{Name: "large", Quick: 16, Thorough: 160, Fn: func(c *C, i int) {
				var b []byte
				unit := [][]byte{{3, 'a', 0, 0xff, 0xff, 0, 0}, {4, '0', 0, 0xf0, 0, 0, 0}, {0x0a, 'k', 0}, {8, 0, 1}}[i%4]
				b = le32(b, 0)
				for len(b) < c.R.IntN(50000)+100 {
					b = append(b, unit...)
				}
				if c.R.IntN(2) == 0 { // plausible nesting: every length covers the rest
					for p := 4; p+7 < len(b) && unit[0] < 5; p += 7 {
						copy(b[p+3:], le32(nil, uint32(len(b)-p-3)))
					}
				}
				b = append(b, 0)
				copy(b, le32(nil, uint32(len(b))))
				c.Describe(func() string { return fmt.Sprintf("%x x %d", unit, len(b)/len(unit)) })
				badBinary(c, FBSON, b, true)
			}},
		}})
	_ = math.Pi
}
