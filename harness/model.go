package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"math/big"
	"math/rand/v2"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/suiyunonghen/DxCommonLib"
	dx "github.com/suiyunonghen/dxsvalue"
)

// Kind is the kind of a reference node.
type Kind uint8

const (
	KObj Kind = iota
	KArr
	KStr
	KInt
	KFlt
	KDbl
	KTime
	KBin
	KExt
	KNull
	KTrue
	KFalse
	KNaN
	KInf
	KBad // a node the library should never show (nil child, unknown type)
)

var kindNames = []string{"object", "array", "string", "int", "float32", "double", "datetime", "binary", "ext", "null", "true", "false", "nan", "inf", "BAD"}

func (k Kind) String() string { return kindNames[k] }

// N is a node of the reference model.
type N struct {
	K    Kind
	I    int64
	F    float64 // KFlt, KDbl, KTime (stored day number)
	S    string
	B    []byte
	X    byte      // KExt: extension type
	T    time.Time // KTime: the instant, in wire-level models
	Ext  byte      // BSON extension (object id, decimal, timestamp, binary subtype marker)
	Keys []string
	C    []*N
}

func nStr(s string) *N         { return &N{K: KStr, S: s} }
func nInt(i int64) *N          { return &N{K: KInt, I: i} }
func nDbl(f float64) *N        { return &N{K: KDbl, F: f} }
func nFlt(f float32) *N        { return &N{K: KFlt, F: float64(f)} }
func nBin(b []byte) *N         { return &N{K: KBin, B: b} }
func nExt(t byte, b []byte) *N { return &N{K: KExt, X: t, B: b} }
func nNull() *N                { return &N{K: KNull} }
func nBool(b bool) *N {
	if b {
		return &N{K: KTrue}
	}
	return &N{K: KFalse}
}
func nArr(c ...*N) *N { return &N{K: KArr, C: c} }
func nObj() *N        { return &N{K: KObj} }
func (n *N) add(k string, c *N) *N {
	n.Keys = append(n.Keys, k)
	n.C = append(n.C, c)
	return n
}

func (n *N) idx(k string) int {
	for i, x := range n.Keys {
		if x == k {
			return i
		}
	}
	return -1
}

func (n *N) clone() *N {
	c := *n
	c.B = append([]byte(nil), n.B...)
	c.Keys = append([]string(nil), n.Keys...)
	c.C = make([]*N, len(n.C))
	for i := range n.C {
		c.C[i] = n.C[i].clone()
	}
	return &c
}

func (n *N) count() int {
	t := 1
	for _, c := range n.C {
		t += c.count()
	}
	return t
}

func (n *N) depth() int {
	d := 0
	for _, c := range n.C {
		if x := c.depth(); x > d {
			d = x
		}
	}
	return d + 1
}

func (n *N) walk(f func(*N)) {
	f(n)
	for _, c := range n.C {
		c.walk(f)
	}
}

func isNum(k Kind) bool { return k == KInt || k == KFlt || k == KDbl }

func (n *N) num() float64 {
	if n.K == KInt {
		return float64(n.I)
	}
	return n.F
}

// dump writes a readable, unambiguous form of the tree.
func (n *N) dump() string {
	var sb strings.Builder
	n.dumpTo(&sb, 0)
	return sb.String()
}

func (n *N) dumpTo(sb *strings.Builder, depth int) {
	if sb.Len() > 40000 || depth > 60 {
		sb.WriteString("…")
		return
	}
	if n == nil {
		sb.WriteString("<nil>")
		return
	}
	if n.Ext != 0 {
		fmt.Fprintf(sb, "<%#x>", n.Ext)
	}
	switch n.K {
	case KObj:
		sb.WriteByte('{')
		for i, k := range n.Keys {
			if i > 0 {
				sb.WriteByte(',')
			}
			sb.WriteString(strconv.Quote(clip(k, 200)))
			sb.WriteByte(':')
			n.C[i].dumpTo(sb, depth+1)
		}
		sb.WriteByte('}')
	case KArr:
		sb.WriteByte('[')
		for i, c := range n.C {
			if i > 0 {
				sb.WriteByte(',')
			}
			c.dumpTo(sb, depth+1)
		}
		sb.WriteByte(']')
	case KStr:
		sb.WriteString(strconv.Quote(clip(n.S, 400)))
	case KInt:
		fmt.Fprintf(sb, "i%d", n.I)
	case KFlt:
		fmt.Fprintf(sb, "f%v", float32(n.F))
	case KDbl:
		fmt.Fprintf(sb, "d%s", strconv.FormatFloat(n.F, 'g', -1, 64))
	case KTime:
		fmt.Fprintf(sb, "t%s", strconv.FormatFloat(n.F, 'g', -1, 64))
	case KBin:
		fmt.Fprintf(sb, "bin(%d:%x)", len(n.B), clipB(n.B))
	case KExt:
		fmt.Fprintf(sb, "ext(%d,%d:%x)", n.X, len(n.B), clipB(n.B))
	default:
		sb.WriteString(n.K.String())
		if n.K == KBad {
			sb.WriteString("(" + n.S + ")")
		}
	}
}

func clipB(b []byte) []byte {
	if len(b) > 48 {
		return b[:48]
	}
	return b
}

// snap reads a value through the public API into the reference model.
func snap(v *dx.DxValue) *N {
	budget := 3000000
	return snapN(v, 0, &budget)
}

func snapN(v *dx.DxValue, depth int, budget *int) *N {
	if v == nil {
		return &N{K: KBad, S: "nil node"}
	}
	*budget--
	if depth > 30000 || *budget < 0 {
		return &N{K: KBad, S: "tree does not end"}
	}
	n := &N{Ext: v.ExtType}
	switch v.DataType {
	case dx.VT_Object:
		n.K = KObj
		cnt := v.Count()
		n.C = make([]*N, 0, cnt)
		n.Keys = make([]string, 0, cnt)
		for i := 0; i < cnt; i++ {
			k, c := v.Items(i)
			n.Keys = append(n.Keys, k)
			n.C = append(n.C, snapN(c, depth+1, budget))
		}
	case dx.VT_Array:
		n.K = KArr
		cnt := v.Count()
		n.C = make([]*N, 0, cnt)
		for i := 0; i < cnt; i++ {
			n.C = append(n.C, snapN(v.ValueByIndex(i), depth+1, budget))
		}
	case dx.VT_String, dx.VT_RawString:
		n.K, n.S = KStr, strings.Clone(v.String())
	case dx.VT_Int:
		n.K, n.I = KInt, v.Int()
	case dx.VT_Float:
		n.K, n.F = KFlt, float64(v.Float())
	case dx.VT_Double:
		n.K, n.F = KDbl, v.Double()
	case dx.VT_DateTime:
		n.K, n.F = KTime, v.Double()
	case dx.VT_Binary:
		n.K, n.B = KBin, append([]byte(nil), v.Binary()...)
	case dx.VT_ExBinary:
		n.K, n.X, n.B = KExt, v.BinExtType(), append([]byte(nil), v.Binary()...)
	case dx.VT_NULL:
		n.K = KNull
	case dx.VT_True:
		n.K = KTrue
	case dx.VT_False:
		n.K = KFalse
	case dx.VT_NAN:
		n.K = KNaN
	case dx.VT_INF:
		n.K = KInf
	default:
		n.K, n.S = KBad, fmt.Sprint("type ", v.DataType)
	}
	return n
}

// diffOpt relaxes the comparison of two trees.
type diffOpt struct {
	Num       bool    // numbers compare by value across int/float32/float64
	Exact     bool    // with Num: an integer equals a float only when both are the same real number
	NoExt     bool    // ignore BSON extension marks
	NaNConst  bool    // NaN/Inf constants equal double NaN/+Inf
	TimeTol   float64 // tolerance of date-times in days
	Unordered bool    // object keys in any order
}

func sameFloat(a, b float64) bool {
	return a == b || math.IsNaN(a) && math.IsNaN(b)
}

// diff returns "" when want and got are the same tree, else where they differ.
func diff(want, got *N, o diffOpt) string { return diffN(want, got, o, "$", 0) }

func diffN(a, b *N, o diffOpt, path string, depth int) string {
	if a == nil || b == nil {
		if a == b {
			return ""
		}
		return path + ": missing node"
	}
	mism := func() string {
		return fmt.Sprintf("at %s: expected %s, got %s", clip(path, 300), clip(a.dump(), 300), clip(b.dump(), 300))
	}
	if o.Num && isNum(a.K) && isNum(b.K) {
		if a.K == KInt && b.K == KInt {
			if a.I != b.I {
				return mism()
			}
			return ""
		}
		if a.K == KInt || b.K == KInt { // exact comparison of integer and float
			if o.Exact {
				i, f := a.I, b.F
				if b.K == KInt {
					i, f = b.I, a.F
				}
				if math.IsNaN(f) || math.IsInf(f, 0) || new(big.Float).SetInt64(i).Cmp(big.NewFloat(f)) != 0 {
					return mism()
				}
			} else if b.K == KInt { // a float may be spelled as an integer that rounds to it
				if a.F != float64(b.I) {
					return mism()
				}
			} else if b.F != float64(a.I) || math.Abs(b.F) < 9.2e18 && int64(b.F) != a.I {
				return mism()
			}
			return ""
		}
		if !sameFloat(a.F, b.F) {
			return mism()
		}
		return ""
	}
	if o.NaNConst {
		an := a.K == KNaN || (isNum(a.K) && a.K != KInt && math.IsNaN(a.F))
		bn := b.K == KNaN || (isNum(b.K) && b.K != KInt && math.IsNaN(b.F))
		ai := a.K == KInf || (isNum(a.K) && a.K != KInt && math.IsInf(a.F, 1))
		bi := b.K == KInf || (isNum(b.K) && b.K != KInt && math.IsInf(b.F, 1))
		if an && bn || ai && bi {
			return ""
		}
	}
	if a.K != b.K {
		return mism()
	}
	if !o.NoExt && a.Ext != b.Ext {
		return mism()
	}
	switch a.K {
	case KObj:
		if len(a.Keys) != len(b.Keys) {
			return fmt.Sprintf("at %s: expected %d keys %q, got %d keys %q", clip(path, 300), len(a.Keys), clipKeys(a.Keys), len(b.Keys), clipKeys(b.Keys))
		}
		for i := range a.Keys {
			j := i
			if o.Unordered {
				j = b.idx(a.Keys[i])
				if j < 0 {
					return fmt.Sprintf("at %s: key %q missing", clip(path, 300), clip(a.Keys[i], 100))
				}
			} else if a.Keys[i] != b.Keys[i] {
				return fmt.Sprintf("at %s: key %d is %q, expected %q", clip(path, 300), i, clip(b.Keys[i], 200), clip(a.Keys[i], 200))
			}
			if d := diffN(a.C[i], b.C[j], o, path+"."+clip(a.Keys[i], 20), depth+1); d != "" {
				return d
			}
		}
	case KArr:
		if len(a.C) != len(b.C) {
			return fmt.Sprintf("at %s: expected %d elements, got %d (%s / %s)", clip(path, 300), len(a.C), len(b.C), clip(a.dump(), 200), clip(b.dump(), 200))
		}
		for i := range a.C {
			if d := diffN(a.C[i], b.C[i], o, path+"["+strconv.Itoa(i)+"]", depth+1); d != "" {
				return d
			}
		}
	case KStr:
		if a.S != b.S {
			return mism()
		}
	case KInt:
		if a.I != b.I {
			return mism()
		}
	case KFlt, KDbl:
		if math.Float64bits(a.F) != math.Float64bits(b.F) && !(math.IsNaN(a.F) && math.IsNaN(b.F)) {
			return mism()
		}
	case KTime:
		if math.Abs(a.F-b.F) > o.TimeTol && a.F != b.F {
			return mism()
		}
	case KBin:
		if !bytes.Equal(a.B, b.B) {
			return mism()
		}
	case KExt:
		if a.X != b.X || !bytes.Equal(a.B, b.B) {
			return mism()
		}
	case KBad:
		return mism()
	}
	return ""
}

func clipKeys(k []string) []string {
	if len(k) > 12 {
		k = k[:12]
	}
	out := make([]string, len(k))
	for i := range k {
		out[i] = clip(k[i], 40)
	}
	return out
}

// ---------------------------------------------------------------------------------------------
// random trees

type treeOpt struct {
	prev     string // a text generated before
	Root     int    // -1 any, else Kind
	Depth    int
	Budget   int // number of nodes
	Kinds    []Kind
	NaNs     bool  // doubles may be NaN / infinite
	IntRange int64 // limit of |int|, 0: full int64
	Str      func(r *rand.Rand) string
	Key      func(r *rand.Rand) string
	FoldKeys bool // keys distinct ignoring case
	Wide     bool // allow container sizes at encoding boundaries
	NoBig    bool // no outsized containers, nesting
}

var jsonKinds = []Kind{KStr, KStr, KInt, KInt, KDbl, KNull, KTrue, KFalse}
var allKinds = []Kind{KStr, KStr, KInt, KInt, KDbl, KFlt, KBin, KExt, KTime, KNull, KTrue, KFalse, KNaN, KInf}
var dataKinds = []Kind{KStr, KStr, KInt, KInt, KDbl, KFlt, KBin, KNull, KTrue, KFalse}

func genTree(r *rand.Rand, o treeOpt) *N {
	if o.Depth == 0 {
		o.Depth = 1 + r.IntN(6)
	}
	if o.Budget == 0 {
		switch r.IntN(10) {
		case 0:
			o.Budget = 3
		case 1:
			o.Budget = 120
		default:
			o.Budget = 8 + r.IntN(30)
		}
	}
	if o.Kinds == nil {
		o.Kinds = jsonKinds
	}
	if o.Str == nil {
		o.Str = genString
	}
	if o.Key == nil {
		o.Key = genKey
	}
	b := o.Budget
	n := genNode(r, &o, o.Depth, &b, o.Root)
	if !o.NoBig && r.IntN(50) == 0 {
		outsize(r, n, &o)
	}
	return n
}

var outSizes = []int{17, 20, 33, 40, 65, 100, 129, 200, 257, 300, 500, 513, 1000, 1025, 1300, 2049, 3000}

// outsize gives some container of the tree far more entries, or nests some node far deeper, than usual.
func outsize(r *rand.Rand, n *N, o *treeOpt) {
	var cs, all []*N
	n.walk(func(x *N) {
		if x.K == KObj || x.K == KArr {
			cs = append(cs, x)
		}
		all = append(all, x)
	})
	size := outSizes[min(r.IntN(len(outSizes)), r.IntN(len(outSizes)))]
	if r.IntN(2) == 0 {
		size = 1 + r.IntN(150)
	}
	if r.IntN(3) > 0 && len(cs) > 0 { // wide
		widen(r, cs[r.IntN(len(cs))], o, size)
		return
	}
	x := all[r.IntN(len(all))] // deep
	if x == n && (o.Root >= 0 && Kind(o.Root) != KObj && Kind(o.Root) != KArr) {
		return
	}
	inner := *x
	chain := &inner
	for d := min(size, 1300); d > 0; d-- {
		k := r.IntN(2)
		if d == 1 && x == n && o.Root >= 0 {
			k = o.Root
		}
		if Kind(k) == KArr {
			w := nArr()
			if r.IntN(20) == 0 {
				w.C = append(w.C, genScalar(r, o.Kinds[r.IntN(len(o.Kinds))], o))
			}
			w.C = append(w.C, chain)
			chain = w
		} else {
			chain = nObj().add(o.Key(r), chain)
		}
	}
	*x = *chain
}

// widen gives a container as many entries.
func widen(r *rand.Rand, x *N, o *treeOpt, size int) {
	have := map[string]bool{}
	for _, k := range x.Keys {
		have[strings.ToLower(k)] = true
	}
	budget := 0
	for i := 0; len(x.C) < size; i++ {
		if x.K == KObj {
			k := o.Key(r)
			if have[strings.ToLower(k)] {
				k += strconv.Itoa(i)
			}
			if have[strings.ToLower(k)] {
				continue
			}
			have[strings.ToLower(k)] = true
			x.Keys = append(x.Keys, k)
		}
		kind := int(o.Kinds[r.IntN(len(o.Kinds))])
		if r.IntN(10) == 0 {
			kind = r.IntN(2)
		}
		x.C = append(x.C, genNode(r, o, 0, &budget, kind))
	}
}

func genNode(r *rand.Rand, o *treeOpt, depth int, budget *int, kind int) *N {
	*budget--
	k := Kind(0)
	if kind >= 0 {
		k = Kind(kind)
	} else if depth > 0 && *budget > 0 && r.IntN(100) < 45 {
		k = Kind(r.IntN(2))
	} else {
		k = o.Kinds[r.IntN(len(o.Kinds))]
	}
	switch k {
	case KObj:
		n := nObj()
		for _, key := range genKeys(r, o, childCount(r, o, budget)) {
			n.add(key, genNode(r, o, depth-1, budget, -1))
		}
		return n
	case KArr:
		n := nArr()
		for i := childCount(r, o, budget); i > 0; i-- {
			n.C = append(n.C, genNode(r, o, depth-1, budget, -1))
		}
		return n
	}
	return genScalar(r, k, o)
}

func childCount(r *rand.Rand, o *treeOpt, budget *int) int {
	if *budget <= 0 {
		return r.IntN(2)
	}
	switch r.IntN(12) {
	case 0:
		return 0
	case 1:
		return 7 + r.IntN(4) // around the default capacity of 8
	case 2:
		if o.Wide {
			return 14 + r.IntN(4)
		}
	case 3:
		if *budget > 60 {
			return 16 + r.IntN(20)
		}
	}
	return 1 + r.IntN(5)
}

func genKeys(r *rand.Rand, o *treeOpt, n int) []string {
	seen := map[string]bool{}
	var out []string
	family := ""
	if n > 1 && r.IntN(30) == 0 { // long keys that differ in one place
		for i := 9 + r.IntN(60); i > 0; i-- {
			family += string(rune('a' + r.IntN(26)))
		}
	}
	for len(out) < n {
		k := o.Key(r)
		if family != "" && r.IntN(4) > 0 {
			k = alter(r, family)
		}
		id := k
		if o.FoldKeys {
			id = strings.ToLower(k)
		}
		if seen[id] {
			k = k + strconv.Itoa(len(out))
			id = k
			if o.FoldKeys {
				id = strings.ToLower(k)
			}
			if seen[id] {
				continue
			}
		}
		seen[id] = true
		out = append(out, k)
	}
	return out
}

// alter changes one letter or digit of a text into a letter.
func alter(r *rand.Rand, s string) string {
	for try := 0; try < 8 && s != ""; try++ {
		i := r.IntN(len(s))
		if c := s[i]; c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' {
			return s[:i] + string(rune('a'+r.IntN(26))) + s[i+1:]
		}
	}
	return s
}

func genScalar(r *rand.Rand, k Kind, o *treeOpt) *N {
	switch k {
	case KStr:
		if o.prev != "" && r.IntN(25) == 0 && !strings.ContainsAny(o.prev, "(%") { // much like one before
			if r.IntN(4) > 0 {
				return nStr(alter(r, o.prev))
			}
			return nStr(o.prev)
		}
		s := o.Str(r)
		if len(s) > 7 || o.prev == "" {
			o.prev = s
		}
		return nStr(s)
	case KInt:
		i := genInt(r)
		if o.IntRange > 0 {
			i %= o.IntRange
		}
		return nInt(i)
	case KDbl:
		return nDbl(genFloat(r, o.NaNs))
	case KFlt:
		return nFlt(genFloat32(r, o.NaNs))
	case KTime:
		return &N{K: KTime, F: genDay(r)}
	case KBin:
		return nBin(genBytes(r))
	case KExt:
		t := byte(r.IntN(256))
		if t == 0xff {
			t = 0xfe
		}
		return nExt(t, genBytes(r))
	}
	return &N{K: k}
}

var intEdges = []int64{0, 1, -1, 127, 128, -31, -32, -33, -127, -128, -129, 255, 256, 32767, 32768, -32768, -32769, 65535, 65536,
	math.MaxInt32, math.MaxInt32 + 1, math.MinInt32, math.MinInt32 - 1, math.MaxUint32, math.MaxUint32 + 1,
	1 << 53, 1<<53 + 1, 1<<53 - 1, -(1 << 53), -(1<<53 + 1), math.MaxInt64, math.MaxInt64 - 1, math.MinInt64, math.MinInt64 + 1,
	999999999999999999, 1000000000000000000, -999999999999999999, -1000000000000000000, 123456789012345678, 9007199254740993}

func genInt(r *rand.Rand) int64 {
	switch r.IntN(16) {
	case 0: // next to the midpoint of two float32 values
		e := uint(r.IntN(39) + 1)
		v := (int64(1<<23|r.IntN(1<<23))<<1|1)<<(e-1) + int64(r.IntN(3)) - 1
		if r.IntN(2) == 0 {
			return -v
		}
		return v
	case 1: // next to the midpoint of two float64 values
		e := uint(r.IntN(10) + 1)
		v := (int64(1<<52|r.Int64N(1<<52))<<1|1)<<(e-1) + int64(r.IntN(3)) - 1
		if r.IntN(2) == 0 {
			return -v
		}
		return v
	}
	switch r.IntN(4) {
	case 0:
		return intEdges[r.IntN(len(intEdges))]
	case 1:
		return int64(r.IntN(200)) - 100
	default:
		v := int64(r.Uint64() >> (uint(r.IntN(63)) + 1))
		if r.IntN(2) == 0 {
			return -v
		}
		return v
	}
}

var floatEdges = []float64{0, 0.1, 0.5, 1.5, -1.5, 3.141592653589793, 1e21, 1e22, 1e-7, 1e-5, 123456789.125, -0.0001, 1e300, -1e300, 5e-324,
	2.2250738585072014e-308, math.MaxFloat64, -math.MaxFloat64, 1 << 53, 1<<53 + 2, 0.30000000000000004, 1e15, 1e16, 1e17, 1e18, 9223372036854775807,
	9223372036854775808, 1e19, 1e20, 100, 4294967296, 0.1 + 0.7, 2.0000000000000004, 1.0000000000000002, 17.99, 4.35, 1.005}

func genFloat(r *rand.Rand, nans bool) float64 {
	switch r.IntN(6) {
	case 4: // as close to an integer as can be
		f := math.Trunc(r.NormFloat64() * math.Pow(10, float64(r.IntN(18))))
		return math.Nextafter(f, []float64{math.MaxFloat64, -math.MaxFloat64, 0}[r.IntN(3)])
	case 0:
		f := floatEdges[r.IntN(len(floatEdges))]
		if r.IntN(2) == 0 && f != 0 {
			f = -f
		}
		return f
	case 1:
		return float64(r.IntN(2000000)-1000000) / 100
	case 2:
		return r.NormFloat64() * math.Pow(10, float64(r.IntN(40)-20))
	case 3:
		if nans && r.IntN(3) == 0 {
			return []float64{math.NaN(), math.Inf(1), math.Inf(-1), math.Copysign(0, -1)}[r.IntN(4)]
		}
		return r.Float64()
	}
	for {
		f := math.Float64frombits(r.Uint64())
		if !math.IsNaN(f) && !math.IsInf(f, 0) {
			return f
		}
	}
}

func genFloat32(r *rand.Rand, nans bool) float32 {
	switch r.IntN(5) {
	case 3:
		f := float32(math.Trunc(r.NormFloat64() * math.Pow(10, float64(r.IntN(8)))))
		return math.Nextafter32(f, []float32{math.MaxFloat32, -math.MaxFloat32, 0}[r.IntN(3)])
	case 0:
		return []float32{0, 0.1, 1.5, -2.25, math.MaxFloat32, math.SmallestNonzeroFloat32, 16777216, 3.4e38, 1e-30, -0.3}[r.IntN(10)]
	case 1:
		return float32(r.NormFloat64())
	case 2:
		if nans && r.IntN(3) == 0 {
			return []float32{float32(math.NaN()), float32(math.Inf(1)), float32(math.Inf(-1))}[r.IntN(3)]
		}
	}
	for {
		f := math.Float32frombits(r.Uint32())
		if f == f && !math.IsInf(float64(f), 0) {
			return f
		}
	}
}

// genDay gives a stored date-time (days since 1899-12-30) between 1971 and 2190.
func genDay(r *rand.Rand) float64 {
	d := float64(25569 + 366 + r.IntN(79000))
	return d + float64(r.IntN(86400))/86400
}

func genBytes(r *rand.Rand) []byte {
	n := 0
	if r.IntN(150) == 0 {
		return randBytes(r, longSize(r))
	}
	switch r.IntN(8) {
	case 0:
		n = 0
	case 1:
		n = []int{1, 2, 3, 4, 5, 7, 8, 9, 11, 12, 13, 15, 16, 17}[r.IntN(14)]
	case 2:
		n = []int{31, 32, 33, 254, 255, 256, 257}[r.IntN(7)]
	default:
		n = r.IntN(40)
		if r.IntN(6) == 0 {
			n = r.IntN(300)
		}
	}
	b := randBytes(r, n)
	switch r.IntN(24) { // payloads that look like something else
	case 0: // starts with the length of the rest
		if n >= 4 {
			binary.LittleEndian.PutUint32(b, uint32(n-4))
		}
	case 1:
		if n >= 4 {
			binary.BigEndian.PutUint32(b, uint32(n-4))
		}
	case 2: // starts with its own length, as a document does
		if n >= 5 {
			binary.LittleEndian.PutUint32(b, uint32(n))
			b[n-1] = 0
		}
	case 3:
		for i := range b {
			b[i] = 0
		}
	case 4:
		for i := range b {
			b[i] = 0xff
		}
	case 5:
		for i := range b {
			b[i] = "0123456789abcdef"[b[i]&15]
		}
	}
	return b
}

func randBytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.Uint32())
	}
	return b
}

var runePool = []rune{'a', 'b', 'z', 'A', 'Z', '0', '9', ' ', '/', '\\', '"', '\'', '\n', '\r', '\t', '\b', '\f', 0, 1, 0x1f, 0x7f, 0x80, 0xa0, 0xe9,
	'%', '&', '<', '>', '*', '-', '#', ':', ',', '{', '}', '[', ']', 'u', 'n', 't', 'x', 0x2028, 0x2029, 0x4e2d, 0x6587, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0xfeff,
	0x1f600, 0x10000, 0x10ffff, 0x20ac, 0x7ff, 0x800}

var literalStrings = []string{"", " ", "true", "false", "null", "nan", "inf", "NaN", "True", "TRUE", "tRuE", "False", "0", "-1", "12345", "1.5", "1e5", "-0", "1h30m", "9223372036854775807", "-12.5e-3", "1900-01-01", "{}", "[]", "{\"a\":1}", "\\", "\\\\", "\"", "\\\"", "a\\", "\\u0041",
	"\\n", "a\\nb", "\\u", "\\u12", "\\ud83d\\ude00", "%41", "%e4%b8%ad", "%", "%%", "%4", "100%", "%zz", "a%20b", "/", "\\/", "</script>", "a/b/c", "key with space", "中文", "é", "😀", "😀😀", "a😀b", "\u0000", "\u0001\u001f",
	"line1\nline2", "tab\there", "\r\n", "2024-01-02 03:04:05", "2024-01-02T03:04:05Z", "Date", "Date()", "/Date", "Bin(00)", "$oid", "<<", "&a", "*a", "- x", "a: b", "# c", "\u2028\u2029", "\uFEFF", "\u007f"}

// plainDate tells whether a text may be read as the Date(n) dialect.
func dateDialect(s string) bool { return strings.Contains(s, "Date(") }

var longSizes = []int{60, 64, 65, 100, 128, 129, 200, 300, 500, 512, 513, 1000, 1024, 1025, 2047, 2048, 4095, 4096, 4097, 5000, 8192, 10000, 16384, 32767, 32768, 65535, 65536, 70000}

func longSize(r *rand.Rand) int {
	return longSizes[min(r.IntN(len(longSizes)), r.IntN(len(longSizes)))] + r.IntN(3)
}

// longString is mostly plain with some special characters.
func longString(r *rand.Rand) string {
	n := longSize(r)
	var sb strings.Builder
	dense := []int{2, 10, 100, 1 << 30}[r.IntN(4)]
	for sb.Len() < n {
		if r.IntN(dense) == 0 {
			sb.WriteRune(runePool[r.IntN(len(runePool))])
		} else {
			sb.WriteByte(asciiPool[r.IntN(len(asciiPool))])
		}
	}
	return sb.String()
}

func genString(r *rand.Rand) string {
	if r.IntN(150) == 0 {
		return longString(r)
	}
	switch r.IntN(10) {
	case 0:
		return literalStrings[r.IntN(len(literalStrings))]
	case 1, 2, 3:
		return genASCII(r, r.IntN(12))
	case 4, 5, 6, 7:
		n := r.IntN(14)
		if r.IntN(30) == 0 {
			n = r.IntN(140)
		}
		var sb strings.Builder
		for i := 0; i < n; i++ {
			sb.WriteRune(runePool[r.IntN(len(runePool))])
		}
		return sb.String()
	case 8:
		n := []int{15, 16, 31, 32, 33, 63, 255, 256, 257}[r.IntN(9)]
		if r.IntN(2) == 0 {
			n = r.IntN(160)
		}
		return genASCII(r, n)
	}
	var sb strings.Builder
	for i := r.IntN(8); i > 0; i-- {
		sb.WriteRune(genRune(r))
	}
	return sb.String()
}

func genRune(r *rand.Rand) rune {
	for {
		var x rune
		switch r.IntN(4) {
		case 0:
			x = rune(r.IntN(0x80))
		case 1:
			x = rune(r.IntN(0x800))
		case 2:
			x = rune(r.IntN(0x10000))
		default:
			x = rune(r.IntN(0x110000))
		}
		if utf8.ValidRune(x) {
			return x
		}
	}
}

const asciiPool = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-."

func genASCII(r *rand.Rand, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = asciiPool[r.IntN(len(asciiPool))]
	}
	return string(b)
}

func genKey(r *rand.Rand) string {
	switch r.IntN(6) {
	case 0:
		return genString(r)
	case 1:
		return []string{"a", "b", "c", "d", "e"}[r.IntN(5)]
	case 2:
		return strconv.Itoa(r.IntN(20))
	}
	if r.IntN(40) == 0 {
		return genASCII(r, 1+r.IntN(160))
	}
	return genASCII(r, 1+r.IntN(10))
}

func genPlainKey(r *rand.Rand) string { return genASCII(r, 1+r.IntN(8)) }

// ---------------------------------------------------------------------------------------------
// building library values from the model, through varied API routes

var kindType = map[Kind]dx.ValueType{KObj: dx.VT_Object, KArr: dx.VT_Array, KStr: dx.VT_String, KInt: dx.VT_Int, KFlt: dx.VT_Float, KDbl: dx.VT_Double,
	KTime: dx.VT_DateTime, KBin: dx.VT_Binary, KExt: dx.VT_ExBinary, KNull: dx.VT_NULL, KTrue: dx.VT_True, KFalse: dx.VT_False, KNaN: dx.VT_NAN, KInf: dx.VT_INF}

// fill makes v (a writable node) hold n.
func fill(r *rand.Rand, v *dx.DxValue, n *N) {
	if n.K >= KStr && r.IntN(8) == 0 && !v.ReadOnly() {
		scuff(r, v)
	}
	switch n.K {
	case KObj:
		if v.DataType != dx.VT_Object || v.Count() != 0 {
			v.Reset(dx.VT_Object)
		}
		for i, k := range n.Keys {
			setKey(r, v, k, n.C[i])
		}
	case KArr:
		if v.DataType != dx.VT_Array || v.Count() != 0 {
			v.Reset(dx.VT_Array)
		}
		for i := range n.C {
			setIdx(r, v, i, n.C[i])
		}
	case KStr:
		v.SetString(n.S)
	case KInt:
		v.SetInt(n.I)
		v.ExtType = n.Ext
	case KFlt:
		v.SetFloat(float32(n.F))
	case KDbl:
		if v.DataType == dx.VT_DateTime {
			v.Reset(dx.VT_Double)
		}
		v.SetDouble(n.F)
	case KTime:
		v.Reset(dx.VT_DateTime)
		v.SetDouble(n.F)
	case KBin:
		v.Reset(dx.VT_Binary)
		v.ExtType = n.Ext
		v.SetBinary(append([]byte(nil), n.B...), r.IntN(2) == 0)
	case KExt:
		v.Reset(dx.VT_ExBinary)
		v.SetExtType(n.X)
		v.SetBinary(n.B, true)
		v.ExtType = n.Ext
	case KTrue:
		v.SetBool(true)
	case KFalse:
		v.SetBool(false)
	default:
		v.Reset(kindType[n.K])
	}
}

// scuff leaves some other value in a node before it gets the one that counts.
func scuff(r *rand.Rand, v *dx.DxValue) {
	for k := 1 + r.IntN(2); k > 0; k-- {
		switch r.IntN(9) {
		case 0:
			v.SetInt(genInt(r))
		case 1:
			v.SetDouble(genFloat(r, true))
		case 2:
			v.SetFloat(genFloat32(r, true))
		case 3:
			v.SetBool(r.IntN(2) == 0)
		case 4:
			v.SetString(genString(r))
		case 5:
			v.SetBinary(genBytes(r), r.IntN(2) == 0)
		case 6:
			v.SetTime(time.Unix(r.Int64N(4e9), 0))
		case 7:
			v.SetKeyString("left", "over")
		default:
			v.SetIndexInt(-1, 7)
		}
	}
}

// fresh gives a new detached value holding n.
func fresh(r *rand.Rand, n *N, cached bool) *dx.DxValue {
	var v *dx.DxValue
	switch n.K {
	case KObj:
		v = dx.NewObject(cached)
	case KArr:
		v = dx.NewArray(cached)
	case KNull, KTrue, KFalse, KNaN, KInf:
		if r.IntN(2) == 0 {
			return dx.NewValue(kindType[n.K])
		}
		v = &dx.DxValue{}
	default:
		if cached {
			v = dx.NewCacheValue(kindType[n.K])
		} else {
			v = dx.NewValue(kindType[n.K])
		}
	}
	fill(r, v, n)
	return v
}

func setKey(r *rand.Rand, v *dx.DxValue, k string, n *N) {
	if n.Ext != 0 {
		fill(r, v.SetKey(k, kindType[n.K]), n)
		return
	}
	switch r.IntN(5) {
	case 0: // attach a detached value
		v.SetKeyValue(k, fresh(r, n, false))
		return
	case 1: // by type, then fill
		fill(r, v.SetKeyCached(k, kindType[n.K], v.ValueCache()), n)
		return
	case 2:
		if g, ok := goScalar(n); ok {
			v.SetKeyvalue(k, g, v.ValueCache())
			return
		}
	}
	switch n.K {
	case KStr:
		v.SetKeyString(k, n.S)
	case KInt:
		v.SetKeyInt(k, n.I)
	case KFlt:
		v.SetKeyFloat(k, float32(n.F))
	case KDbl:
		v.SetKeyDouble(k, n.F)
	case KTrue, KFalse:
		v.SetKeyBool(k, n.K == KTrue)
	case KNull, KNaN, KInf:
		v.SetKeyValue(k, dx.NewValue(kindType[n.K]))
	default:
		fill(r, v.SetKey(k, kindType[n.K]), n)
	}
}

func setIdx(r *rand.Rand, v *dx.DxValue, i int, n *N) {
	if n.Ext != 0 {
		fill(r, v.SetIndex(i, kindType[n.K]), n)
		return
	}
	switch r.IntN(6) {
	case 0:
		v.SetIndexValue(i, fresh(r, n, false))
		return
	case 1:
		fill(r, v.SetIndexCached(i, kindType[n.K], v.ValueCache()), n)
		return
	case 2:
		if g, ok := goScalar(n); ok {
			v.SetIndexvalue(i, g, v.ValueCache())
			return
		}
	case 3:
		fill(r, v.Append(kindType[n.K]), n)
		return
	}
	switch n.K {
	case KStr:
		v.SetIndexString(i, n.S)
	case KInt:
		v.SetIndexInt(i, n.I)
	case KFlt:
		v.SetIndexFloat(i, float32(n.F))
	case KDbl:
		v.SetIndexDouble(i, n.F)
	case KTrue, KFalse:
		v.SetIndexBool(i, n.K == KTrue)
	case KNull, KNaN, KInf:
		v.SetIndexValue(i, dx.NewValue(kindType[n.K]))
	default:
		fill(r, v.SetIndex(i, kindType[n.K]), n)
	}
}

func goScalar(n *N) (interface{}, bool) {
	switch n.K {
	case KStr:
		return n.S, true
	case KInt:
		return n.I, true
	case KFlt:
		return float32(n.F), true
	case KDbl:
		return n.F, true
	case KTrue:
		return true, true
	case KFalse:
		return false, true
	case KBin:
		return n.B, true
	case KNull:
		return nil, true
	}
	return nil, false
}

// goTree gives a Go value for a tree whose objects have at most one key (Go maps have no order).
func goTree(r *rand.Rand, n *N) (interface{}, bool) {
	switch n.K {
	case KObj:
		if len(n.C) > 1 {
			return nil, false
		}
		strs, m := map[string]string{}, map[string]interface{}{}
		for i, x := range n.C {
			if x.K == KStr {
				strs[n.Keys[i]] = x.S
			}
			g, ok := goTree(r, x)
			if !ok {
				return nil, false
			}
			m[n.Keys[i]] = g
		}
		if len(strs) == len(n.C) && r.IntN(2) == 0 {
			return strs, true
		}
		if r.IntN(3) == 0 {
			return &m, true
		}
		return m, true
	case KArr:
		var strs []string
		a := []interface{}{}
		for _, x := range n.C {
			if x.K == KStr {
				strs = append(strs, x.S)
			}
			g, ok := goTree(r, x)
			if !ok {
				return nil, false
			}
			a = append(a, g)
		}
		if len(strs) == len(n.C) && r.IntN(2) == 0 {
			return strs, true
		}
		if r.IntN(3) == 0 {
			return &a, true
		}
		return a, true
	}
	return goScalar(n)
}

// nodesOf collects the identity of every writable node of a tree.
func nodesOf(v *dx.DxValue, into map[*dx.DxValue]string, path string) (dup string) {
	if v == nil || v.ReadOnly() {
		return ""
	}
	if p, ok := into[v]; ok {
		return fmt.Sprintf("node %s is also node %s", path, p)
	}
	into[v] = path
	if v.DataType == dx.VT_Object || v.DataType == dx.VT_Array {
		for i := 0; i < v.Count(); i++ {
			k, c := v.Items(i)
			if c == nil {
				continue
			}
			if d := nodesOf(c, into, path+"/"+clip(k, 12)+strconv.Itoa(i)); d != "" {
				return d
			}
		}
	}
	return ""
}

// dayToTime converts a stored day number to a time in the local zone the way it was defined: days since 1899-12-30 local.
func dayToTime(d float64) time.Time {
	base := time.Date(1899, 12, 30, 0, 0, 0, 0, time.Local)
	return base.Add(time.Duration(math.Round(d*86400e3)) * time.Millisecond)
}

func dxTime(d float64) DxCommonLib.TDateTime { return DxCommonLib.TDateTime(d) }
