package main

import (
	"bytes"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"

	dx "github.com/suiyunonghen/dxsvalue"
)

// ---------------------------------------------------------------------------------------------
// C21: the shared constants

var constKinds = []Kind{KTrue, KFalse, KNull, KNaN, KInf}

func rawBytes(v *dx.DxValue) string {
	return string(unsafe.Slice((*byte)(unsafe.Pointer(v)), unsafe.Sizeof(*v)))
}

// constants gives the process-wide constants and the raw memory they have.
func constants() (vs []*dx.DxValue, mem []string) {
	for _, k := range constKinds {
		v := dx.NewValue(kindType[k])
		vs = append(vs, v)
		mem = append(mem, rawBytes(v))
	}
	return
}

var constMem []string // memory of the constants when the process started

func init() {
	if os.Getenv("VMON_COLD") == "" {
		_, constMem = constants()
	}
}

func checkConstants(c *C, after string) {
	vs, mem := constants()
	for i, k := range constKinds {
		if mem[i] != constMem[i] {
			c.Failf("after %s: the memory of constant %s changed", after, k)
		}
		v := vs[i]
		if !v.ReadOnly() || v.DataType != kindType[k] || v.Count() != 0 || v.Bool() != (k == KTrue) || v.Binary() != nil || v.ExtType != 0 || v.ValueCache() != nil {
			c.Failf("after %s: constant %s shows something else", after, k)
		}
		js := string(v.ToJson(false, dx.JSE_OnlyAnsiChar, false, nil))
		if w := map[Kind]string{KTrue: "true", KFalse: "false", KNull: "null", KNaN: "null", KInf: "null"}[k]; js != w {
			c.Failf("after %s: constant %s encodes as %s", after, k, js)
		}
	}
	c.Ev("constants inspected", int64(len(vs)))
}

// obtain gives a read-only node by some route (with its parent, when it has one).
func obtain(r *rand.Rand, k Kind) (v, parent *dx.DxValue, how string) {
	text := map[Kind]string{KTrue: "true", KFalse: "false", KNull: "null"}[k]
	switch r.IntN(9) {
	case 0:
		return dx.NewValue(kindType[k]), nil, "NewValue"
	case 1:
		return dx.NewCacheValue(kindType[k]), nil, "NewCacheValue"
	case 2:
		if text != "" {
			p, err := dx.NewValueFromJson([]byte(`{"x":[`+text+`,1],"y":`+text+`}`), r.IntN(2) == 0, r.IntN(2) == 0)
			if err == nil {
				if r.IntN(2) == 0 {
					return p.ValueByName("y"), p, "json entry"
				}
				return p.ValueByPath("x", "0"), p.ValueByName("x"), "json element"
			}
		}
	case 3:
		if text != "" {
			if v, err := dx.NewValueFromJson([]byte(text), r.IntN(2) == 0, false); err == nil {
				return v, nil, "json root"
			}
		}
	case 4:
		if text != "" {
			b := encMP(r, nObj().add("y", zero(k)), true, nil)
			if p, err := dx.NewValueFromMsgPack(b, r.IntN(2) == 0, false); err == nil {
				return p.ValueByName("y"), p, "msgpack entry"
			}
		}
	case 5:
		p := dx.NewObject(r.IntN(2) == 0)
		p.SetKeyValue("y", dx.NewValue(kindType[k]))
		return p.ValueByName("y"), p, "attached"
	case 6:
		p := dx.NewArray(r.IntN(2) == 0)
		if k == KTrue || k == KFalse {
			p.SetIndexBool(0, k == KTrue)
		} else {
			p.SetIndexValue(0, dx.NewValue(kindType[k]))
		}
		return p.ValueByIndex(0), p, "array setter"
	case 7:
		return dx.NewValue(kindType[k]).Clone(r.IntN(2) == 0), nil, "clone"
	case 8:
		p := dx.NewObject(r.IntN(2) == 0)
		if k == KTrue || k == KFalse {
			p.SetKeyvalue("y", k == KTrue, nil)
		} else {
			p.SetKeyvalue("y", nil, nil)
		}
		return p.ValueByName("y"), p, "Go value setter"
	}
	return dx.NewValue(kindType[k]), nil, "NewValue"
}

// attack applies one random API call to a node that should be read-only.
func attack(r *rand.Rand, v *dx.DxValue) string {
	other := func() *dx.DxValue {
		return fresh(r, genTree(r, treeOpt{Root: -1, Kinds: allKinds, Budget: 5}), r.IntN(2) == 0)
	}
	ops := []struct {
		name string
		f    func()
	}{
		{"Clear", func() { v.Clear() }},
		{"Reset", func() { v.Reset(dx.ValueType(r.IntN(16))) }},
		{"SetInt", func() { v.SetInt(genInt(r)) }},
		{"SetString", func() { v.SetString("text") }},
		{"SetDouble", func() { v.SetDouble(1.5) }},
		{"SetFloat", func() { v.SetFloat(1.5) }},
		{"SetBool", func() { v.SetBool(r.IntN(2) == 0) }},
		{"SetTime", func() { v.SetTime(time.Unix(1e9, 0)) }},
		{"SetDelphiTime", func() { v.SetDelphiTime(40000) }},
		{"SetBinary", func() { v.SetBinary([]byte("bytes"), r.IntN(2) == 0) }},
		{"SetExtType", func() { v.SetExtType(7) }},
		{"SetBinaryFromFile", func() { v.SetBinaryFromFile(os.Args[0]) }},
		{"SetValue", func() {
			v.SetValue([]interface{}{1, "x", nil, true, 2.5, []byte("b"), map[string]interface{}{"a": 1}, []int{1}, time.Unix(1e9, 0), other(), float32(1), struct{ A int }{1}}[r.IntN(12)])
		}},
		{"SetKeyvalue", func() { v.SetKeyvalue("k", []interface{}{1, "x", nil, true, []byte("b")}[r.IntN(5)], nil) }},
		{"SetIndexvalue", func() { v.SetIndexvalue(r.IntN(3)-1, []interface{}{1, "x", nil, true, []byte("b")}[r.IntN(5)], nil) }},
		{"SetKey", func() {
			if x := v.SetKey("k", dx.ValueType(r.IntN(14))); !x.ReadOnly() {
				x.SetInt(1)
			}
		}},
		{"SetKeyCached", func() { v.SetKeyCached("k", dx.VT_Object, nil).SetKeyInt("a", 1) }},
		{"SetKeyString", func() { v.SetKeyString("k", "x") }},
		{"SetKeyInt", func() { v.SetKeyInt("0", 1) }},
		{"SetKeyDouble", func() { v.SetKeyDouble("k", 1.5) }},
		{"SetKeyFloat", func() { v.SetKeyFloat("k", 1.5) }},
		{"SetKeyBool", func() { v.SetKeyBool("k", true) }},
		{"SetKeyTime", func() { v.SetKeyTime("k", time.Unix(1e9, 0)) }},
		{"SetKeyValue", func() { v.SetKeyValue("k", other()) }},
		{"SetIndex", func() {
			if x := v.SetIndex(r.IntN(3)-1, dx.ValueType(r.IntN(14))); !x.ReadOnly() {
				x.SetInt(1)
			}
		}},
		{"SetIndexValue", func() { v.SetIndexValue(0, other()) }},
		{"SetIndexString", func() { v.SetIndexString(0, "x") }},
		{"SetIndexInt", func() { v.SetIndexInt(0, 5) }},
		{"SetIndexDouble", func() { v.SetIndexDouble(0, 5) }},
		{"SetIndexFloat", func() { v.SetIndexFloat(0, 5) }},
		{"SetIndexBool", func() { v.SetIndexBool(0, true) }},
		{"SetIndexTime", func() { v.SetIndexTime(0, time.Unix(1e9, 0)) }},
		{"InsertValue", func() {
			if x := v.InsertValue(0, dx.VT_Object); !x.ReadOnly() {
				x.SetKeyInt("a", 1)
			}
		}},
		{"Append", func() { v.Append(dx.VT_String) }},
		{"CopyFrom", func() { v.CopyFrom(other(), nil) }},
		{"AddFrom", func() { v.AddFrom(other(), nil) }},
		{"AddFrom constant", func() { v.AddFrom(dx.NewValue(v.DataType), nil) }},
		{"MergeWith", func() { v.MergeWith(other(), nil) }},
		{"RemoveKey", func() { v.RemoveKey("k") }},
		{"ExtractValue", func() { v.ExtractValue("k") }},
		{"RemoveIndex", func() { v.RemoveIndex(0) }},
		{"ForcePath", func() {
			if x := v.ForcePath(dx.VT_Object, "a", "b"); x != nil && !x.ReadOnly() {
				x.SetKeyInt("c", 1)
			}
		}},
		{"LoadFromJson", func() { v.LoadFromJson([]byte(`{"a":1}`), r.IntN(2) == 0) }},
		{"LoadFromMsgPack", func() { v.LoadFromMsgPack([]byte{0x81, 0xa1, 'a', 1}, r.IntN(2) == 0) }},
		{"LoadFromBson", func() { v.LoadFromBson(encBSON(r, nObj().add("a", nInt(1)), nil), r.IntN(2) == 0) }},
		{"LoadFromYaml", func() { v.LoadFromYaml([]byte("a: 1\n")) }},
		{"empty load", func() { v.LoadFromJson(nil, false); v.LoadFromMsgPack(nil, false); v.LoadFromYaml(nil) }},
		{"bad load", func() { v.LoadFromJson([]byte(`{"a":`), false); v.LoadFromMsgPack([]byte{0xc1}, false) }},
		{"Unmarshal", func() { dx.Unmarshal([]byte(`[1]`), v) }},
		{"FreeValue", func() { dx.FreeValue(v) }},
		{"encode", func() {
			v.ToJson(true, dx.JSE_AllEscape, true, nil)
			v.ToMsgPack(nil)
			v.ToBson(nil)
			dx.Marshal(v)
		}},
		{"read", func() {
			_, _, _, _, _ = v.Int(), v.Double(), v.Float(), v.Bool(), v.String()
			v.GoTime()
			v.DateTime()
			v.Duration(1)
			v.Visit(func(string, *dx.DxValue) bool { return true })
			v.Items(0)
			v.KeyNameByIndex(0)
			v.ValueByName("k")
		}},
		{"ToStdValue", func() {
			var m map[string]interface{}
			var a []int
			var s string
			v.ToStdValue(&m, false)
			v.ToStdValue(&a, true)
			v.ToStdValue(&s, false)
		}},
		{"as source", func() {
			x := other()
			if !x.ReadOnly() {
				x.CopyFrom(v, nil)
				x.SetInt(1)
			}
			y := v.Clone(r.IntN(2) == 0)
			_ = y.Equal(v)
		}},
		{"as merge source", func() {
			a, b := dx.NewObject(false), dx.NewObject(false)
			a.SetKeyValue("k", v)
			b.SetKeyValue("k", v)
			b.SetKeyValue("l", v)
			a.MergeWith(b, nil)
			a.SetKeyInt("l", 4)
			a.ForcePath(dx.VT_Int, "k", "0").SetInt(1)
		}},
	}
	op := ops[r.IntN(len(ops))]
	op.f()
	return op.name
}

// ---------------------------------------------------------------------------------------------
// C22: buffers

func encodersOf(n *N) map[string]func(v *dx.DxValue, dst []byte) []byte {
	m := map[string]func(v *dx.DxValue, dst []byte) []byte{
		"json":      func(v *dx.DxValue, dst []byte) []byte { return dx.Value2Json(v, dx.JSE_OnlyAnsiChar, false, dst) },
		"json esc":  func(v *dx.DxValue, dst []byte) []byte { return dx.Value2Json(v, dx.JSE_AllEscape, true, dst) },
		"format":    func(v *dx.DxValue, dst []byte) []byte { return dx.Value2FormatJson(v, dx.JSE_AllEscape, false, dst) },
		"ToJson":    func(v *dx.DxValue, dst []byte) []byte { return v.ToJson(true, dx.JSE_OnlyAnsiChar, true, dst) },
		"msgpack":   func(v *dx.DxValue, dst []byte) []byte { return dx.Value2MsgPack(v, dst) },
		"ToMsgPack": func(v *dx.DxValue, dst []byte) []byte { return v.ToMsgPack(dst) },
	}
	bson := n.K == KObj
	n.walk(func(x *N) {
		bson = bson && x.K != KExt
		for _, k := range x.Keys {
			bson = bson && strings.IndexByte(k, 0) < 0
		}
	})
	if bson {
		m["bson"] = func(v *dx.DxValue, dst []byte) []byte { o, _ := dx.Value2Bson(v, dst); return o }
		m["ToBson"] = func(v *dx.DxValue, dst []byte) []byte { return v.ToBson(dst) }
	}
	return m
}

func docOf(r *rand.Rand, f Format) ([]byte, *N, diffOpt) {
	switch f {
	case FJSON:
		n := genTree(r, treeOpt{Root: []int{0, 0, 1, -1}[r.IntN(4)], Str: jsonStr})
		b := writeJSON(r, n, genStyle(r))
		if w, err := stdJSON(b); err == nil {
			n = w
		}
		return b, n, diffOpt{}
	case FMP:
		n := genTree(r, treeOpt{Root: []int{0, 0, 1, -1}[r.IntN(4)], Kinds: []Kind{KStr, KInt, KDbl, KFlt, KBin, KBin, KExt, KNull, KTrue, KFalse}})
		if r.IntN(2) == 0 {
			n = genTree(r, treeOpt{Root: -1, Kinds: []Kind{KStr, KInt, KDbl, KFlt, KBin, KExt, KTime, KNull, KTrue, KFalse}})
			setTimes(r, n, time.Millisecond)
			return encMP(r, n, false, nil), n, diffOpt{TimeTol: 0.01 * msDays}
		}
		return encMP(r, n, r.IntN(2) == 0, nil), n, diffOpt{}
	case FBSON:
		if r.IntN(2) == 0 { // object ids, decimals, timestamps, subtypes, date-times
			n := genBSONTree(r, false)
			return encBSON(r, n, nil), fltToDbl(n), diffOpt{TimeTol: 0.51 * msDays, NaNConst: true}
		}
		n := genTree(r, treeOpt{Root: 0, Kinds: []Kind{KStr, KInt, KDbl, KBin, KBin, KNull, KTrue, KFalse}, Key: bsonKey})
		return encBSON(r, n, nil), n, diffOpt{}
	}
	t, n, y := genYAML(r, true, 25, 4)
	return []byte(t), n, diffOpt{Unordered: y.merged}
}

func inputCase(c *C) {
	r := c.R
	f := Format(r.IntN(4))
	b, n, o := docOf(r, f)
	e := entriesOf[f][r.IntN(len(entriesOf[f]))]
	var log []string
	c.Describe(func() string {
		return fmt.Sprintf("%s %s %q\n%s", e.name, n.dump(), clip(string(b), 2000), strings.Join(log, "\n"))
	})
	c.NonTrivial(e.name, b)
	g := guard()
	defer g.writable()
	in := g.place(b) // read-only: any write faults
	v, err := e.dec(r, in)
	if err != nil {
		c.Failf("%s: valid document refused: %v", e.name, err)
	}
	revoked := false
	if !e.share && r.IntN(2) == 0 { // any later access to the input faults
		g.revoke()
		revoked = true
		c.Ev("inputs revoked", 1)
	}
	c.same(e.name, n, v, o)
	w := v.Clone(r.IntN(2) == 0)
	marked := false
	n.walk(func(x *N) { marked = marked || x.Ext != 0 || x.K == KTime })
	if !v.ReadOnly() && !marked {
		ed := newEditor(c, v, snap(v))
		for k := r.IntN(12); k > 0; k-- {
			log = append(log, ed.step())
			c.Ev("edits over a protected input", 1)
		}
	}
	for _, enc := range encodersOf(snap(v)) {
		enc(v, nil)
	}
	rewriteBinaries(c, v)
	c.same("a clone made before the edits", n, w, o)
	if r.IntN(2) == 0 {
		v.LoadFromJson([]byte(`{"x":[1,2,3]}`), false)
	}
	if !revoked {
		g.readOnly()
		if !bytes.Equal(in, b) {
			c.Failf("%s: the input buffer changed", e.name)
		}
		if !e.share { // scribble over the input
			v2, err := newFrom(f, in, e.cached, false)
			if err != nil {
				c.Failf("second decode: %v", err)
			}
			g.writable()
			for k := range in {
				in[k] ^= 0x5a
			}
			c.same("after scribbling over the input", n, v2, o)
			c.Ev("inputs scribbled", 1)
		}
	}
}

// rewriteBinaries gives the binaries of a decoded tree another extension type or other bytes; the
// input they may share is protected.
func rewriteBinaries(c *C, v *dx.DxValue) {
	r := c.R
	v.Visit(func(_ string, x *dx.DxValue) bool {
		switch x.Type() {
		case dx.VT_ExBinary, dx.VT_Binary:
			l := x.BinLen()
			for k := r.IntN(3); k >= 0; k-- {
				switch r.IntN(4) {
				case 0, 1:
					x.SetExtType(byte(1 + r.IntN(100)))
				case 2:
					x.SetBinary(randBytes(r, r.IntN(l+1)), r.IntN(2) == 0)
				default:
					x.SetBinary(randBytes(r, l), true)
				}
				c.Ev("binaries rewritten over a protected input", 1)
			}
		case dx.VT_Object, dx.VT_Array:
			rewriteBinaries(c, x)
		}
		return true
	})
}

func outputCase(c *C) {
	r := c.R
	json := r.IntN(2) == 0
	op := treeOpt{Root: []int{0, 0, 0, 1, -1}[r.IntN(5)], Kinds: allKinds}
	if json {
		op.Kinds, op.Str = []Kind{KStr, KInt, KNull, KTrue, KFalse}, jsonStr
	}
	if r.IntN(2) == 0 {
		op.Key = bsonKey
		if !json {
			op.Kinds = []Kind{KStr, KInt, KDbl, KFlt, KBin, KTime, KNull, KTrue, KFalse}
		}
	}
	n := genTree(r, op)
	v, origin := made(r, n, json)
	plen := r.IntN(40)
	switch r.IntN(8) {
	case 0, 1:
		plen = r.IntN(300)
	case 2:
		plen = r.IntN(6000)
	}
	extra := []int{0, 0, 1, 4, 16, 100, 5000}[r.IntN(7)]
	c.Describe(func() string { return fmt.Sprintf("%s prefix %d spare %d %s", origin, plen, extra, n.dump()) })
	c.NonTrivial(n.dump(), plen, extra)
	prefix := randBytes(r, plen)
	run := func(name string, enc func(v *dx.DxValue, dst []byte) []byte) []byte {
		big := make([]byte, plen+extra+64)
		for i := range big {
			big[i] = 0xEE
		}
		copy(big, prefix)
		out := enc(v, big[:plen:plen+extra])
		if !bytes.HasPrefix(out, prefix) {
			c.Failf("%s: the bytes before the encoding changed", name)
		}
		if !bytes.Equal(big[:plen], prefix) {
			c.Failf("%s: the destination's own bytes changed", name)
		}
		for _, x := range big[plen+extra:] {
			if x != 0xEE {
				c.Failf("%s: bytes beyond the destination's capacity changed", name)
			}
		}
		c.Ev("encodings into a destination", 1)
		return out[plen:]
	}
	encs := encodersOf(n)
	for name, enc := range encs { // before anything was read: judged by what it denotes
		out := run(name, enc)
		if strings.Contains(strings.ToLower(name), "json") || name == "format" {
			if _, err := stdJSON(out); err != nil {
				c.Failf("%s into a destination is not JSON: %v: %q", name, err, clip(string(out), 300))
			}
		}
	}
	c.same("the value after encoding", n, v, diffOpt{TimeTol: 0.01 * msDays})
	for name, enc := range encs {
		base := append([]byte(nil), enc(v, nil)...)
		if out := run(name, enc); !bytes.Equal(out, base) {
			c.Failf("%s: the encoding differs with a destination of %d bytes (%d spare): %q / %q", name, plen, extra, clip(string(out), 300), clip(string(base), 300))
		}
		if out := run(name, enc); !bytes.Equal(out, base) {
			c.Failf("%s: the second encoding differs", name)
		}
	}
}

func binaryCase(c *C) {
	r := c.R
	g := guard()
	defer g.writable()
	b := genBytes(r)
	ext := r.IntN(2) == 0
	v := dx.NewObject(r.IntN(2) == 0)
	x := v.SetKey("b", dx.VT_Binary)
	want := nBin(b)
	if ext {
		x.Reset(dx.VT_ExBinary)
		x.SetExtType(9)
		want = nExt(9, b)
	}
	clone := r.IntN(2) == 0
	in := g.place(b)
	c.Describe(func() string { return fmt.Sprintf("clone=%v ext=%v %x", clone, ext, b) })
	c.NonTrivial(b, clone, ext)
	x.SetBinary(in, clone)
	c.same("binary", nObj().add("b", want), v, diffOpt{})
	if clone {
		if r.IntN(2) == 0 {
			g.revoke()
		} else {
			g.writable()
			for i := range in {
				in[i] ^= 0xff
			}
		}
		c.same("binary set by copy, after the caller changed the slice", nObj().add("b", want), v, diffOpt{})
	}
	// later operations on the value never write into the caller's slice
	switch r.IntN(6) {
	case 0:
		x.SetBinary(randBytes(r, len(b)), true)
	case 1:
		x.SetBinary(randBytes(r, len(b)/2), true)
	case 2:
		if ext {
			x.SetExtType(77)
		} else {
			x.Reset(dx.VT_Binary)
			x.SetBinary([]byte("zz"), true)
		}
	case 3:
		v.Clear()
	case 4:
		x.Reset(dx.VT_ExBinary)
		x.SetExtType(1)
		x.SetBinary(randBytes(r, 3), false)
	default:
		v.LoadFromMsgPack(encMP(r, nObj().add("b", nBin(randBytes(r, len(b)))), true, nil), r.IntN(2) == 0)
	}
	if !clone && !bytes.Equal(in, b) {
		c.Failf("the caller's slice changed")
	}
	c.Ev("binaries set", 1)
}

// ---------------------------------------------------------------------------------------------
// C23: reading changes nothing

type question struct {
	name string
	ask  func(v *dx.DxValue) string
}

func hashOf(b []byte) string {
	h := fnv.New64a()
	h.Write(b)
	return fmt.Sprintf("%d:%x", len(b), h.Sum64())
}

func jsonMeaning(b []byte) string {
	n, err := stdJSON(b)
	if err != nil {
		return "not JSON: " + err.Error() + " " + clip(string(b), 200)
	}
	return n.dump()
}

func shape(v *dx.DxValue) string {
	if v == nil {
		return "nil"
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "(%d", v.Count())
	if v.DataType == dx.VT_Object || v.DataType == dx.VT_Array {
		for i := 0; i < v.Count(); i++ {
			sb.WriteString(shape(v.ValueByIndex(i)))
		}
	}
	sb.WriteByte(')')
	return sb.String()
}

func at(v *dx.DxValue, idx []int) *dx.DxValue {
	for _, i := range idx {
		v = v.ValueByIndex(i)
	}
	return v
}

// goDump writes exported Go values with sorted keys, empty and nil slices alike.
func goDump(x interface{}) string {
	switch x := x.(type) {
	case map[string]interface{}:
		var ks []string
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		s := "{"
		for _, k := range ks {
			s += fmt.Sprintf("%q:%s,", k, goDump(x[k]))
		}
		return s + "}"
	case []interface{}:
		s := "["
		for _, y := range x {
			s += goDump(y) + ","
		}
		return s + "]"
	case []byte:
		return fmt.Sprintf("bytes(%x)", x)
	case time.Time:
		return fmt.Sprint("time ", x.UnixNano())
	}
	return fmt.Sprintf("%T(%#v)", x, x)
}

// variation changes the kind or content of some scalars, sometimes to equal ones.
func variation(r *rand.Rand, n *N) *N {
	o := n.clone()
	k := 1 + r.IntN(6)
	o.walk(func(x *N) {
		if r.IntN(k) > 0 {
			return
		}
		switch x.K {
		case KFlt:
			x.K = KDbl
		case KDbl:
			if f := float64(float32(x.F)); r.IntN(2) == 0 && f == x.F {
				x.K = KFlt
			}
		case KInt:
			if r.IntN(2) == 0 {
				*x = *nDbl(float64(x.I))
			} else {
				x.I++
			}
		case KStr:
			if r.IntN(3) == 0 {
				x.S = alter(r, x.S)
			}
		case KTrue, KFalse:
			if r.IntN(3) == 0 {
				*x = *nNull()
			}
		}
	})
	return o
}

func questions(r *rand.Rand, n *N) []question {
	var qs []question
	add := func(name string, f func(v *dx.DxValue) string) { qs = append(qs, question{name, f}) }
	add("shape", shape)
	add("snapshot", func(v *dx.DxValue) string { return snap(v).dump() })
	add("clone", func(v *dx.DxValue) string { return snap(v.Clone(false)).dump() })
	add("cached clone", func(v *dx.DxValue) string {
		w := v.Clone(true)
		s := snap(w).dump()
		if !w.ReadOnly() {
			dx.FreeValue(w)
		}
		return s
	})
	add("clone json", func(v *dx.DxValue) string {
		return jsonMeaning(v.Clone(false).ToJson(false, dx.JSE_OnlyAnsiChar, false, nil))
	})
	for name, enc := range encodersOf(n) {
		js := strings.Contains(strings.ToLower(name), "json") || name == "format"
		add(name, func(v *dx.DxValue) string {
			out := enc(v, nil)
			if js {
				return jsonMeaning(out)
			}
			return hashOf(out)
		})
	}
	add("Marshal", func(v *dx.DxValue) string { b, _ := dx.Marshal(v); return jsonMeaning(b) })
	other := variation(r, n)
	add("equal to a variation", func(v *dx.DxValue) string {
		w := fresh(rand.New(rand.NewPCG(1, 1)), other, false)
		return fmt.Sprint(v.Equal(w), w.Equal(v))
	})
	add("go map", func(v *dx.DxValue) string {
		m := map[string]interface{}{}
		ok := v.ToStdValue(m, false)
		return fmt.Sprint(ok, goDump(m))
	})
	add("go string map", func(v *dx.DxValue) string {
		m := map[string]string{}
		ok := v.ToStdValue(m, false)
		for k, s := range m {
			if strings.HasPrefix(s, "{") || strings.HasPrefix(s, "[") {
				if n, err := stdJSON([]byte(s)); err == nil {
					m[k] = n.dump()
				}
			}
		}
		return fmt.Sprintf("%v %q", ok, m)
	})
	add("go slice", func(v *dx.DxValue) string {
		m := make([]interface{}, v.Count())
		ok := v.ToStdValue(m, false)
		return fmt.Sprint(ok, goDump(m))
	})
	// a few nodes
	var idxs [][]int
	var rec func(n *N, path []int)
	rec = func(n *N, path []int) {
		idxs = append(idxs, append([]int(nil), path...))
		for i := range n.C {
			rec(n.C[i], append(path, i))
		}
	}
	rec(n, nil)
	for k := 0; k < 6; k++ {
		idx := idxs[r.IntN(len(idxs))]
		m := n
		for _, i := range idx {
			m = m.C[i]
		}
		add(fmt.Sprint("typed reads of ", idx), func(v *dx.DxValue) string {
			x := at(v, idx)
			s := x.String()
			if m.K <= KArr {
				s = jsonMeaning([]byte(s))
			}
			return fmt.Sprintf("%q %v %v %v %v %v %v %v %x", s, x.Int(), x.Double(), x.Float(), x.Bool(), x.Duration(-9), x.GoTime().UnixNano(), x.DateTime(), x.Binary())
		})
		for i, f := range []func(x *dx.DxValue) string{func(x *dx.DxValue) string { return fmt.Sprint(x.Int()) }, func(x *dx.DxValue) string { return fmt.Sprint(x.Double()) },
			func(x *dx.DxValue) string { return fmt.Sprint(x.Bool()) }, func(x *dx.DxValue) string { return fmt.Sprint(x.GoTime().UnixNano()) }, func(x *dx.DxValue) string { return fmt.Sprint(x.Duration(-9)) }, func(x *dx.DxValue) string { return fmt.Sprint(x.Float()) }} {
			if r.IntN(3) == 0 {
				add(fmt.Sprintf("read %d of %v", i, idx), func(v *dx.DxValue) string { return f(at(v, idx)) })
			}
		}
		if m.K == KObj {
			for t := 0; t < 3; t++ {
				k := genKey(r)
				if len(m.Keys) > 0 && r.IntN(3) > 0 {
					k = m.Keys[r.IntN(len(m.Keys))]
				}
				if r.IntN(6) == 0 {
					k = string(bytes.Trim(writeJStr(r, nil, k, jsonStyle{Escape: 2}), `"`)) // the escaped spelling is not the key
				}
				add(fmt.Sprintf("look up %q in %v", k, idx), func(v *dx.DxValue) string {
					x := at(v, idx)
					y := x.ValueByName(k)
					if y == nil {
						return "none"
					}
					return snap(y).dump()
				})
			}
			add(fmt.Sprint("visit ", idx), func(v *dx.DxValue) string {
				s := ""
				at(v, idx).Visit(func(k string, x *dx.DxValue) bool { s += fmt.Sprintf("%q:%d,", k, x.Count()); return true })
				return s
			})
			add(fmt.Sprint("names ", idx), func(v *dx.DxValue) string {
				x, s := at(v, idx), ""
				for i := 0; i < x.Count(); i++ {
					s += fmt.Sprintf("%q,", x.KeyNameByIndex(i))
				}
				return s
			})
		}
	}
	return qs
}

func readCase(c *C) {
	r := c.R
	v, n, origin := anyTree(r)
	w := v.Clone(false)
	twin := fresh(r, n, false)
	if r.IntN(3) == 0 {
		if r.IntN(2) == 0 {
			partlyRead(r, v)
		} else {
			partlyRead(r, w)
		}
	}
	qs := questions(r, n)
	add := func(name string, f func(v *dx.DxValue) string) { qs = append(qs, question{name, f}) }
	copyOf := fresh(r, n, false)
	add("equal to a copy", func(v *dx.DxValue) string { return fmt.Sprint(v.Equal(copyOf), copyOf.Equal(v)) })
	c.Describe(func() string { return origin + " " + n.dump() })
	c.NonTrivial(n.dump(), origin)
	first := map[string]string{}
	asked := map[string]string{}
	for round := 0; round < 3; round++ {
		for _, i := range r.Perm(len(qs)) {
			q := qs[i]
			who, whose := v, origin
			switch {
			case round == 1:
				who, whose = w, "clone taken before reading"
			case round == 2 && r.IntN(2) == 0:
				who, whose = twin, "tree built with the same content"
			}
			a := q.ask(who)
			if whose == "tree built with the same content" && q.name == "equal to a copy" && strings.Contains(a, "false") {
				continue
			}
			if p, ok := first[q.name]; ok && p != a {
				c.Failf("%s answers %s on the %s, but %s on the %s", q.name, clip(a, 600), whose, clip(p, 600), asked[q.name])
			} else if !ok {
				first[q.name], asked[q.name] = a, whose
			}
			c.Ev("questions asked", 1)
		}
	}
	c.same("after reading", n, v, diffOpt{})
	c.same("clone after reading", n, w, diffOpt{})
}

// firstCase asks a question of a value that nothing was read of.
func firstCase(c *C) {
	r := c.R
	var n *N
	var parse func() *dx.DxValue
	var origin string
	made := func(v *dx.DxValue, err error) *dx.DxValue {
		if err != nil {
			c.Failf("valid %s refused: %v", origin, err)
		}
		return v
	}
	cached, share := r.IntN(2) == 0, r.IntN(2) == 0
	switch r.IntN(6) {
	default:
		n = genTree(r, treeOpt{Root: []int{0, 0, 0, 1, -1}[r.IntN(5)], Kinds: []Kind{KStr, KStr, KInt, KNull, KTrue, KFalse}, Str: jsonStr})
		doc := writeJSON(r, n, jsonStyle{WS: r.IntN(3), Escape: r.IntN(3), NumForm: r.IntN(2) == 0})
		origin = "json " + clip(string(doc), 600)
		parse = func() *dx.DxValue {
			return made(dx.NewValueFromJson(append([]byte(nil), doc...), cached, share))
		}
	case 4:
		n = genTree(r, treeOpt{Root: []int{0, 1}[r.IntN(2)], Kinds: []Kind{KStr, KInt, KFlt, KDbl, KBin, KExt, KNull, KTrue, KFalse}})
		doc := encMP(r, n, r.IntN(2) == 0, nil)
		origin = "msgpack"
		parse = func() *dx.DxValue {
			return made(dx.NewValueFromMsgPack(append([]byte(nil), doc...), cached, share))
		}
	case 5:
		n = genBSONTree(r, true)
		doc := encBSON(r, n, nil)
		origin = "bson"
		parse = func() *dx.DxValue { return made(dx.NewValueFromBson(append([]byte(nil), doc...), cached, share)) }
		n = snap(parse())
	}
	c.Describe(func() string { return origin + " " + n.dump() })
	c.NonTrivial(n.dump(), origin)
	twin := fresh(r, n, false)
	qs := questions(r, n)
	for _, i := range r.Perm(len(qs))[:min(len(qs), 12)] {
		v := parse()
		q := qs[i]
		a := q.ask(v)
		if p := q.ask(twin); a != p {
			c.Failf("%s as the first question answers %s, but %s on a tree built with the same content", q.name, clip(a, 600), clip(p, 600))
		}
		c.same("after "+q.name, n, v, diffOpt{TimeTol: 0.01 * msDays})
		if p := q.ask(v); a != p {
			c.Failf("%s as the first question answers %s, then %s", q.name, clip(a, 600), clip(p, 600))
		}
		c.Ev("first questions asked", 1)
	}
}

// ---------------------------------------------------------------------------------------------
// C26: chains of formats

func chainCase(c *C) {
	r := c.R
	var v *dx.DxValue
	var n *N
	var log []string
	c.Describe(func() string { return strings.Join(log, " -> ") })
	o := diffOpt{Num: true}
	must := func(x *dx.DxValue, err error) *dx.DxValue {
		if err != nil {
			c.Failf("%s refused: %v", log[len(log)-1], err)
		}
		return x
	}
	str := func(r *rand.Rand) string {
		for {
			if s := jsonStr(r); !hasPercentHex(s) {
				return s
			}
		}
	}
	key := func(r *rand.Rand) string {
		for {
			if k := bsonKey(r); !hasPercentHex(k) && !dateDialect(k) {
				return k
			}
		}
	}
	tree := func() *N {
		return genTree(r, treeOpt{Root: 0, Str: str, Key: key, Kinds: []Kind{KStr, KStr, KStr, KInt, KInt, KDbl, KNull, KTrue, KFalse}})
	}
	switch r.IntN(5) {
	case 0:
		t, m, y := genYAML(r, true, 25, 4)
		log = append(log, "yaml")
		v = must(dx.NewValueFromYaml([]byte(t), r.IntN(2) == 0))
		if d := diff(m, snap(v), diffOpt{Unordered: y.merged}); d != "" {
			c.Failf("yaml: %s", d)
		}
		n = m
		if y.merged {
			n = snap(v)
		}
		if n.K != KObj {
			v2 := dx.NewObject(false)
			v2.SetKeyValue("root", v)
			v, n = v2, nObj().add("root", n)
		}
		bad := false
		n.walk(func(x *N) {
			bad = bad || x.K == KStr && (dateDialect(x.S) || hasPercentHex(x.S))
			for _, k := range x.Keys {
				bad = bad || hasPercentHex(k) || dateDialect(k)
			}
		})
		if bad {
			return
		}
	case 1:
		n = tree()
		log = append(log, "msgpack "+n.dump())
		v = must(dx.NewValueFromMsgPack(encMP(r, n, r.IntN(2) == 0, nil), r.IntN(2) == 0, r.IntN(2) == 0))
	case 2:
		n = tree()
		log = append(log, "bson "+n.dump())
		v = must(dx.NewValueFromBson(encBSON(r, n, nil), r.IntN(2) == 0, r.IntN(2) == 0))
	default:
		n = tree()
		log = append(log, "json "+n.dump())
		v = must(dx.NewValueFromJson(writeJSON(r, n, genStyle(r)), r.IntN(2) == 0, r.IntN(2) == 0))
	}
	if r.IntN(2) == 0 {
		partlyRead(r, v)
	}
	for k := 1 + r.IntN(5); k > 0; k-- {
		var out []byte
		f := Format(r.IntN(3))
		switch f {
		case FJSON:
			form, esc := r.IntN(2) == 0, []dx.JsonEscapeStyle{dx.JSE_OnlyAnsiChar, dx.JSE_AllEscape}[r.IntN(2)]
			log = append(log, fmt.Sprintf("json format=%v style=%v", form, esc))
			out = v.ToJson(form, esc, r.IntN(2) == 0, nil)
			if m, err := stdJSON(out); err != nil {
				c.Failf("the JSON after %s is not valid: %v", strings.Join(log, " -> "), err)
			} else if d := diff(n, m, o); d != "" {
				c.Failf("the JSON after %s: %s", strings.Join(log, " -> "), d)
			}
		case FMP:
			log = append(log, "msgpack")
			out = v.ToMsgPack(nil)
			if m, rest, err := decMP(out, 0, &mpInfo{}); err != nil || len(rest) != 0 {
				c.Failf("the MsgPack after %s is not valid: %v", strings.Join(log, " -> "), err)
			} else if d := diff(n, m, o); d != "" {
				c.Failf("the MsgPack after %s: %s", strings.Join(log, " -> "), d)
			}
		default:
			log = append(log, "bson")
			out = v.ToBson(nil)
			if m, _, err := decBSON(out, false, 0); err != nil {
				c.Failf("the BSON after %s is not valid: %v", strings.Join(log, " -> "), err)
			} else if d := diff(n, m, o); d != "" {
				c.Failf("the BSON after %s: %s", strings.Join(log, " -> "), d)
			}
		}
		if r.IntN(2) == 0 {
			v = must(newFrom(f, out, r.IntN(2) == 0, r.IntN(2) == 0))
		} else {
			w, _ := prevValue(r, r.IntN(2) == 0)
			if err := loadInto(f, w, out, r.IntN(2) == 0); err != nil {
				c.Failf("%s refused: %v", log[len(log)-1], err)
			}
			v = w
		}
		if r.IntN(2) == 0 {
			c.same("content after "+strings.Join(log, " -> "), n, v, o)
		} else {
			partlyRead(r, v)
		}
		c.Ev("hops "+f.String(), 1)
	}
	c.same("content after "+strings.Join(log, " -> "), n, v, o)
	c.NonTrivial(strings.Join(log, ","), n.dump())
}

func hasPercentHex(s string) bool {
	for i := 0; i+2 < len(s); i++ {
		if s[i] == '%' && isHex(s[i+1]) && isHex(s[i+2]) {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------------------------------------
// C28: files

func fileCase(c *C) {
	r := c.R
	dir := c.TempDir()
	name := filepath.Join(dir, []string{"a.json", "名 前.json", "x"}[r.IntN(3)])
	prevLen := []int{-1, 0, 3, 100, 5000}[r.IntN(5)]
	if prevLen >= 0 {
		os.WriteFile(name, bytes.Repeat([]byte("]"), prevLen), 0600)
	}
	str := func(r *rand.Rand) string {
		for {
			if s := jsonStr(r); !hasPercentHex(s) {
				return s
			}
		}
	}
	n := genTree(r, treeOpt{Root: []int{0, 0, 1, -1}[r.IntN(4)], Str: str, Key: func(r *rand.Rand) string {
		for {
			if k := genKey(r); !hasPercentHex(k) {
				return k
			}
		}
	}})
	if r.IntN(6) == 0 { // around the sizes a reader grows by
		n = nArr(nStr(strings.Repeat("x", []int{490, 500, 505, 506, 507, 508, 509, 510, 511, 512, 513, 1000, 1020, 4090, 4096, 70000, 200000}[r.IntN(17)]+r.IntN(8)))).clone()
	}
	big := 0
	if r.IntN(40) == 0 { // texts around whole numbers of MB
		big = (1+r.IntN(4))<<20 + []int{0, 0, 0, -1, 1, -2, 3, -3, 512, r.IntN(1 << 20)}[r.IntN(10)]
		n = nArr(nStr(strings.Repeat("x", big-4)))
	}
	v, origin := made(r, n, true)
	bom, format := r.IntN(2) == 0, r.IntN(2) == 0
	if big > 0 && r.IntN(2) == 0 {
		format = false
		if bom && r.IntN(2) == 0 { // with the mark
			n = nArr(nStr(strings.Repeat("x", big-7)))
			v = fresh(r, n, false)
		}
	}
	c.Describe(func() string {
		return fmt.Sprintf("%s bom=%v format=%v over %d bytes: %s", origin, bom, format, prevLen, n.dump())
	})
	c.NonTrivial(n.dump(), prevLen, fmt.Sprint(bom, format))
	if err := dx.Value2File(v, name, bom, format); err != nil {
		c.Failf("Value2File: %v", err)
	}
	raw, err := os.ReadFile(name)
	if err != nil {
		c.Failf("the file is not there: %v", err)
	}
	body := raw
	if bom {
		if !bytes.HasPrefix(raw, []byte("\xef\xbb\xbf")) {
			c.Failf("no byte-order mark")
		}
		body = raw[3:]
	}
	m, err := stdJSON(body)
	if err != nil {
		c.Failf("the file is not JSON: %v: %q", err, clip(string(body), 300))
	}
	if d := diff(n, m, diffOpt{Num: true}); d != "" {
		c.Failf("file content: %s", d)
	}
	got, err := dx.NewValueFromJsonFile(name, r.IntN(2) == 0)
	if err != nil {
		c.Failf("NewValueFromJsonFile: %v", err)
	}
	c.same("loaded file", n, got, diffOpt{Num: true})
	if b, err := dx.ReadFile(name); err != nil || !bytes.Equal(b, raw) {
		c.Failf("ReadFile differs from the file: %v", err)
	}
	c.Ev("json files", 1)
}

func binFileCase(c *C) {
	r := c.R
	dir := c.TempDir()
	name := filepath.Join(dir, "b")
	size := []int{0, 1, 2, 255, 510, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537, 300000}[r.IntN(18)]
	if r.IntN(2) == 0 {
		size = r.IntN(6000)
	}
	if r.IntN(40) == 0 {
		size = (1+r.IntN(4))<<20 + []int{0, 0, -1, 1, 512, r.IntN(1 << 20), r.IntN(1 << 20)}[r.IntN(7)]
	}
	b := randBytes(r, size)
	prevLen := []int{-1, 0, 3, 100, 500000}[r.IntN(5)]
	if prevLen >= 0 {
		os.WriteFile(name, bytes.Repeat([]byte("]"), prevLen), 0600)
	}
	ext := r.IntN(3) == 0
	v := &dx.DxValue{}
	want := nBin(b)
	if ext {
		v.Reset(dx.VT_ExBinary)
		v.SetExtType(5)
		want = nExt(5, b)
	} else {
		v.Reset(dx.VT_Binary)
	}
	v.SetBinary(b, r.IntN(2) == 0)
	c.Describe(func() string { return fmt.Sprintf("%d bytes ext=%v over %d", size, ext, prevLen) })
	c.NonTrivial(b, ext, prevLen)
	if err := v.SaveBinaryToFile(name); err != nil {
		c.Failf("SaveBinaryToFile: %v", err)
	}
	if raw, err := os.ReadFile(name); err != nil || !bytes.Equal(raw, b) {
		c.Failf("the file differs from the binary: %d / %d bytes, %v", len(raw), len(b), err)
	}
	w := &dx.DxValue{}
	if ext {
		w.Reset(dx.VT_ExBinary)
		w.SetExtType(5)
	} else {
		w.Reset(dx.VT_Binary)
	}
	w.SetBinary(randBytes(r, r.IntN(50)), true)
	if err := w.SetBinaryFromFile(name); err != nil {
		c.Failf("SetBinaryFromFile: %v", err)
	}
	c.same("binary from file", want, w, diffOpt{})
	c.Ev("binary files", 1)
}

func otherFileCase(c *C) {
	r := c.R
	dir := c.TempDir()
	name := filepath.Join(dir, "f")
	f := []Format{FMP, FYAML, FJSON}[r.IntN(3)]
	b, n, o := docOf(r, f)
	if f == FYAML && r.IntN(2) == 0 || f == FJSON && r.IntN(2) == 0 {
		b = append([]byte("\xef\xbb\xbf"), b...)
	}
	if r.IntN(6) == 0 {
		b = mutateBytes(r, b, []byte("{}[]\",:- \n"), nil)
		n = nil
	}
	c.Describe(func() string { return fmt.Sprintf("%s %q", f, clip(string(b), 1000)) })
	c.NonTrivial(f.String(), b)
	cached := r.IntN(2) == 0
	load := func(name string) (*dx.DxValue, error) {
		switch f {
		case FMP:
			return dx.NewValueFromMsgPackFile(name, cached)
		case FYAML:
			return dx.NewValueFromYamlFile(name, cached)
		}
		return dx.NewValueFromJsonFile(name, cached)
	}
	var v *dx.DxValue
	var err error
	if r.IntN(4) == 0 { // a file that arrives in pieces and has no size
		if e := syscall.Mkfifo(name, 0600); e != nil {
			return
		}
		done := make(chan bool)
		go func() {
			w, e := os.OpenFile(name, os.O_WRONLY, 0)
			if e == nil {
				for p := 0; p < len(b); {
					q := p + 1 + len(b)/3
					if q > len(b) {
						q = len(b)
					}
					w.Write(b[p:q])
					runtime.Gosched()
					p = q
				}
				w.Close()
			}
			close(done)
		}()
		v, err = load(name)
		<-done
		c.Ev("pipes read", 1)
	} else {
		os.WriteFile(name, b, 0600)
		v, err = load(name)
	}
	body := b
	if f != FMP {
		body = bytes.TrimPrefix(b, []byte("\xef\xbb\xbf"))
	}
	w, err2 := newFrom(f, body, cached, false)
	if (err == nil) != (err2 == nil) {
		c.Failf("file: %v, bytes: %v", err, err2)
	}
	if err == nil {
		c.same("file against bytes", snap(w), v, diffOpt{})
		if n != nil {
			c.same("file against document", n, v, o)
		}
	} else if n != nil {
		c.Failf("a valid file was refused: %v", err)
	} else if v != nil {
		c.Failf("error and a value")
	}
	c.Ev(f.String()+" files", 1)
}

func badFileCase(c *C) {
	r := c.R
	dir := c.TempDir()
	plain := filepath.Join(dir, "plain")
	os.WriteFile(plain, []byte("x"), 0600)
	loop := filepath.Join(dir, "loop")
	os.Symlink(loop, loop)
	unreadable := []string{filepath.Join(dir, "missing"), filepath.Join(dir, "no", "such", "dir"), dir, filepath.Join(plain, "below"), loop, "", filepath.Join(dir, strings.Repeat("n", 300)), "a\x00b"}
	p := unreadable[r.IntN(len(unreadable))]
	c.Describe(func() string { return "unreadable " + p })
	c.NonTrivial("r", p)
	cached := r.IntN(2) == 0
	if v, err := dx.NewValueFromJsonFile(p, cached); err == nil || v != nil {
		c.Failf("NewValueFromJsonFile(%q) gives %v, %v", p, v, err)
	}
	if v, err := dx.NewValueFromMsgPackFile(p, cached); err == nil || v != nil {
		c.Failf("NewValueFromMsgPackFile(%q) gives %v, %v", p, v, err)
	}
	if v, err := dx.NewValueFromYamlFile(p, cached); err == nil || v != nil {
		c.Failf("NewValueFromYamlFile(%q) gives %v, %v", p, v, err)
	}
	if _, err := dx.ReadFile(p); err == nil {
		c.Failf("ReadFile(%q) gives no error", p)
	}
	v := &dx.DxValue{}
	v.Reset(dx.VT_Binary)
	v.SetBinary([]byte("keep"), true)
	if err := v.SetBinaryFromFile(p); err == nil {
		c.Failf("SetBinaryFromFile(%q) gives no error", p)
	}
	c.same("binary after a failed load", nBin([]byte("keep")), v, diffOpt{})
	unwritable := []string{filepath.Join(dir, "no", "such", "dir"), dir, filepath.Join(plain, "below"), loop, "", "/dev/full"}
	q := unwritable[r.IntN(len(unwritable))]
	c.Describe(func() string { return "unwritable " + q })
	c.NonTrivial("w", q)
	if err := v.SaveBinaryToFile(q); err == nil {
		c.Failf("SaveBinaryToFile(%q) gives no error", q)
	}
	o := dx.NewObject(false)
	o.SetKeyString("a", "b")
	if err := dx.Value2File(o, q, r.IntN(2) == 0, r.IntN(2) == 0); err == nil {
		c.Failf("Value2File(%q) gives no error", q)
	}
	if b, _ := os.ReadFile(plain); string(b) != "x" {
		c.Failf("another file changed")
	}
	c.Ev("refused paths", 7)
}

// ---------------------------------------------------------------------------------------------
// C29: loading

func loadCase(c *C) {
	r := c.R
	cached := r.IntN(2) == 0
	v, from := prevValue(r, cached)
	if v.ReadOnly() {
		return
	}
	log := []string{from}
	c.Describe(func() string { return strings.Join(log, "\n-> ") })
	for k := 1 + r.IntN(5); k > 0; k-- {
		f := Format(r.IntN(4))
		share := r.IntN(2) == 0
		b, n, o := docOf(r, f)
		switch r.IntN(8) {
		case 0: // a damaged document in between
			b = mutateBytes(r, b, []byte("{}[]\",:- \n\x00\xc1\x80"), nil)
			log = append(log, fmt.Sprintf("damaged %s %q", f, clip(string(b), 300)))
			err := loadInto(f, v, b, share)
			w, err2 := newFrom(f, b, r.IntN(2) == 0, share)
			if (err == nil) != (err2 == nil) && len(bytes.TrimSpace(b)) > 0 {
				c.Failf("%s: load: %v, new: %v", f, err, err2)
			}
			if err == nil && err2 == nil {
				if x, y := snap(w), snap(v); diff(x, y, diffOpt{}) != "" && len(bytes.TrimSpace(b)) > 0 && !(f == FYAML && x.K == KNull && len(y.C) == 0) {
					c.Failf("%s: loading differs from decoding: %s", f, diff(x, y, diffOpt{}))
				}
			} else if x := snap(v); err != nil && len(x.C) != 0 {
				c.Failf("%s: a failed load left %s", f, x.dump())
			}
			continue
		case 1:
			if f != FBSON { // nothing: the value is emptied
				log = append(log, "empty "+f.String())
				if err := loadInto(f, v, []byte([]string{"", "", " \n"}[r.IntN(3)])[:0], share); err != nil {
					c.Failf("empty %s: %v", f, err)
				}
				if x := snap(v); len(x.C) != 0 || x.S != "" || x.I != 0 || x.F != 0 || len(x.B) != 0 {
					c.Failf("loading nothing left %s", x.dump())
				}
				continue
			}
		}
		log = append(log, fmt.Sprintf("%s share=%v %s", f, share, clip(n.dump(), 600)))
		if err := loadInto(f, v, b, share); err != nil {
			c.Failf("%s: valid document refused: %v", f, err)
		}
		w, err := newFrom(f, b, r.IntN(2) == 0, share)
		if err != nil {
			c.Failf("%s: valid document refused: %v", f, err)
		}
		if r.IntN(2) == 0 {
			c.same(f.String()+": loaded against document", n, v, o)
			if !o.Unordered {
				if d := accessors(v, n); d != "" {
					c.Failf("%s: %s", f, d)
				}
			}
		}
		c.same(f.String()+": loaded against decoded", snap(w), v, diffOpt{})
		c.Ev("loads "+f.String(), 1)
		// still usable for edits
		e := newEditor(c, v, snap(v))
		for s := r.IntN(4); s > 0; s-- {
			log = append(log, "edit "+e.step())
		}
		if d := diff(e.m, snap(v), diffOpt{NoExt: true, TimeTol: 0.01 * msDays}); d != "" {
			c.Failf("editing after a load: %s", d)
		}
	}
	c.NonTrivial(strings.Join(log, "\n"))
}

func init() {
	register(&Prop{ID: "C21", Scale: 15, Race: true, GoMax: 4,
		Rule:   "A case applies a sequence of API calls (every setter, container operation, load, free, read, encode, use as source) to read-only nodes obtained in every way; after each call the raw memory of the five constants is compared with what it was at process start and their behaviour is probed. In the concurrent cases several goroutines do this at once under the race detector, which reports any write at all. Distinct = distinct call sequences.",
		Assume: []string{"exported fields are not assigned directly"},
		Gens: []*Gen{
			{Name: "attacks", Quick: 50000, Fn: func(c *C, i int) {
				k := constKinds[c.R.IntN(5)]
				v, parent, how := obtain(c.R, k)
				log := []string{how}
				c.Describe(func() string { return k.String() + ": " + strings.Join(log, ", ") })
				if v == nil || !v.ReadOnly() {
					if v == nil {
						c.Failf("%s gives no node", how)
					}
					c.Ev("writable nodes obtained", 1)
					return
				}
				for n := 1 + c.R.IntN(12); n > 0; n-- {
					log = append(log, attack(c.R, v))
					checkConstants(c, strings.Join(log, ", "))
				}
				if parent != nil { // replacing the entry gives a writable node
					tp := dx.ValueType(c.R.IntN(int(dx.VT_INF) + 1))
					if c.R.IntN(3) == 0 {
						tp = v.DataType
					}
					var x *dx.DxValue
					if parent.DataType == dx.VT_Object {
						x = parent.SetKey("y", tp)
					} else {
						x = parent.SetIndex(0, tp)
					}
					log = append(log, fmt.Sprintf("replaced by type %d", tp))
					if x.ReadOnly() {
						c.Failf("replacing the entry by a %v gives a node that cannot be written", tp)
					}
					x.SetInt(77)
					at := parent.ValueByIndex(0)
					if parent.DataType == dx.VT_Object {
						at = parent.ValueByName("y")
					}
					if at != x || at.Int() != 77 {
						c.Failf("the replaced entry does not hold what was written to it")
					}
					if parent.DataType == dx.VT_Object {
						parent.SetKeyValue("y", v)
					} else {
						parent.SetIndexValue(0, v)
					}
					if parent.DataType == dx.VT_Object {
						x := parent.SetKey("y", dx.VT_String)
						x.SetString("written")
						parent.SetKeyInt("z", 1)
						if parent.AsString("y", "") != "written" {
							c.Failf("a constant entry could not be replaced")
						}
						parent.SetKeyValue("y", v)
						parent.SetKeyInt("y", 12)
						if parent.AsInt("y", 0) != 12 {
							c.Failf("a constant entry could not be replaced by an int")
						}
						parent.SetKeyValue("y", v)
						parent.ForcePath(dx.VT_Int, "y", "deep").SetInt(3)
						if parent.ValueByPath("y", "deep").Int() != 3 {
							c.Failf("a constant entry could not be forced into a path")
						}
					} else {
						parent.SetIndexDouble(0, 2.5)
						if parent.DoubleByIndex(0, 0) != 2.5 {
							c.Failf("a constant element could not be replaced")
						}
						parent.SetIndexValue(0, v)
						parent.SetIndex(0, dx.VT_Object).SetKeyInt("a", 1)
						if parent.ValueByPath("0", "a").Int() != 1 {
							c.Failf("a constant element could not be replaced by an object")
						}
					}
					c.Ev("entries replaced", 1)
				}
				checkConstants(c, strings.Join(log, ", "))
				c.NonTrivial(k.String(), strings.Join(log, ","))
			}},
			{Name: "concurrent", Quick: 800, Fn: func(c *C, i int) {
				seed := c.R.Uint64()
				c.Describe(func() string { return fmt.Sprint("seed ", seed) })
				var wg sync.WaitGroup
				errs := make(chan string, 8)
				for g := 0; g < 4; g++ {
					wg.Add(1)
					go func() {
						defer wg.Done()
						defer func() {
							if e := recover(); e != nil {
								errs <- fmt.Sprint(e)
							}
						}()
						r := rand.New(rand.NewPCG(seed, uint64(g)))
						for n := 0; n < 60; n++ {
							if v, _, _ := obtain(r, constKinds[r.IntN(5)]); v != nil && v.ReadOnly() {
								attack(r, v)
							}
						}
					}()
				}
				wg.Wait()
				if len(errs) > 0 {
					c.Failf("panic: %s", <-errs)
				}
				checkConstants(c, "concurrent use")
				c.Ev("concurrent attacks", 240)
				c.NonTrivial("conc", i)
			}},
		}})
	register(&Prop{ID: "C22", Scale: 40,
		Rule: "A case decodes a document of some format through some entry point from memory that is read-only and ends at an inaccessible page, then edits, encodes and reloads the value: a write into the caller's buffer faults. Without sharing the buffer is made inaccessible or scribbled over first. Encoders are run with destinations of random prefix and capacity inside a larger buffer and compared byte by byte with an empty destination; binaries are set from protected slices. Distinct = distinct inputs.",
		Gens: []*Gen{
			{Name: "inputs", Quick: 14000, Fn: func(c *C, i int) { inputCase(c) }},
			{Name: "outputs", Quick: 9000, Fn: func(c *C, i int) { outputCase(c) }},
			{Name: "binaries", Quick: 6000, Fn: func(c *C, i int) { binaryCase(c) }},
		}})
	register(&Prop{ID: "C23", Scale: 20,
		Rule:   "A case asks a few dozen questions (typed reads, look-ups, names, visits, clones, equality, all encodings, export to Go values) of a tree of any origin in three random orders, on the value itself, on a clone taken before anything was read and on a tree built eagerly with the same content; the answer to a question must always be the same. In the cases called firsts each question is put to a value decoded anew, of which nothing was read before. Distinct = distinct trees.",
		Assume: []string{"JSON texts are compared by the document they denote: text that was not read yet keeps the escapes of its source"},
		Gens:   []*Gen{{Name: "orders", Quick: 5000, Fn: func(c *C, i int) { readCase(c) }}, {Name: "firsts", Quick: 4000, Fn: func(c *C, i int) { firstCase(c) }}}})
	register(&Prop{ID: "C26", Scale: 60,
		Rule:   "A case is a document in one format that goes through a random chain of up to five encodings and decodings (JSON in both forms and styles, MsgPack, BSON; YAML as source), with and without reading in between; after each hop the bytes are judged by the independent decoder of that format and the tree by the model. Distinct = distinct (document, chain).",
		Assume: []string{"the root is an object, keys without NUL", "texts of the Date(n) and %XX dialect are left out"},
		Gens:   []*Gen{{Name: "chains", Quick: 16000, Fn: func(c *C, i int) { chainCase(c) }}}})
	register(&Prop{ID: "C28",
		Rule: "A case writes a tree or binary over a previous file in a scratch directory and reads it back (sizes around the reader's growth steps), loads MsgPack, YAML and JSON files (also through a pipe that delivers pieces) against decoding the same bytes, or uses a path that cannot be read or written (missing, directory, below a file, symlink loop, too long, full device). Distinct = distinct contents and paths.",
		Gens: []*Gen{
			{Name: "json", Quick: 2500, Fn: func(c *C, i int) { fileCase(c) }},
			{Name: "binary", Quick: 1200, Fn: func(c *C, i int) { binFileCase(c) }},
			{Name: "others", Quick: 2500, Fn: func(c *C, i int) { otherFileCase(c) }},
			{Name: "bad", Quick: 300, Fn: func(c *C, i int) { badFileCase(c) }},
		}})
	register(&Prop{ID: "C29", Scale: 50,
		Rule: "A case is a value in some previous state that takes a sequence of loads in random formats (with damaged and empty documents and edits in between); after each load it is compared with decoding into a new value and with the document's model. Distinct = distinct histories.",
		Gens: []*Gen{{Name: "sequences", Quick: 10000, Fn: func(c *C, i int) { loadCase(c) }}}})
}
