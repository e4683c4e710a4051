package main

import (
	"fmt"
	"math/rand/v2"
	"runtime"

	dx "github.com/suiyunonghen/dxsvalue"
)

// Format names a wire format of the library.
type Format int

const (
	FJSON Format = iota
	FMP
	FBSON
	FYAML
)

func (f Format) String() string { return []string{"json", "msgpack", "bson", "yaml"}[f] }

// entry is one way into a decoder.
type entry struct {
	name         string
	load, cached bool
	share        bool
	dec          func(r *rand.Rand, b []byte) (v *dx.DxValue, err error)
	keep         []interface{}
}

func newFrom(f Format, b []byte, cached, share bool) (*dx.DxValue, error) {
	switch f {
	case FJSON:
		return dx.NewValueFromJson(b, cached, share)
	case FMP:
		return dx.NewValueFromMsgPack(b, cached, share)
	case FBSON:
		return dx.NewValueFromBson(b, cached, share)
	}
	return dx.NewValueFromYaml(b, cached)
}

func loadInto(f Format, v *dx.DxValue, b []byte, share bool) error {
	switch f {
	case FJSON:
		return v.LoadFromJson(b, share)
	case FMP:
		return v.LoadFromMsgPack(b, share)
	case FBSON:
		return v.LoadFromBson(b, share)
	}
	return v.LoadFromYaml(b)
}

// entries lists every decoding entry point of a format: {new, load} x {cached, not} x {shared, copied}.
func entries(f Format) []*entry {
	var out []*entry
	for _, cached := range []bool{false, true} {
		for _, share := range []bool{false, true} {
			if f == FYAML && share {
				continue
			}
			cached, share := cached, share
			out = append(out, &entry{name: fmt.Sprintf("new %s cached=%v share=%v", f, cached, share), cached: cached, share: share,
				dec: func(r *rand.Rand, b []byte) (*dx.DxValue, error) { return newFrom(f, b, cached, share) }})
			out = append(out, &entry{name: fmt.Sprintf("load %s cached=%v share=%v", f, cached, share), cached: cached, share: share, load: true,
				dec: func(r *rand.Rand, b []byte) (*dx.DxValue, error) {
					v, _ := prevValue(r, cached)
					return v, loadInto(f, v, b, share)
				}})
		}
	}
	return out
}

var entriesOf = map[Format][]*entry{}

func init() {
	for f := FJSON; f <= FYAML; f++ {
		entriesOf[f] = entries(f)
	}
}

// prevValue gives a writable value in some previous state, and a description of it.
func prevValue(r *rand.Rand, cached bool) (*dx.DxValue, string) {
	tree := func() *dx.DxValue {
		n := genTree(r, treeOpt{Root: []int{int(KObj), int(KArr)}[r.IntN(2)], Kinds: allKinds, Budget: 3 + r.IntN(20), Depth: 3})
		return fresh(r, n, cached)
	}
	switch r.IntN(12) {
	case 0:
		return dx.NewObject(cached), "empty object"
	case 1:
		return dx.NewArray(cached), "empty array"
	case 2:
		k := allKinds[r.IntN(len(allKinds))]
		var v *dx.DxValue
		if cached {
			v = dx.NewCacheValue(dx.VT_Int)
		} else {
			v = &dx.DxValue{}
		}
		fill(r, v, genScalar(r, k, &treeOpt{Str: genString, Key: genKey}))
		return v, "scalar " + k.String()
	case 3:
		v := tree()
		v.Clear()
		return v, "cleared tree"
	case 4:
		v := tree()
		loadInto(Format(r.IntN(3)), v, []byte("\xff\xff{[garbage"), false)
		return v, "after failed load"
	case 5:
		v := tree()
		v.LoadFromJson(writeJSON(r, genTree(r, treeOpt{Root: -1, Budget: 12}), genStyle(r)), r.IntN(2) == 0)
		return v, "loaded json"
	case 6:
		v := tree()
		v.LoadFromMsgPack(encMP(r, genTree(r, treeOpt{Root: -1, Budget: 12, Kinds: dataKinds}), false, nil), false)
		return v, "loaded msgpack"
	case 7:
		v := tree()
		v.LoadFromBson(encBSON(r, genTree(r, treeOpt{Root: int(KObj), Budget: 12, Kinds: dataKinds, Key: genPlainKey}), nil), false)
		return v, "loaded bson"
	case 8: // a node inside a tree
		p := dx.NewObject(false)
		v := p.SetKey("x", dx.VT_Object)
		fill(r, v, genTree(r, treeOpt{Root: int(KObj), Kinds: allKinds, Budget: 8}))
		p.SetKeyInt("y", 1)
		return v, "child of an object"
	case 9: // recycled storage
		if cached {
			for i := 0; i < 2; i++ {
				dx.FreeValue(tree())
			}
			return dx.NewCacheValue([]dx.ValueType{dx.VT_Object, dx.VT_Array, dx.VT_Int, dx.VT_String}[r.IntN(4)]), "recycled"
		}
		return &dx.DxValue{}, "zero value"
	case 10:
		v := tree()
		v.Reset([]dx.ValueType{dx.VT_Object, dx.VT_Array, dx.VT_String, dx.VT_NULL, dx.VT_Binary, dx.VT_True}[r.IntN(6)])
		return v, "reset tree"
	}
	return tree(), "tree"
}

// accessors checks that every way of looking at a container agrees with the reference tree.
func accessors(v *dx.DxValue, n *N) string {
	if n.K != KObj && n.K != KArr {
		if v.Count() != 0 {
			return fmt.Sprintf("scalar %s counts %d", n.dump(), v.Count())
		}
		return ""
	}
	if v.Count() != len(n.C) {
		return fmt.Sprintf("Count %d, expected %d", v.Count(), len(n.C))
	}
	i, bad := 0, ""
	v.Visit(func(k string, c *dx.DxValue) bool {
		if i >= len(n.C) {
			bad = "Visit shows too many entries"
			return false
		}
		if n.K == KObj && k != n.Keys[i] {
			bad = fmt.Sprintf("Visit shows key %q at %d, expected %q", k, i, n.Keys[i])
			return false
		}
		if c == nil || c != v.ValueByIndex(i) {
			bad = fmt.Sprintf("Visit shows another node than ValueByIndex(%d)", i)
			return false
		}
		i++
		return true
	})
	if bad == "" && i != len(n.C) {
		bad = fmt.Sprintf("Visit showed %d of %d entries", i, len(n.C))
	}
	if bad != "" {
		return bad
	}
	if len(n.C) > 1 { // Visit stops when told to
		seen := 0
		v.Visit(func(string, *dx.DxValue) bool { seen++; return false })
		if seen != 1 {
			return fmt.Sprintf("Visit showed %d entries after it was told to stop", seen)
		}
	}
	step := 1
	if len(n.C) > 300 {
		step = len(n.C) / 100
	}
	for i := 0; i < len(n.C); i += step {
		k, c := v.Items(i)
		if c != v.ValueByIndex(i) {
			return fmt.Sprintf("Items(%d) and ValueByIndex(%d) differ", i, i)
		}
		if n.K == KObj {
			if k != n.Keys[i] || v.KeyNameByIndex(i) != n.Keys[i] {
				return fmt.Sprintf("key %d is %q / %q, expected %q", i, k, v.KeyNameByIndex(i), n.Keys[i])
			}
			if v.ValueByName(n.Keys[i]) != c || v.Find(n.Keys[i]) != c || v.ValueByPath(n.Keys[i]) != c {
				return fmt.Sprintf("looking up key %q does not give entry %d", n.Keys[i], i)
			}
		} else if k != "" || v.ValueByName(fmt.Sprint(i)) != c {
			return fmt.Sprintf("looking up element %d by name fails", i)
		}
		if d := accessors(c, n.C[i]); d != "" {
			return d
		}
	}
	for _, x := range []int{-1, len(n.C), len(n.C) + 7} {
		if _, c := v.Items(x); c != nil || v.ValueByIndex(x) != nil {
			return fmt.Sprintf("index %d of %d shows a node", x, len(n.C))
		}
	}
	return ""
}

// usable checks that an emptied value takes new content; other is a valid document to load.
func usable(c *C, v *dx.DxValue, what string) {
	if n := snap(v); len(n.C) != 0 || n.K == KBad || n.S != "" || n.I != 0 || n.F != 0 || len(n.B) != 0 {
		c.Failf("%s: the target still shows %s", what, n.dump())
	}
	v.SetKeyString("probe", "p")
	v.SetKeyInt("n", 7)
	want := nObj().add("probe", nStr("p")).add("n", nInt(7))
	if d := diff(want, snap(v), diffOpt{}); d != "" {
		c.Failf("%s: the target is not usable afterwards: %s", what, d)
	}
	if err := v.LoadFromJson([]byte(`{"a":[1,"b\n",{"c":null}],"d":1.5}`), false); err != nil {
		c.Failf("%s: the target cannot be loaded afterwards: %v", what, err)
	}
	want = nObj().add("a", nArr(nInt(1), nStr("b\n"), nObj().add("c", nNull()))).add("d", nDbl(1.5))
	if d := diff(want, snap(v), diffOpt{}); d != "" {
		c.Failf("%s: a later load gives wrong content: %s", what, d)
	}
}

// mutateBytes makes a damaged variant of a document.
func mutateBytes(r *rand.Rand, b []byte, alphabet []byte, other []byte) []byte {
	b = append([]byte(nil), b...)
	for k := 1 + r.IntN(3)/2; k > 0; k-- {
		if len(b) == 0 {
			return []byte{alphabet[r.IntN(len(alphabet))]}
		}
		p := r.IntN(len(b))
		switch r.IntN(8) {
		case 0: // truncate
			b = b[:p]
		case 1: // flip a bit
			b[p] ^= 1 << r.IntN(8)
		case 2: // replace
			b[p] = byte(r.Uint32())
		case 3:
			b[p] = alphabet[r.IntN(len(alphabet))]
		case 4: // delete
			b = append(b[:p], b[p+1:]...)
		case 5: // insert
			b = append(b[:p], append([]byte{alphabet[r.IntN(len(alphabet))]}, b[p:]...)...)
		case 6: // duplicate a part
			q := p + r.IntN(len(b)-p) + 1
			b = append(b[:q], append(append([]byte(nil), b[p:q]...), b[q:]...)...)
		case 7: // splice
			if len(other) > 0 {
				b = append(b[:p], other[r.IntN(len(other)):]...)
			}
		}
	}
	return b
}

// bounded runs f and checks that it allocates no more than a multiple of the input size. The runtime accounts
// for small allocations late, so what earlier work allocated can show up here: f is repeated before it is blamed.
func (c *C) bounded(what string, size int, f func()) {
	limit := uint64(size)*6144 + 2<<20
	for try := 0; ; try++ {
		a := allocated()
		f()
		d := allocated() - a
		if d <= limit {
			break
		}
		if try == 3 || d > limit+64<<20 {
			c.Failf("%s allocated %d bytes for an input of %d bytes", what, d, size)
		}
	}
	runtime.KeepAlive(f)
}

// diffTree compares and fails.
func (c *C) same(what string, want *N, v *dx.DxValue, o diffOpt) {
	if v == nil {
		c.Failf("%s: no value", what)
	}
	if d := diff(want, snap(v), o); d != "" {
		c.Failf("%s: %s", what, d)
	}
	c.Ev("trees compared", 1)
}

// origin names the ways a tree came into being.
var originNames = []string{"built", "built cached", "decoded json", "decoded json, partly read", "decoded msgpack", "cloned"}

// made gives a library value holding n, by a random route; n must be JSON-able when routes through JSON are wanted.
// It returns the value and the reference of what it must show (kinds can be normalised by the route).
func made(r *rand.Rand, n *N, jsonable bool) (*dx.DxValue, string) {
	k := r.IntN(6)
	if !jsonable && (k == 2 || k == 3) {
		k = r.IntN(2)
	}
	switch k {
	case 0:
		return fresh(r, n, false), originNames[0]
	case 1:
		return fresh(r, n, true), originNames[1]
	case 2, 3:
		b := writeJSON(r, n, genStyle(r))
		var v *dx.DxValue
		var err error
		if r.IntN(2) == 0 {
			v, err = dx.NewValueFromJson(b, r.IntN(2) == 0, r.IntN(2) == 0)
		} else {
			v = dx.NewObject(r.IntN(2) == 0)
			err = v.LoadFromJson(b, r.IntN(2) == 0)
		}
		if err != nil {
			panic(failure{fmt.Sprintf("valid JSON refused: %v: %s", err, clip(string(b), 300))})
		}
		if k == 3 {
			partlyRead(r, v)
		}
		return v, originNames[k]
	case 4:
		ok := true
		n.walk(func(x *N) {
			if x.K == KTime || x.K == KNaN || x.K == KInf {
				ok = false
			}
		})
		if ok {
			v, err := dx.NewValueFromMsgPack(encMP(r, n, r.IntN(2) == 0, nil), r.IntN(2) == 0, r.IntN(2) == 0)
			if err != nil {
				panic(failure{fmt.Sprintf("valid MsgPack refused: %v: %s", err, n.dump())})
			}
			return v, originNames[4]
		}
	}
	return fresh(r, n, r.IntN(2) == 0).Clone(r.IntN(2) == 0), originNames[5]
}

// partlyRead touches some strings and keys, so that some are decoded and some are not.
func partlyRead(r *rand.Rand, v *dx.DxValue) {
	for i := 0; i < v.Count(); i++ {
		switch r.IntN(4) {
		case 0:
			partlyRead(r, v.ValueByIndex(i))
		case 1:
			if x := v.ValueByIndex(i); x.DataType > dx.VT_Array {
				_ = x.String()
			}
		case 2:
			v.ValueByName("no such key")
		}
	}
}
