package main

import (
	"fmt"
	"math"
	"math/rand/v2"
	"strconv"
	"strings"
	"time"

	dx "github.com/suiyunonghen/dxsvalue"
)

// editor drives one tree and its shadow through the same history.
type editor struct {
	c      *C
	r      *rand.Rand
	root   *dx.DxValue
	m      *N
	fold   bool
	cached bool
	noExt  bool // BSON marks are not followed
	kinds  []Kind
	log    []string
	kept   []kept      // values taken out of the tree and still held
	hot    map[*N]bool // attached values that bring their own cache
	keyed  func(r *rand.Rand) string
}

type kept struct {
	v *dx.DxValue
	n *N
}

func (e *editor) logf(format string, args ...interface{}) {
	e.log = append(e.log, clip(fmt.Sprintf(format, args...), 200))
}

func (e *editor) find(n *N, k string) int {
	for i, x := range n.Keys {
		if x == k || e.fold && strings.EqualFold(x, k) {
			return i
		}
	}
	return -1
}

// set gives the index of key k in n, which is made to exist.
func (e *editor) put(n *N, k string, x *N) {
	if i := e.find(n, k); i >= 0 {
		e.swap(n, i, x)
		return
	}
	n.add(k, x)
}

// swap models a setter on an existing entry, whose node may be kept together with the cache it brought.
func (e *editor) swap(n *N, i int, x *N) {
	if e.hot[n.C[i]] {
		e.hot[x] = true
	}
	n.C[i] = x
}

// zero is a fresh node of a kind.
func zero(k Kind) *N { return &N{K: k} }

// turn makes the reference node what Set*-by-type makes of it.
func turn(n *N, k Kind) {
	if n.K != k {
		*n = N{K: k}
	}
}

type place struct {
	v   *dx.DxValue
	n   *N
	hot bool // below a value that brought its own cache
}

// below tells whether x is in the set or below a node of it.
func below(n, x *N, set map[*N]bool) bool {
	var rec func(n *N, in bool) bool
	rec = func(n *N, in bool) bool {
		in = in || set[n]
		if n == x {
			return in
		}
		for _, k := range n.C {
			if rec(k, in) {
				return true
			}
		}
		return false
	}
	return rec(n, false)
}

// places lists the nodes of the tree that satisfy ok.
func places(v *dx.DxValue, n *N, ok func(*N) bool) []place {
	var out []place
	var rec func(v *dx.DxValue, n *N)
	rec = func(v *dx.DxValue, n *N) {
		if ok(n) {
			out = append(out, place{v: v, n: n})
		}
		for i := range n.C {
			rec(v.ValueByIndex(i), n.C[i])
		}
	}
	rec(v, n)
	return out
}

func isObj(n *N) bool { return n.K == KObj }
func isArr(n *N) bool { return n.K == KArr }

func (e *editor) key(n *N) string {
	if len(n.Keys) > 0 && e.r.IntN(2) == 0 {
		k := n.Keys[e.r.IntN(len(n.Keys))]
		if e.fold && e.r.IntN(2) == 0 {
			k = swapCase(e.r, k)
		}
		return k
	}
	return e.keyed(e.r)
}

func swapCase(r *rand.Rand, s string) string {
	switch r.IntN(3) {
	case 0:
		return strings.ToUpper(s)
	case 1:
		return strings.ToLower(s)
	}
	b := []byte(s)
	for i := range b {
		if (b[i] >= 'a' && b[i] <= 'z' || b[i] >= 'A' && b[i] <= 'Z') && r.IntN(2) == 0 {
			b[i] ^= 0x20
		}
	}
	return string(b)
}

func (e *editor) scalar() *N {
	k := e.kinds[e.r.IntN(len(e.kinds))]
	return genScalar(e.r, k, &treeOpt{Str: genString, Key: genKey})
}

func (e *editor) subtree() *N {
	return genTree(e.r, treeOpt{Root: -1, Kinds: e.kinds, Budget: 6, Depth: 2, Key: e.keyed, FoldKeys: e.fold})
}

// fresh makes a value to be attached.
func (e *editor) fresh(x *N) *dx.DxValue {
	cached := e.r.IntN(3) == 0
	if cached {
		if e.hot == nil {
			e.hot = map[*N]bool{}
		}
		e.hot[x] = true
	}
	return fresh(e.r, x, cached)
}

func (e *editor) anyType() Kind {
	return []Kind{KObj, KArr, KStr, KInt, KFlt, KDbl, KTime, KBin, KExt, KNull, KTrue, KFalse, KNaN, KInf}[e.r.IntN(14)]
}

// look asks an object for one key, however much of it has been read.
func (e *editor) look(p place) {
	k := e.key(p.n)
	var want *dx.DxValue
	i := e.find(p.n, k)
	if i >= 0 {
		want = p.v.ValueByIndex(i)
	}
	var got *dx.DxValue
	switch e.r.IntN(3) {
	case 0:
		got = p.v.ValueByName(k)
	case 1:
		got = p.v.Find(k)
	default:
		got = p.v.ValueByPath(k)
	}
	if got != want {
		e.c.Failf("look-up of %q (entry %d of %d) finds another node (%v)", k, i, len(p.n.C), got != nil)
	}
	e.c.Ev("keys looked up during the history", 1)
}

// objectOp applies one random operation to an object.
func (e *editor) objectOp(p place) string {
	v, n, r := p.v, p.n, e.r
	k := e.key(n)
	op := r.IntN(16)
	switch op {
	case 0:
		x := genString(r)
		v.SetKeyString(k, x)
		e.put(n, k, nStr(x))
		return fmt.Sprintf("SetKeyString(%q,%q)", k, x)
	case 1:
		x := genInt(r)
		v.SetKeyInt(k, x)
		e.put(n, k, nInt(x))
		return fmt.Sprintf("SetKeyInt(%q,%d)", k, x)
	case 2:
		x := genFloat(r, false)
		v.SetKeyDouble(k, x)
		e.put(n, k, nDbl(x))
		return fmt.Sprintf("SetKeyDouble(%q,%v)", k, x)
	case 3:
		x := genFloat32(r, false)
		v.SetKeyFloat(k, x)
		e.put(n, k, nFlt(x))
		return fmt.Sprintf("SetKeyFloat(%q,%v)", k, x)
	case 4:
		x := r.IntN(2) == 0
		v.SetKeyBool(k, x)
		e.put(n, k, nBool(x))
		return fmt.Sprintf("SetKeyBool(%q,%v)", k, x)
	case 5:
		t := time.Unix(31536000+r.Int64N(6e9), 0).UTC()
		v.SetKeyTime(k, t)
		e.put(n, k, &N{K: KTime, F: dayOf(t)})
		return fmt.Sprintf("SetKeyTime(%q,%v)", k, t)
	case 6, 7: // by type: the node is kept when it has that type already
		kd := e.anyType()
		var x *dx.DxValue
		if op == 6 {
			x = v.SetKey(k, kindType[kd])
		} else {
			x = v.SetKeyCached(k, kindType[kd], v.ValueCache())
		}
		i := e.find(n, k)
		if i < 0 {
			n.add(k, zero(kd))
			i = len(n.C) - 1
		} else {
			turn(n.C[i], kd)
		}
		if x != v.ValueByIndex(i) {
			e.c.Failf("SetKey(%q) returns another node than the entry it made", k)
		}
		return fmt.Sprintf("SetKey(%q,%v)", k, kd) + e.use(x, n.C[i])
	case 8: // by type, then fill
		x := e.subtree()
		fill(r, v.SetKey(k, kindType[x.K]), x)
		if i := e.find(n, k); i >= 0 {
			e.swap(n, i, x)
		} else {
			n.add(k, x)
		}
		return fmt.Sprintf("SetKey(%q) filled with %s", k, x.dump())
	case 9: // attach
		x := e.subtree()
		nv := e.fresh(x)
		v.SetKeyValue(k, nv)
		e.put(n, k, x)
		return fmt.Sprintf("SetKeyValue(%q,%s)", k, x.dump()) + e.through(nv, x)
	case 10:
		if r.IntN(3) == 0 {
			v.SetKeyValue(k, nil)
			e.put(n, k, nNull())
			return fmt.Sprintf("SetKeyValue(%q,nil)", k)
		}
		x := e.scalar()
		if r.IntN(2) == 0 {
			x = e.subtree()
		}
		g, ok := goTree(r, x)
		if at := e.find(n, k); at >= 0 && (n.C[at].K == KTime || n.C[at].K == KDbl) {
			k += "x" // a date-time stays one when a number is set
		}
		if at := e.find(n, k); !ok || at >= 0 && n.C[at].K == KTime {
			return "-"
		}
		v.SetKeyvalue(k, g, v.ValueCache())
		e.put(n, k, x)
		return fmt.Sprintf("SetKeyvalue(%q,%s)", k, x.dump())
	case 11, 12:
		v.RemoveKey(k)
		if i := e.find(n, k); i >= 0 {
			n.Keys = append(n.Keys[:i:i], n.Keys[i+1:]...)
			n.C = append(n.C[:i:i], n.C[i+1:]...)
		}
		return fmt.Sprintf("RemoveKey(%q)", k)
	case 13:
		i := e.find(n, k)
		var want *dx.DxValue
		if i >= 0 {
			want = v.ValueByIndex(i)
		}
		x := v.ExtractValue(k)
		if x != want {
			e.c.Failf("ExtractValue(%q) does not return the entry", k)
		}
		if i >= 0 {
			if d := diff(n.C[i], snap(x), diffOpt{TimeTol: 0.01 * msDays, NoExt: e.noExt}); d != "" {
				e.c.Failf("extracted value: %s", d)
			}
			keep := !e.cached && !p.hot && !e.hot[n]
			if keep {
				e.kept = append(e.kept, kept{x, n.C[i].clone()})
			}
			n.Keys = append(n.Keys[:i:i], n.Keys[i+1:]...)
			n.C = append(n.C[:i:i], n.C[i+1:]...)
			if keep && r.IntN(4) == 0 { // what was taken out outlives its former container
				e.wipe(p)
				if n.K == KObj {
					for j := 1 + r.IntN(12); j > 0; j-- {
						k, s := e.key(n), genString(r)
						v.SetKeyString(k, s)
						e.put(n, k, nStr(s))
					}
				}
				return fmt.Sprintf("ExtractValue(%q), container wiped and filled again", k)
			}
		}
		return fmt.Sprintf("ExtractValue(%q)", k)
	case 14: // many keys
		for j := 3 + r.IntN(14); j > 0; j-- {
			k := e.key(n)
			v.SetKeyInt(k, int64(j))
			e.put(n, k, nInt(int64(j)))
		}
		return "many keys"
	}
	if len(n.C) > 0 && r.IntN(3) > 0 { // change an entry in place
		i := r.IntN(len(n.C))
		return e.inPlace(place{v: v.ValueByIndex(i), n: n.C[i], hot: p.hot || e.hot[n]})
	}
	return e.wipe(p)
}

// use writes to a node that a setter by type has given, whatever its type.
func (e *editor) use(x *dx.DxValue, n *N) string {
	if e.r.IntN(2) == 0 {
		return ""
	}
	if x.ReadOnly() {
		e.c.Failf("the setter by type gives a node that cannot be written")
	}
	m := e.scalar()
	fill(e.r, x, m)
	*n = *m
	return ", then written: " + m.dump()
}

// through writes to an attached value through the pointer it was attached with: it is the entry now.
func (e *editor) through(x *dx.DxValue, n *N) string {
	if x.ReadOnly() || e.r.IntN(3) > 0 {
		return ""
	}
	if n.K == KObj && e.r.IntN(2) == 0 {
		k := e.key(n)
		x.SetKeyInt(k, 77)
		e.put(n, k, nInt(77))
		return fmt.Sprintf(", then %q set in it", k)
	}
	m := e.scalar()
	fill(e.r, x, m)
	*n = *m
	return ", then written as " + m.dump()
}

// inPlace changes a node through itself.
func (e *editor) inPlace(p place) string {
	if p.v.ReadOnly() {
		p.v.SetInt(5) // must not take effect
		return "SetInt on a constant"
	}
	if e.r.IntN(5) == 0 {
		return e.become(p)
	}
	x := e.scalar()
	fill(e.r, p.v, x)
	*p.n = *x
	return "in place " + x.dump()
}

// become applies a setter of entries to a value of another type, which turns into a container of this one entry.
func (e *editor) become(p place) string {
	v, r := p.v, e.r
	was := p.n.K
	obj := was == KArr || was != KObj && r.IntN(2) == 0
	x := []*N{nStr(genString(r)), nInt(genInt(r)), nDbl(genFloat(r, false)), nFlt(genFloat32(r, false)), nBool(r.IntN(2) == 0), zero(e.anyType()), zero(e.anyType()), e.subtree(), e.subtree(), nNull()}
	op := r.IntN(12)
	var m *N
	if op < len(x) {
		m = x[op]
	} else if m = x[0]; op == 11 {
		t := time.Unix(31536000+r.Int64N(6e9), 0).UTC()
		m = &N{K: KTime, F: dayOf(t), T: t}
	}
	g, ok := interface{}(nil), false
	if op == 10 {
		m = e.subtree()
		if g, ok = goTree(r, m); !ok {
			return "-"
		}
	}
	e.c.Ev("values turned into containers", 1)
	var got *dx.DxValue
	if obj {
		k := "q" + e.keyed(r)
		*p.n = N{K: KObj}
		p.n.add(k, m)
		switch op {
		case 0:
			v.SetKeyString(k, m.S)
		case 1:
			v.SetKeyInt(k, m.I)
		case 2:
			v.SetKeyDouble(k, m.F)
		case 3:
			v.SetKeyFloat(k, float32(m.F))
		case 4:
			v.SetKeyBool(k, m.K == KTrue)
		case 5:
			got = v.SetKey(k, kindType[m.K])
		case 6:
			got = v.SetKeyCached(k, kindType[m.K], v.ValueCache())
		case 7:
			v.SetKeyValue(k, e.fresh(m))
		case 8:
			fill(r, v.SetKey(k, kindType[m.K]), m)
		case 9:
			v.SetKeyValue(k, nil)
		case 10:
			v.SetKeyvalue(k, g, v.ValueCache())
		case 11:
			v.SetKeyTime(k, m.T)
		}
	} else {
		i := r.IntN(4) - 1
		*p.n = N{K: KArr, C: []*N{m}}
		switch op {
		case 0:
			v.SetIndexString(i, m.S)
		case 1:
			v.SetIndexInt(i, m.I)
		case 2:
			v.SetIndexDouble(i, m.F)
		case 3:
			v.SetIndexFloat(i, float32(m.F))
		case 4:
			v.SetIndexBool(i, m.K == KTrue)
		case 5:
			got = v.SetIndex(i, kindType[m.K])
		case 6:
			switch r.IntN(3) {
			case 0:
				got = v.InsertValue(i, kindType[m.K])
			case 1:
				got = v.Append(kindType[m.K])
			default:
				got = v.SetIndexCached(i, kindType[m.K], v.ValueCache())
			}
		case 7:
			v.SetIndexValue(i, e.fresh(m))
		case 8:
			fill(r, v.InsertValue(i, kindType[m.K]), m)
		case 9:
			v.SetIndexValue(i, nil)
		case 10:
			v.SetIndexvalue(i, g, v.ValueCache())
		case 11:
			v.SetIndexTime(i, m.T)
		}
	}
	if got != nil && got != v.ValueByIndex(0) {
		e.c.Failf("the setter by type returns another node than the entry it made")
	}
	return fmt.Sprintf("entry setter %d on a %v value, object=%v: %s", op, was, obj, m.dump())
}

func (e *editor) wipe(p place) string {
	if p.v == e.root {
		e.kept = e.kept[:len(e.kept)]
	}
	if e.r.IntN(2) == 0 {
		p.v.Clear()
		p.n.Keys, p.n.C = nil, nil
		return "Clear"
	}
	k := KObj
	if e.r.IntN(2) == 0 {
		k = p.n.K
	} else if e.r.IntN(2) == 0 {
		k = KArr
	}
	p.v.Reset(kindType[k])
	*p.n = N{K: k}
	return "Reset " + k.String()
}

// arrayOp applies one random operation to an array.
func (e *editor) arrayOp(p place) string {
	v, n, r := p.v, p.n, e.r
	l := len(n.C)
	i := 0
	switch r.IntN(8) {
	case 0:
		i = l
	case 1:
		i = l + 1 + r.IntN(5)
	case 2:
		i = -1 - r.IntN(3)
	default:
		if l > 0 {
			i = r.IntN(l)
		}
	}
	put := func(x *N) {
		if i >= 0 && i < len(n.C) {
			e.swap(n, i, x)
		} else {
			n.C = append(n.C, x)
		}
	}
	op := r.IntN(22)
	byKey := i >= 0 && r.IntN(4) == 0 // the same through a numeric key
	ks := strconv.Itoa(i)
	switch op {
	case 0:
		x := genString(r)
		if byKey {
			v.SetKeyString(ks, x)
		} else {
			v.SetIndexString(i, x)
		}
		put(nStr(x))
		return fmt.Sprintf("SetIndexString(%d,%q) key=%v", i, x, byKey)
	case 1:
		x := genInt(r)
		if byKey {
			v.SetKeyInt(ks, x)
		} else {
			v.SetIndexInt(i, x)
		}
		put(nInt(x))
		return fmt.Sprintf("SetIndexInt(%d,%d) key=%v", i, x, byKey)
	case 2:
		x := genFloat(r, false)
		if byKey {
			v.SetKeyDouble(ks, x)
		} else {
			v.SetIndexDouble(i, x)
		}
		put(nDbl(x))
		return fmt.Sprintf("SetIndexDouble(%d,%v) key=%v", i, x, byKey)
	case 3:
		x := genFloat32(r, false)
		if byKey {
			v.SetKeyFloat(ks, x)
		} else {
			v.SetIndexFloat(i, x)
		}
		put(nFlt(x))
		return fmt.Sprintf("SetIndexFloat(%d,%v) key=%v", i, x, byKey)
	case 4:
		x := r.IntN(2) == 0
		if byKey {
			v.SetKeyBool(ks, x)
		} else {
			v.SetIndexBool(i, x)
		}
		put(nBool(x))
		return fmt.Sprintf("SetIndexBool(%d,%v) key=%v", i, x, byKey)
	case 5:
		t := time.Unix(31536000+r.Int64N(6e9), 0).UTC()
		if byKey {
			v.SetKeyTime(ks, t)
		} else {
			v.SetIndexTime(i, t)
		}
		put(&N{K: KTime, F: dayOf(t)})
		return fmt.Sprintf("SetIndexTime(%d,%v) key=%v", i, t, byKey)
	case 6, 7:
		kd := e.anyType()
		var x *dx.DxValue
		switch {
		case byKey:
			x = v.SetKey(ks, kindType[kd])
		case op == 6:
			x = v.SetIndex(i, kindType[kd])
		default:
			x = v.SetIndexCached(i, kindType[kd], v.ValueCache())
		}
		at := i
		if i < 0 || i >= l {
			n.C = append(n.C, zero(kd))
			at = l
		} else {
			turn(n.C[i], kd)
		}
		if x != v.ValueByIndex(at) {
			e.c.Failf("SetIndex(%d) returns another node than the element", i)
		}
		return fmt.Sprintf("SetIndex(%d,%v) key=%v", i, kd, byKey) + e.use(x, n.C[at])
	case 8:
		x := e.subtree()
		fill(r, v.SetIndex(i, kindType[x.K]), x)
		put(x)
		return fmt.Sprintf("SetIndex(%d) filled with %s", i, x.dump())
	case 9:
		x := e.subtree()
		nv := e.fresh(x)
		if byKey {
			v.SetKeyValue(ks, nv)
		} else {
			v.SetIndexValue(i, nv)
		}
		put(x)
		return fmt.Sprintf("SetIndexValue(%d,%s) key=%v", i, x.dump(), byKey) + e.through(nv, x)
	case 10:
		v.SetIndexValue(i, nil)
		put(nNull())
		return fmt.Sprintf("SetIndexValue(%d,nil)", i)
	case 11, 12, 13:
		x := e.subtree()
		empty := r.IntN(4) == 0
		if empty {
			x = zero(e.anyType())
		}
		nv := v.InsertValue(i, kindType[x.K])
		at := i
		if at < 0 {
			at = 0
		}
		if at > l {
			at = l
		}
		if nv != v.ValueByIndex(at) {
			e.c.Failf("InsertValue(%d) returns another node than element %d", i, at)
		}
		if !empty {
			fill(r, nv, x)
		}
		n.C = append(n.C[:at:at], append([]*N{x}, n.C[at:]...)...)
		return fmt.Sprintf("InsertValue(%d) filled with %s", i, x.dump()) + e.use(nv, x)
	case 14:
		if r.IntN(4) == 0 {
			x := zero(e.anyType())
			nv := v.Append(kindType[x.K])
			n.C = append(n.C, x)
			return "Append " + x.K.String() + e.use(nv, x)
		}
		x := e.subtree()
		fill(r, v.Append(kindType[x.K]), x)
		n.C = append(n.C, x)
		return "Append " + x.dump()
	case 15, 16, 17:
		v.RemoveIndex(i)
		if i >= 0 && i < l {
			n.C = append(n.C[:i:i], n.C[i+1:]...)
		}
		return fmt.Sprintf("RemoveIndex(%d)", i)
	case 18:
		for j := 3 + r.IntN(14); j > 0; j-- {
			v.SetIndexInt(-1, int64(j))
			n.C = append(n.C, nInt(int64(j)))
		}
		return "many elements"
	case 19:
		x := e.scalar()
		if r.IntN(2) == 0 {
			x = e.subtree()
		}
		if g, ok := goTree(r, x); ok && (i < 0 || i >= l || n.C[i].K != KTime) {
			v.SetIndexvalue(i, g, v.ValueCache())
			if i < 0 || i >= l {
				n.C = append(n.C, x)
			} else {
				e.swap(n, i, x)
			}
			return fmt.Sprintf("SetIndexvalue(%d,%s)", i, x.dump())
		}
		return "-"
	case 20:
		v.RemoveKey("0") // concerns objects only
		if v.ExtractValue("0") != nil {
			e.c.Failf("ExtractValue gives something on an array")
		}
		return "key removal on an array"
	}
	if l > 0 && r.IntN(3) > 0 {
		j := r.IntN(l)
		return e.inPlace(place{v: v.ValueByIndex(j), n: n.C[j], hot: p.hot || e.hot[n]})
	}
	return e.wipe(p)
}

var editDiff = diffOpt{TimeTol: 0.01 * msDays}

func (e *editor) check(p place) {
	if d := diff(e.m, snap(e.root), editDiff); d != "" {
		e.c.Failf("after %s: %s", e.log[len(e.log)-1], d)
	}
	if d := accessors(p.v, p.n); d != "" {
		e.c.Failf("after %s: %s", e.log[len(e.log)-1], d)
	}
	for _, k := range e.kept {
		if d := diff(k.n, snap(k.v), editDiff); d != "" {
			e.c.Failf("after %s: a value extracted earlier changed: %s", e.log[len(e.log)-1], d)
		}
	}
	e.c.Ev("states compared", 1)
}

func editPool(fold bool) func(r *rand.Rand) string {
	return func(r *rand.Rand) string {
		switch r.IntN(4) {
		case 0:
			return []string{"a", "b", "c", "d", "e", "f", "A", "B", "key", "Key", "KEY"}[r.IntN(11)]
		case 1:
			return genKey(r)
		case 2:
			return []string{"", "a\\nb", "a\nb", "q\"q", "é", "中", "😀", "a/b", "\\u0061", "a\\", "x\ty", "0", "1", "10", "a.b", " "}[r.IntN(16)]
		}
		return "k" + strconv.Itoa(r.IntN(30))
	}
}

// drain grows one container far and empties it again, twice.
func bigList(c *C) {
	r := c.R
	v := dx.NewArray(r.IntN(2) == 0)
	var want []int64
	size := []int{1000, 3000, 9000, 40000}[r.IntN(4)] + r.IntN(1000)
	if r.IntN(2) == 0 {
		b := []byte{'['}
		for i := 0; i < size; i++ {
			if i > 0 {
				b = append(b, ',')
			}
			b = strconv.AppendInt(b, int64(i), 10)
			want = append(want, int64(i))
		}
		if err := v.LoadFromJson(append(b, ']'), false); err != nil {
			c.Failf("a list of %d numbers: %v", size, err)
		}
	} else {
		for i := 0; i < size; i++ {
			v.SetIndexInt(i, int64(i))
			want = append(want, int64(i))
		}
	}
	var log []string
	c.Describe(func() string { return fmt.Sprintf("a list of %d numbers: %s", size, strings.Join(log, ", ")) })
	for k := 0; k < 12; k++ {
		l := len(want)
		at := []int{0, r.IntN(20), r.IntN(l), l / 2, l - 1, l - 1 - r.IntN(20)}[r.IntN(6)]
		x := int64(-1 - k)
		switch r.IntN(4) {
		case 0:
			log = append(log, fmt.Sprintf("remove %d", at))
			v.RemoveIndex(at)
			want = append(want[:at:at], want[at+1:]...)
		case 1:
			log = append(log, fmt.Sprintf("set %d", at))
			v.SetIndexInt(at, x)
			want[at] = x
		default:
			log = append(log, fmt.Sprintf("insert at %d", at))
			v.InsertValue(at, dx.VT_Int).SetInt(x)
			want = append(want[:at:at], append([]int64{x}, want[at:]...)...)
		}
		if v.Count() != len(want) {
			c.Failf("%d elements after %s, expected %d", v.Count(), log[k], len(want))
		}
		for i := range want {
			if e := v.ValueByIndex(i); e == nil || e.DataType != dx.VT_Int || e.Int() != want[i] {
				c.Failf("element %d after %s is %v, expected %d", i, log[k], e, want[i])
			}
		}
	}
	c.Ev("operations on long lists", 12)
	c.NonTrivial(size, strings.Join(log, ","))
}

func drain(c *C, obj bool) {
	r := c.R
	root := KArr
	if obj {
		root = KObj
	}
	v, n := dx.NewValue(kindType[root]), &N{K: root}
	if r.IntN(2) == 0 {
		v = fresh(r, n, r.IntN(2) == 0)
	}
	e := &editor{c: c, r: r, root: v, m: n}
	size := 1 + r.IntN([]int{20, 80, 300}[r.IntN(3)])
	how := r.IntN(4)
	c.Describe(func() string { return fmt.Sprintf("object=%v size=%d removal=%d at %d", obj, size, how, len(n.C)) })
	serial := 0
	for round := 0; round < 2; round++ {
		for len(n.C) < size {
			serial++
			x := nInt(int64(serial))
			if r.IntN(3) == 0 {
				x = nStr("s" + strconv.Itoa(serial))
			}
			switch {
			case obj:
				k := "k" + strconv.Itoa(serial)
				fill(r, v.SetKey(k, kindType[x.K]), x)
				n.add(k, x)
			case r.IntN(4) == 0:
				at := r.IntN(len(n.C) + 1)
				fill(r, v.InsertValue(at, kindType[x.K]), x)
				n.C = append(n.C[:at:at], append([]*N{x}, n.C[at:]...)...)
			default:
				fill(r, v.Append(kindType[x.K]), x)
				n.C = append(n.C, x)
			}
		}
		e.logf("grown to %d", len(n.C))
		e.check(place{v: v, n: n})
		keep := 0
		if r.IntN(2) == 0 {
			keep = r.IntN(size)
		}
		for len(n.C) > keep {
			l := len(n.C)
			at := []int{0, l - 1, r.IntN(l), l / 2}[how]
			if obj {
				v.RemoveKey(n.Keys[at])
				n.Keys = append(n.Keys[:at:at], n.Keys[at+1:]...)
			} else {
				v.RemoveIndex(at)
			}
			n.C = append(n.C[:at:at], n.C[at+1:]...)
			e.logf("removal at %d of %d", at, l)
			if v.Count() != l-1 {
				c.Failf("%d entries after removing one of %d", v.Count(), l)
			}
			if size < 40 || r.IntN(8) == 0 {
				if d := diff(n, snap(v), diffOpt{}); d != "" {
					c.Failf("after %s: %s", e.log[len(e.log)-1], d)
				}
			}
			c.Ev("removals watched", 1)
		}
		e.check(place{v: v, n: n})
		if r.IntN(3) == 0 {
			v.Clear()
			n.Keys, n.C = nil, nil
		}
	}
	c.NonTrivial(obj, size, how, n.dump())
}

// history runs a random editing history.
func history(c *C, obj, fold bool, steps int) {
	r := c.R
	dx.IgnoreCase = fold
	defer func() { dx.IgnoreCase = false }()
	e := &editor{c: c, r: r, fold: fold, kinds: allKinds, keyed: editPool(fold)}
	root := KObj
	if !obj && r.IntN(2) == 0 {
		root = KArr
	}
	origin := ""
	switch r.IntN(4) {
	case 0:
		e.cached = r.IntN(2) == 0
		e.m = &N{K: root}
		if root == KObj {
			e.root = dx.NewObject(e.cached)
		} else {
			e.root = dx.NewArray(e.cached)
		}
		origin = "empty"
	case 1:
		e.m = genTree(r, treeOpt{Root: int(root), Kinds: allKinds, Budget: 12, Key: e.keyed, FoldKeys: fold})
		e.cached = true // some nodes may come from a cache
		e.root, origin = made(r, e.m, false)
	default:
		o := treeOpt{Root: int(root), Kinds: []Kind{KStr, KInt, KNull, KTrue, KFalse}, Str: jsonStr, Budget: 12, Key: e.keyed, FoldKeys: fold}
		e.m = genTree(r, o)
		if r.IntN(12) == 0 && e.m.count() < 100 {
			widen(r, e.m, &o, 15+r.IntN([]int{60, 200}[r.IntN(2)]))
		}
		e.cached = true
		if root == KObj && r.IntN(2) == 0 {
			e.cached = false
			origin = "NewValueFromJson, uncached"
			v, err := dx.NewValueFromJson(writeJSON(r, e.m, genStyle(r)), false, false)
			if err != nil {
				c.Failf("refused: %v", err)
			}
			e.root = v
		} else {
			e.root, origin = made(r, e.m, true)
		}
	}
	if !obj {
		e.m = &N{K: KObj, Keys: []string{"arr", "other"}, C: []*N{e.m, nStr("untouched")}}
		o := dx.NewObject(false)
		o.SetKeyValue("arr", e.root)
		o.SetKeyString("other", "untouched")
		e.root = o
	}
	start := e.m.clone()
	limit := start.count() + 200
	sparse := []int{1, 1, 4, 12}[r.IntN(4)] // comparing reads the tree; rarely done, undecoded text and keys live longer
	c.Describe(func() string {
		return fmt.Sprintf("fold=%v origin=%s start=%s\n%s", fold, origin, clip(start.dump(), 2000), strings.Join(e.log, "\n"))
	})
	want := isArr
	if obj {
		want = isObj
	}
	for s := 0; s < steps; s++ {
		ps := places(e.root, e.m, want)
		if len(ps) == 0 {
			if obj {
				e.root.Reset(dx.VT_Object)
				*e.m = N{K: KObj}
			} else {
				e.root.SetKey("arr", dx.VT_Array)
				e.put(e.m, "arr", zero(KArr))
			}
			continue
		}
		p := ps[0]
		if r.IntN(3) == 0 {
			p = ps[r.IntN(len(ps))]
		}
		p.hot = e.hot != nil && below(e.m, p.n, e.hot)
		e.log = append(e.log, "pending")
		var what string
		if obj {
			if r.IntN(3) == 0 {
				e.look(p)
			}
			what = e.objectOp(p)
		} else {
			what = e.arrayOp(p)
		}
		e.log = e.log[:len(e.log)-1]
		e.logf("%s", what)
		if r.IntN(sparse) == 0 {
			e.check(p)
		}
		if e.m.count() > limit {
			break
		}
	}
	if len(e.log) > 0 {
		e.check(place{v: e.root, n: e.m})
	}
	c.Ev("operations applied", int64(len(e.log)))
	c.Ev("extracted values watched", int64(len(e.kept)))
	c.NonTrivial(start.dump(), strings.Join(e.log, "\n"))
}

// ---------------------------------------------------------------------------------------------
// paths

func stepModel(n *N, key string) *N {
	switch n.K {
	case KObj:
		if i := n.idx(key); i >= 0 {
			return n.C[i]
		}
	case KArr:
		if i, err := strconv.Atoi(key); err == nil && i >= 0 && i < len(n.C) && strconv.Itoa(i) == key {
			return n.C[i]
		}
	}
	return nil
}

func pathModel(n *N, path []string) *N {
	for _, k := range path {
		if n = stepModel(n, k); n == nil {
			return nil
		}
	}
	return n
}

// randPath makes a path: mostly existing, sometimes leaving the tree.
func randPath(r *rand.Rand, n *N) []string {
	var p []string
	l, leave := r.IntN(6), 8
	if r.IntN(6) == 0 {
		l, leave = r.IntN(60), 100
	}
	for ; l > 0; l-- {
		if n != nil && len(n.C) > 0 && r.IntN(leave) > 0 {
			i := r.IntN(len(n.C))
			for try := 0; try < 8 && leave > 8 && n.C[i].K > KArr; try++ { // go deep
				i = r.IntN(len(n.C))
			}
			if n.K == KObj {
				p = append(p, n.Keys[i])
			} else {
				p = append(p, strconv.Itoa(i))
			}
			n = n.C[i]
			continue
		}
		k := []string{"missing", "a", "0", "1", "7", "-1", "-2", "-" + strconv.Itoa(1+r.IntN(9)), "", "x y", "a\\nb", "99999999999999999999", "1x", "中"}[r.IntN(14)]
		if r.IntN(3) == 0 { // an index whose low bits are a small number
			x := []uint64{1 << 8, 1 << 16, 1 << 31, 1 << 32, 1 << 33, 1 << 63, 1 << 62, 3 << 8, 5 << 16}[r.IntN(9)] + uint64(r.IntN(3))
			k = strconv.FormatUint(x, 10)
			if r.IntN(4) == 0 {
				k = "-" + k
			}
		}
		p = append(p, k)
		if n != nil {
			n = stepModel(n, p[len(p)-1])
		}
	}
	return p
}

// sameText compares two texts of a node; the JSON text of a container may spell characters differently
// (a string that was not read yet keeps the escapes of its source).
func sameText(v *dx.DxValue, a, b string) bool {
	if v == nil || v.DataType > dx.VT_Array || a == b {
		return a == b
	}
	x, e1 := stdJSON([]byte(a))
	y, e2 := stdJSON([]byte(b))
	return e1 == nil && e2 == nil && diff(x, y, diffOpt{}) == ""
}

func checkLookups(c *C, v *dx.DxValue, n *N, path []string) {
	got, want := v.ValueByPath(path...), pathModel(n, path)
	if (got == nil) != (want == nil) {
		c.Failf("path %q: node found: %v, expected %v", path, got != nil, want != nil)
	}
	// stepping by hand reaches the same node
	x := v
	for _, k := range path {
		if x == nil {
			break
		}
		x = x.ValueByName(k)
	}
	if x != got {
		c.Failf("path %q: stepping by name reaches another node", path)
	}
	c.Ev("paths looked up", 1)
	ds, db, di, df, dd := "def", c.R.IntN(2) == 0, int64(-77), float32(-7.5), -7.25
	if c.R.IntN(4) == 0 {
		ds, di, df, dd = genString(c.R), genInt(c.R), float32(c.R.IntN(1000)), float64(c.R.IntN(100000))/8
	}
	ddur := 77 * time.Second
	dt := time.Date(2001, 2, 3, 4, 5, 6, 0, time.UTC)
	s, b, i, f, d := v.StringByPath(ds, path...), v.BoolByPath(db, path...), v.IntByPath(di, path...), v.FloatByPath(df, path...), v.DoubleByPath(dd, path...)
	dur, gt, delphi := v.DurationByPath(ddur, path...), v.GoTimeByPath(dt, path...), v.DateTimeByPath(-5, path...)
	if got == nil {
		if s != ds || b != db || i != di || f != df || d != dd || dur != ddur || !gt.Equal(dt) || delphi != -5 {
			c.Failf("path %q does not exist, but a typed look-up gives another value than the default: %q %v %v %v %v %v %v %v", path, s, b, i, f, d, dur, gt, delphi)
		}
		c.Ev("missing paths", 1)
	} else {
		if d := diff(want, snap(got), diffOpt{}); d != "" {
			c.Failf("path %q: %s", path, d)
		}
		if !sameText(got, s, got.String()) || b != got.Bool() || i != got.Int() || !sameFloat(float64(f), float64(got.Float())) || !sameFloat(d, got.Double()) ||
			dur != got.Duration(ddur) || !gt.Equal(got.GoTime()) || delphi != got.DateTime() {
			c.Failf("path %q: a typed look-up differs from the node's own value: %q %v %v %v %v %v %v %v / %q %v %v %v %v %v %v %v", path, s, b, i, f, d, dur, gt, delphi,
				got.String(), got.Bool(), got.Int(), got.Float(), got.Double(), got.Duration(ddur), got.GoTime(), got.DateTime())
		}
		checkReads(c, got, want, fmt.Sprintf("path %q", path))
		c.Ev("existing paths", 1)
	}
	if len(path) != 1 {
		return
	}
	k := path[0]
	if !sameText(got, v.StringByName(k, ds), s) || !sameText(got, v.AsString(k, ds), s) || v.BoolByName(k, db) != b || v.AsBool(k, db) != b ||
		v.IntByName(k, int(di)) != int(i) || v.AsInt(k, int(di)) != int(i) || v.AsInt64(k, di) != i ||
		!sameFloat(float64(v.FloatByName(k, df)), float64(f)) || !sameFloat(float64(v.AsFloat(k, df)), float64(f)) || !sameFloat(v.DoubleByName(k, dd), d) || !sameFloat(v.AsDouble(k, dd), d) ||
		v.DurationByName(ddur, k) != dur || v.AsDuration(ddur, k) != dur || !v.TimeByName(k, dt).Equal(gt) || v.AsDateTime(k, -5) != delphi {
		c.Failf("name %q: a look-up by name differs from the look-up by path", k)
	}
	if v.ValueByName(k) != got || v.Find(k) != got {
		c.Failf("name %q: ValueByName or Find differs", k)
	}
}

func checkIndexLookups(c *C, v *dx.DxValue, n *N) {
	for _, i := range []int{-1, 0, 1, c.R.IntN(len(n.C) + 1), c.R.IntN(len(n.C) + 1), len(n.C) - 1, len(n.C), len(n.C) + 3, math.MaxInt32, math.MinInt32} {
		var want *N
		if i >= 0 && i < len(n.C) {
			want = n.C[i]
		}
		x := v.ValueByIndex(i)
		if (x == nil) != (want == nil) {
			c.Failf("index %d of %d: found %v", i, len(n.C), x != nil)
		}
		s, b, k, f, d := v.StringByIndex(i, "def"), v.BoolByIndex(i, true), v.IntByIndex(i, -77), v.FloatByIndex(i, -7.5), v.DoubleByIndex(i, -7.25)
		if x == nil {
			if s != "def" || !b || k != -77 || f != -7.5 || d != -7.25 {
				c.Failf("index %d of %d does not exist, but a typed look-up gives %q %v %v %v %v", i, len(n.C), s, b, k, f, d)
			}
			continue
		}
		if !sameText(x, s, x.String()) || b != x.Bool() || k != int(x.Int()) || !sameFloat(float64(f), float64(x.Float())) || !sameFloat(d, x.Double()) {
			c.Failf("index %d: a typed look-up differs from the element's own value", i)
		}
	}
}

// forceModel is what ForcePath makes of the tree; ok is false outside the domain.
func forceModel(n *N, k Kind, path []string) (target *N, ok bool) {
	if len(path) == 0 {
		return n, true
	}
	for i, key := range path {
		last := i == len(path)-1
		want := KObj
		if last {
			want = k
		}
		if n.K != KObj && n.K != KArr {
			*n = N{K: KObj}
		}
		var next *N
		if n.K == KArr {
			ix, err := strconv.Atoi(key)
			if err != nil || ix < 0 || ix > len(n.C) || strconv.Itoa(ix) != key {
				return nil, false
			}
			if ix == len(n.C) {
				next = zero(want)
				n.C = append(n.C, next)
			} else {
				next = n.C[ix]
			}
		} else {
			j := n.idx(key)
			if j < 0 {
				next = zero(want)
				n.add(key, next)
			} else {
				next = n.C[j]
			}
		}
		if last {
			turn(next, k)
		} else if next.K != KObj && next.K != KArr {
			*next = N{K: KObj}
		}
		n = next
	}
	return n, true
}

// ---------------------------------------------------------------------------------------------
// scalars

// checkReads judges every typed read of a node by the model.
func checkReads(c *C, v *dx.DxValue, n *N, what string) {
	bad := func(read string, got, want interface{}) {
		c.Failf("%s: %s of %s gives %v, expected %v", what, read, n.dump(), got, want)
	}
	wi, wd, wb := int64(0), 0.0, false
	checkInt, checkDbl, checkFlt := true, true, true
	switch n.K {
	case KInt:
		wi, wd, wb = n.I, float64(n.I), n.I > 0
		if f := v.Float(); f != float32(n.I) {
			bad("Float", f, float32(n.I))
		}
		checkFlt = false
	case KFlt, KDbl, KTime:
		wd, wb = n.F, n.F > 0
		if math.Abs(n.F) < 9e18 {
			wi = int64(n.F)
		} else {
			checkInt = false
		}
	case KTrue:
		wi, wd, wb = 1, 1, true
	case KStr:
		wb = strings.EqualFold(n.S, "true")
		if i, err := strconv.ParseInt(n.S, 10, 64); err == nil && !strings.HasPrefix(n.S, "+") {
			wi = i
		} else if strings.ContainsAny(n.S, "0123456789") {
			checkInt = false
		}
		if f, err := strconv.ParseFloat(n.S, 64); err == nil {
			wd = f
		} else if strings.ContainsAny(n.S, "0123456789") || strings.Contains(strings.ToLower(n.S), "in") {
			checkDbl, checkFlt = false, false
		}
	}
	// any of the reads may be the first one after decoding, when a text may still hold its escapes
	reads := []func(){func() {
		if !checkInt {
			return
		}
		if i := v.Int(); i != wi {
			bad("Int", i, wi)
		}
	}, func() {
		if !checkDbl {
			return
		}
		if d := v.Double(); !sameFloat(d, wd) {
			bad("Double", d, wd)
		}
	}, func() {
		if !checkFlt || !checkDbl {
			return
		}
		if f := v.Float(); !sameFloat(float64(f), float64(float32(wd))) {
			bad("Float", f, float32(wd))
		}
	}, func() {
		if b := v.Bool(); b != wb {
			bad("Bool", b, wb)
		}
	}, func() {
		if n.K != KStr {
			return
		}
		if d, err := time.ParseDuration(n.S); err == nil {
			if got := v.Duration(-3); got != d {
				bad("Duration", got, d)
			}
		} else if got := v.Duration(-3); got != -3 {
			bad("Duration", got, "the default")
		}
	}, func() {
		if s := v.String(); n.K == KStr && s != n.S {
			bad("String", strconv.Quote(s), strconv.Quote(n.S))
		}
	}}
	c.R.Shuffle(len(reads), func(i, j int) { reads[i], reads[j] = reads[j], reads[i] })
	for _, f := range reads {
		f()
	}
	s := v.String()
	switch n.K {
	case KInt:
		if s != strconv.FormatInt(n.I, 10) {
			bad("String", s, n.I)
		}
		if got := v.Duration(-3); got != time.Duration(n.I) {
			bad("Duration", got, n.I)
		}
	case KFlt, KDbl:
		if f, err := strconv.ParseFloat(s, 64); !math.IsInf(n.F, 0) && (err != nil || !sameFloat(f, n.F)) {
			bad("String", s, n.F)
		}
	case KTrue, KFalse:
		if s != n.K.String() {
			bad("String", s, n.K)
		}
	case KNull:
		if s != "null" {
			bad("String", s, "null")
		}
	case KBin, KExt:
		if string(v.Binary()) != string(n.B) || v.BinLen() != len(n.B) {
			bad("Binary", fmt.Sprintf("%x", v.Binary()), fmt.Sprintf("%x", n.B))
		}
		if n.K == KExt && v.BinExtType() != n.X {
			bad("BinExtType", v.BinExtType(), n.X)
		}
	}
	if n.K != KBin && n.K != KExt && (v.Binary() != nil || v.BinLen() != 0) {
		bad("Binary", v.Binary(), nil)
	}
	if v.Type() != v.DataType {
		bad("Type", v.Type(), v.DataType)
	}
	c.Ev("nodes read in every type", 1)
}

func scalarText(r *rand.Rand) string {
	switch r.IntN(8) {
	case 0:
		return []string{"true", "TRUE", "True", "tRuE", "false", "FALSE", "truex", " true", "1", "0", "yes", ""}[r.IntN(12)]
	case 1:
		return strconv.FormatInt(genInt(r), 10)
	case 2:
		return strconv.FormatFloat(genFloat(r, false), []byte{'g', 'f', 'e'}[r.IntN(3)], -1, 64)
	case 3:
		return time.Duration(r.Int64N(1e15)).String()
	case 4:
		return strconv.FormatFloat(float64(r.IntN(100000))/1000, 'f', 3, 64)
	}
	return genString(r)
}

// setScalar sets a scalar on v by one of the setters and tells what the node must be.
func setScalar(r *rand.Rand, v *dx.DxValue) (*N, string) {
	prev := v.DataType
	switch r.IntN(12) {
	case 0:
		s := scalarText(r)
		v.SetString(s)
		return nStr(s), fmt.Sprintf("SetString(%q)", s)
	case 1, 2:
		i := genInt(r)
		v.SetInt(i)
		return nInt(i), fmt.Sprintf("SetInt(%d)", i)
	case 3:
		f := genFloat(r, true)
		v.SetDouble(f)
		if prev == dx.VT_DateTime {
			return &N{K: KTime, F: f}, fmt.Sprintf("SetDouble(%v) on a date-time", f)
		}
		return nDbl(f), fmt.Sprintf("SetDouble(%v)", f)
	case 4:
		f := genFloat32(r, true)
		v.SetFloat(f)
		return nFlt(f), fmt.Sprintf("SetFloat(%v)", f)
	case 5:
		b := r.IntN(2) == 0
		v.SetBool(b)
		return nBool(b), fmt.Sprintf("SetBool(%v)", b)
	case 6:
		t := time.Unix(31536000+r.Int64N(6e9), r.Int64N(1000)*1e6).UTC()
		v.SetTime(t)
		if prev == dx.VT_Double {
			return nDbl(v.Double()), "SetTime on a double"
		}
		return &N{K: KTime, F: v.Double()}, "SetTime"
	case 7:
		d := genDay(r)
		v.SetDelphiTime(dxTime(d))
		if prev == dx.VT_Double {
			return nDbl(d), "SetDelphiTime on a double"
		}
		return &N{K: KTime, F: d}, fmt.Sprintf("SetDelphiTime(%v)", d)
	case 8:
		b := genBytes(r)
		v.Reset(dx.VT_Binary)
		v.SetBinary(b, r.IntN(2) == 0)
		return nBin(b), fmt.Sprintf("SetBinary(%x)", b)
	case 9:
		b, t := genBytes(r), byte(r.IntN(256))
		v.Reset(dx.VT_ExBinary)
		v.SetExtType(t)
		v.SetBinary(b, r.IntN(2) == 0)
		if r.IntN(2) == 0 {
			t = byte(r.IntN(256))
			v.SetExtType(t)
		}
		return nExt(t, b), fmt.Sprintf("ext %d %x", t, b)
	case 10:
		k := []Kind{KNull, KTrue, KFalse, KNaN, KInf, KObj, KArr, KStr, KInt, KFlt, KDbl, KTime, KBin}[r.IntN(13)]
		v.Reset(kindType[k])
		return zero(k), "Reset " + k.String()
	}
	s := scalarText(r)
	var g interface{}
	var n *N
	switch r.IntN(5) {
	case 0:
		g, n = s, nStr(s)
	case 1:
		i := genInt(r)
		g, n = i, nInt(i)
	case 2:
		f := genFloat(r, false)
		g, n = f, nDbl(f)
		if prev == dx.VT_DateTime {
			n.K = KTime
		}
	case 3:
		f := genFloat32(r, false)
		g, n = f, nFlt(f)
	default:
		b := genBytes(r)
		g, n = b, nBin(b)
	}
	v.SetValue(g)
	return n, fmt.Sprintf("SetValue(%v)", g)
}

func init() {
	register(&Prop{ID: "C12", Scale: 50,
		Rule:   "A case is a random history of key operations (typed setters, set by type, attach, nil, remove, extract, clear, reset, bulk growth, changes through entries) on objects of a tree that is empty, built, cloned or decoded (escaped keys, partly read), run in lockstep with an insertion-ordered reference map; after every operation the whole tree and every way of looking at the touched object is compared, and values extracted earlier are checked to stay as they were. Distinct = distinct histories.",
		Assume: []string{"values extracted from a cached tree are not watched after the tree is cleared"},
		Gens: []*Gen{
			{Name: "sensitive", Quick: 6000, Fn: func(c *C, i int) { history(c, true, false, 5+c.R.IntN(40)) }},
			{Name: "ignoreCase", Quick: 2500, Fn: func(c *C, i int) { history(c, true, true, 5+c.R.IntN(40)) }},
			{Name: "long", Quick: 60, Fn: func(c *C, i int) { history(c, true, i%3 == 0, 800) }},
			{Name: "wide", Quick: 40, Fn: func(c *C, i int) {
				// one object with many keys: set all, replace, remove at random, set again
				r := c.R
				v := dx.NewObject(i%2 == 0)
				n := nObj()
				e := &editor{c: c, r: r, root: v, m: n}
				total := 200 + r.IntN(600)
				c.Describe(func() string { return fmt.Sprintf("%d keys", total) })
				for s := 0; s < total*3; s++ {
					k := "key" + strconv.Itoa(r.IntN(total))
					if r.IntN(3) == 0 {
						v.RemoveKey(k)
						if j := n.idx(k); j >= 0 {
							n.Keys = append(n.Keys[:j], n.Keys[j+1:]...)
							n.C = append(n.C[:j], n.C[j+1:]...)
						}
					} else {
						v.SetKeyInt(k, int64(s))
						e.put(n, k, nInt(int64(s)))
					}
				}
				e.logf("wide")
				e.check(place{v: v, n: n})
				c.NonTrivial("wide", i, n.dump())
			}},
			{Name: "drain", Quick: 300, Fn: func(c *C, i int) { drain(c, true) }},
		}})
	register(&Prop{ID: "C13", Scale: 60,
		Rule: "A case is a random history of index operations (typed setters inside, at and past the end or negative, by index or numeric key, insert, append, remove, attach, nil, clear, bulk growth) on arrays of a tree of any origin, run in lockstep with a reference list; after every operation the whole tree and every way of looking at the touched array is compared. Distinct = distinct histories.",
		Gens: []*Gen{
			{Name: "histories", Quick: 8000, Fn: func(c *C, i int) { history(c, false, false, 5+c.R.IntN(40)) }},
			{Name: "long", Quick: 60, Fn: func(c *C, i int) { history(c, false, false, 800) }},
			{Name: "drain", Quick: 400, Fn: func(c *C, i int) { drain(c, false) }},
			{Name: "big", Quick: 24, Thorough: 300, Fn: func(c *C, i int) { bigList(c) }},
		}})
	register(&Prop{ID: "C14", Scale: 50,
		Rule:   "A case is a tree of any origin with random paths (existing, missing, through scalars, constants and arrays, numeric-looking keys). Every look-up by path, name and index in every type is compared with the reference walk and the defaults; ForcePath is compared with the reference effect on the whole tree. Distinct = distinct (tree, path) pairs.",
		Assume: []string{"a forced path steps through arrays by a decimal index not beyond their length"},
		Gens: []*Gen{
			{Name: "lookup", Quick: 9000, Fn: func(c *C, i int) {
				json := c.R.IntN(2) == 0
				o := treeOpt{Root: []int{0, 0, 1, -1}[c.R.IntN(4)], Kinds: allKinds, Str: func(r *rand.Rand) string { return scalarText(r) }}
				if json {
					o.Kinds = []Kind{KStr, KInt, KTrue, KFalse, KNull}
				}
				n := genTree(c.R, o)
				v, origin := made(c.R, n, json)
				var path []string
				c.Describe(func() string { return fmt.Sprintf("%s %q in %s", origin, path, n.dump()) })
				for k := 0; k < 6; k++ {
					path = randPath(c.R, n)
					c.NonTrivial(n.dump(), fmt.Sprint(path))
					checkLookups(c, v, n, path)
				}
				every := places(v, n, func(x *N) bool { return len(x.C) > 0 })
				for _, p := range every {
					if c.R.IntN(max(3, len(every)/8)) == 0 {
						checkIndexLookups(c, p.v, p.n)
						checkLookups(c, p.v, p.n, randPath(c.R, p.n)[:0:0])
						if p.n.K == KObj {
							checkLookups(c, p.v, p.n, p.n.Keys[c.R.IntN(len(p.n.Keys)):][:1])
						}
						checkLookups(c, p.v, p.n, []string{[]string{"missing", "0", "1", "-1", "", "-" + strconv.Itoa(1+c.R.IntN(max(1, len(p.n.C))))}[c.R.IntN(6)]})
					}
				}
				if d := diff(n, snap(v), diffOpt{}); d != "" {
					c.Failf("look-ups changed the tree: %s", d)
				}
				var null *dx.DxValue
				if null.ValueByPath("a", "b") != nil || null.StringByPath("d", "a") != "d" {
					c.Failf("path look-up on a nil value")
				}
			}},
			{Name: "force", Quick: 12000, Fn: func(c *C, i int) {
				json := c.R.IntN(2) == 0
				o := treeOpt{Root: []int{0, 0, 1, -1}[c.R.IntN(4)], Kinds: allKinds}
				if json {
					o.Kinds = []Kind{KStr, KInt, KTrue, KFalse, KNull}
					o.Str = jsonStr
				}
				n := genTree(c.R, o)
				v, origin := made(c.R, n, json)
				if v.ReadOnly() {
					return
				}
				path := randPath(c.R, n)
				kind := (&editor{r: c.R}).anyType()
				want := n.clone()
				target, ok := forceModel(want, kind, path)
				c.Describe(func() string { return fmt.Sprintf("%s force %v at %q in %s", origin, kind, path, n.dump()) })
				if !ok {
					return
				}
				c.NonTrivial(n.dump(), fmt.Sprint(path), int(kind))
				got := v.ForcePath(kindType[kind], path...)
				if got == nil {
					c.Failf("ForcePath returns nothing")
				}
				c.same("tree after ForcePath", want, v, diffOpt{})
				if v.ValueByPath(path...) != got {
					c.Failf("ForcePath returns another node than the path leads to")
				}
				if len(path) > 0 { // the node takes a value
					fill(c.R, got, nStr("new value"))
					*target = *nStr("new value")
					c.same("tree after setting the forced node", want, v, diffOpt{})
				}
				c.Ev("paths forced", 1)
			}},
		}})
	register(&Prop{ID: "C15", Scale: 150,
		Rule:   "A case is a node in some previous state (fresh, recycled, cleared, loaded, element or entry) that takes a sequence of scalars through every setter; after each one its type, its own value and every cross-type read are compared with the reference conversions. Distinct = distinct (history) cases.",
		Assume: []string{"setting a plain number on a date-time (and a time on a double) keeps the node's type", "Int of text is defined for integer text", "float to integer within int64"},
		Gens: []*Gen{
			{Name: "sequences", Quick: 12000, Fn: func(c *C, i int) {
				v, from := prevValue(c.R, c.R.IntN(2) == 0)
				var log []string
				c.Describe(func() string { return "from " + from + ": " + strings.Join(log, ", ") })
				if v.ReadOnly() {
					return
				}
				for k := 1 + c.R.IntN(8); k > 0; k-- {
					n, how := setScalar(c.R, v)
					log = append(log, how)
					if d := diff(n, snap(v), diffOpt{}); d != "" {
						c.Failf("after %s: %s", how, d)
					}
					checkReads(c, v, n, "after "+how)
				}
				c.NonTrivial(from, strings.Join(log, ","))
			}},
			{Name: "decoded", Quick: 6000, Fn: func(c *C, i int) {
				// scalars as they come out of the decoders
				s := scalarText(c.R)
				for dateDialect(s) {
					s = scalarText(c.R)
				}
				n := nArr(nStr(s), nInt(genInt(c.R)), nBool(c.R.IntN(2) == 0), nNull(), nStr(scalarText(c.R)), nStr(strconv.FormatInt(genInt(c.R), 10)))
				if dateDialect(n.C[4].S) {
					n.C[4].S = "x"
				}
				v, origin := made(c.R, n, true)
				c.Describe(func() string { return origin + " " + n.dump() })
				c.NonTrivial(n.dump())
				for k := range n.C {
					checkReads(c, v.ValueByIndex(k), n.C[k], fmt.Sprint(origin, " element ", k))
				}
				c.same("after reading", n, v, diffOpt{})
			}},
			{Name: "container", Quick: 6000, Fn: func(c *C, i int) {
				// setters of the container on entries of any previous type
				v := fresh(c.R, nObj().add("k", genTree(c.R, treeOpt{Root: -1, Kinds: allKinds, Budget: 4})), c.R.IntN(2) == 0)
				a := fresh(c.R, nArr(genTree(c.R, treeOpt{Root: -1, Kinds: allKinds, Budget: 4})), c.R.IntN(2) == 0)
				var log []string
				c.Describe(func() string { return strings.Join(log, ", ") })
				for k := 1 + c.R.IntN(6); k > 0; k-- {
					var n *N
					switch c.R.IntN(6) {
					case 0:
						s := scalarText(c.R)
						v.SetKeyString("k", s)
						a.SetIndexString(0, s)
						n = nStr(s)
					case 1:
						x := genInt(c.R)
						v.SetKeyInt("k", x)
						a.SetIndexInt(0, x)
						n = nInt(x)
					case 2:
						x := genFloat(c.R, true)
						v.SetKeyDouble("k", x)
						a.SetIndexDouble(0, x)
						n = nDbl(x)
					case 3:
						x := genFloat32(c.R, true)
						v.SetKeyFloat("k", x)
						a.SetIndexFloat(0, x)
						n = nFlt(x)
					case 4:
						x := c.R.IntN(2) == 0
						v.SetKeyBool("k", x)
						a.SetIndexBool(0, x)
						n = nBool(x)
					default:
						t := time.Unix(31536000+c.R.Int64N(6e9), 0).UTC()
						v.SetKeyTime("k", t)
						a.SetIndexTime(0, t)
						n = &N{K: KTime, F: dayOf(t)}
						if math.Abs(v.ValueByName("k").Double()-n.F) < 1.5*msDays && math.Abs(a.ValueByIndex(0).Double()-n.F) < 1.5*msDays {
							n.F = v.ValueByName("k").Double()
						}
					}
					log = append(log, n.dump())
					c.same("entry", nObj().add("k", n), v, diffOpt{TimeTol: 0.01 * msDays})
					c.same("element", nArr(n), a, diffOpt{TimeTol: 0.01 * msDays})
					checkReads(c, v.ValueByName("k"), n, "entry")
					if n.K != KTime {
						checkReads(c, a.ValueByIndex(0), n, "element")
					}
				}
				c.NonTrivial(strings.Join(log, ","))
			}},
		}})
}
