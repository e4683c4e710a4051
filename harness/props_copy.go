package main

import (
	"fmt"
	"math"
	"math/rand/v2"
	"strconv"
	"strings"

	dx "github.com/suiyunonghen/dxsvalue"
)

// step applies one random operation to a random container of the tree.
func (e *editor) step() string {
	ps := places(e.root, e.m, func(n *N) bool { return n.K == KObj || n.K == KArr })
	if len(ps) == 0 || e.r.IntN(12) == 0 {
		ps = places(e.root, e.m, func(n *N) bool { return true })
		return e.inPlace(ps[e.r.IntN(len(ps))])
	}
	p := ps[e.r.IntN(len(ps))]
	if e.r.IntN(2) == 0 {
		p = ps[0]
	}
	e.log = append(e.log, "pending")
	defer func() { e.log = e.log[:len(e.log)-1] }()
	if p.n.K == KObj {
		return e.objectOp(p)
	}
	return e.arrayOp(p)
}

func newEditor(c *C, v *dx.DxValue, n *N) *editor {
	return &editor{c: c, r: c.R, root: v, m: n, cached: true, noExt: true, kinds: allKinds, keyed: editPool(false)}
}

// binariesOf lists the byte slices of a tree.
func binariesOf(v *dx.DxValue, into [][]byte) [][]byte {
	if v == nil {
		return into
	}
	switch v.DataType {
	case dx.VT_Binary, dx.VT_ExBinary:
		if b := v.Binary(); len(b) > 0 {
			into = append(into, b)
		}
	case dx.VT_Object, dx.VT_Array:
		for i := 0; i < v.Count(); i++ {
			into = binariesOf(v.ValueByIndex(i), into)
		}
	}
	return into
}

// apart checks that two trees share no node and no bytes.
func (c *C) apart(what string, a, b *dx.DxValue) {
	m := map[*dx.DxValue]string{}
	if d := nodesOf(a, m, "first"); d != "" {
		c.Failf("%s: %s", what, d)
	}
	if d := nodesOf(b, m, "second"); d != "" {
		c.Failf("%s: %s", what, d)
	}
	c.Ev("node identities checked", int64(len(m)))
	y := binariesOf(b, nil)
	for _, p := range binariesOf(a, nil) {
		for _, q := range y {
			if overlaps(p, q) {
				c.Failf("%s: the trees share the bytes of a binary", what)
			}
		}
	}
}

// churn makes and frees cached values, so that recycled storage is reused.
func churn(r *rand.Rand, n int) {
	var held []*dx.DxValue
	for ; n > 0; n-- {
		k := []int{int(KObj), int(KArr)}[r.IntN(2)]
		v := fresh(r, genTree(r, treeOpt{Root: k, Kinds: allKinds, Budget: 5 + r.IntN(30)}), true)
		if r.IntN(3) == 0 {
			v, _ = dx.NewValueFromJson(writeJSON(r, genTree(r, treeOpt{Root: k, Budget: 5 + r.IntN(40)}), genStyle(r)), true, false)
		}
		held = append(held, v)
	}
	for _, v := range held {
		dx.FreeValue(v)
	}
}

// anyTree gives a tree of any origin, its model and a description.
func anyTree(r *rand.Rand) (*dx.DxValue, *N, string) {
	switch r.IntN(5) {
	case 0:
		n := genBSONTree(r, true)
		v, err := dx.NewValueFromBson(encBSON(r, n, nil), r.IntN(2) == 0, r.IntN(2) == 0)
		if err != nil {
			panic(failure{fmt.Sprintf("valid BSON refused: %v", err)})
		}
		return v, snap(v), "decoded bson"
	case 1, 2:
		n := genTree(r, treeOpt{Root: []int{0, 0, 1, 1, -1}[r.IntN(5)], Kinds: []Kind{KStr, KStr, KInt, KNull, KTrue, KFalse}, Str: jsonStr})
		v, o := made(r, n, true)
		return v, n, o
	case 3:
		text, n, y := genYAML(r, true, 20, 4)
		v, err := dx.NewValueFromYaml([]byte(text), r.IntN(2) == 0)
		if err != nil {
			panic(failure{fmt.Sprintf("valid YAML refused: %v: %q", err, text)})
		}
		if y.merged {
			n = snap(v)
		}
		return v, n, "decoded yaml"
	}
	n := genTree(r, treeOpt{Root: []int{0, 0, 1, 1, -1}[r.IntN(5)], Kinds: allKinds, NaNs: true, Wide: true})
	v, o := made(r, n, false)
	return v, n, o
}

// addModel is what AddFrom makes of the target.
func addModel(t, s *N) {
	if t.K != s.K {
		return
	}
	switch t.K {
	case KObj:
		for i, k := range s.Keys {
			if t.idx(k) < 0 {
				t.add(k, s.C[i].clone())
			}
		}
	case KArr:
		for _, x := range s.C {
			t.C = append(t.C, x.clone())
		}
	}
}

func copyCase(c *C) {
	r := c.R
	v, n, origin := anyTree(r)
	var w *dx.DxValue
	want := n.clone()
	how := ""
	switch r.IntN(4) {
	case 0:
		w, how = v.Clone(false), "Clone(false)"
	case 1:
		w, how = v.Clone(true), "Clone(true)"
	case 2:
		var from string
		w, from = prevValue(r, r.IntN(2) == 0)
		if w.ReadOnly() {
			w = &dx.DxValue{}
		}
		cache := w.ValueCache()
		if r.IntN(3) == 0 {
			cache = nil
		}
		w.CopyFrom(v, cache)
		how = "CopyFrom into " + from
	default:
		k := n.K
		if k != KObj && k != KArr {
			k = KObj
		}
		if r.IntN(8) == 0 {
			k = KObj
		}
		want = genTree(r, treeOpt{Root: int(k), Kinds: allKinds, Budget: 6, Key: func(r *rand.Rand) string {
			if len(n.Keys) > 0 && r.IntN(3) == 0 {
				return n.Keys[r.IntN(len(n.Keys))]
			}
			return genKey(r)
		}})
		if k == KObj && r.IntN(2) == 0 {
			for _, x := range want.C { // JSON-able, so that the target can hold undecoded keys
				*x = *nStr(genASCII(r, 3))
			}
			w, _ = made(r, want, true)
		} else {
			w, _ = made(r, want, false)
		}
		want = want.clone()
		addModel(want, n)
		cache := w.ValueCache()
		if r.IntN(3) == 0 {
			cache = nil
		}
		w.AddFrom(v, cache)
		how = "AddFrom"
	}
	c.Describe(func() string { return fmt.Sprintf("%s %s %s", how, origin, n.dump()) })
	c.NonTrivial(how, n.dump())
	c.same(how+": the copy", want, w, diffOpt{})
	c.same(how+": the source", n, v, diffOpt{})
	if d := accessors(w, want); d != "" {
		c.Failf("%s: the copy: %s", how, d)
	}
	c.apart(how, v, w)
	c.Ev("copies of "+origin, 1)
	// operations on one side are not seen on the other
	for round := 0; round < 2; round++ {
		a, an, b, bn := v, n, w, want
		if r.IntN(2) == 0 {
			a, an, b, bn = w, want, v, n
		}
		if !a.ReadOnly() {
			e := newEditor(c, a, an.clone())
			for k := 1 + r.IntN(12); k > 0; k-- {
				what := e.step()
				c.Ev("operations on one side", 1)
				if d := diff(bn, snap(b), diffOpt{}); d != "" {
					c.Failf("%s; then %s on one side changed the other: %s", how, what, d)
				}
			}
			for _, bin := range binariesOf(a, nil) { // scribble over the bytes it shows
				for k := range bin {
					bin[k] ^= 0xa5
				}
			}
			c.same(how+"; after scribbling over the binaries of one side, the other", bn, b, diffOpt{})
			switch r.IntN(4) {
			case 0:
				a.Clear()
			case 1:
				if a.ValueCache() != nil {
					dx.FreeValue(a)
					churn(r, 3)
					c.Ev("sides freed", 1)
				}
			case 2:
				a.LoadFromJson([]byte(`[1,{"a":"b\n"},[true]]`), false)
			default:
				a.Reset(dx.VT_Object)
			}
			c.same(how+"; after wiping one side, the other", bn, b, diffOpt{})
		}
		if round == 0 { // start over with the survivor and a new copy of it
			if b.ReadOnly() {
				return
			}
			v, n = b, bn
			w, want, how = b.Clone(r.IntN(2) == 0), bn.clone(), how+", Clone of the survivor"
			c.same(how, want, w, diffOpt{})
			c.apart(how, v, w)
		}
	}
}

// ---------------------------------------------------------------------------------------------
// equality

func eqKinds(r *rand.Rand) []Kind {
	return []Kind{KStr, KInt, KInt, KDbl, KFlt, KTime, KBin, KExt, KNull, KTrue, KFalse, KNaN, KInf}
}

// eqTree gives a tree in the domain of equality.
func eqTree(r *rand.Rand, jsonable bool) *N {
	o := treeOpt{Root: []int{0, 0, 1, 1, -1}[r.IntN(5)], Kinds: eqKinds(r), NaNs: r.IntN(2) == 0}
	if r.IntN(2) == 0 {
		o.IntRange = 1 << 53
	}
	if jsonable {
		o.Kinds = []Kind{KStr, KStr, KInt, KNull, KTrue, KFalse}
		o.Str = jsonStr
	}
	return genTree(r, o)
}

var eqOpt = diffOpt{Num: true, Exact: true, NoExt: true}

func modelEqual(a, b *N) bool { return diff(a, b, eqOpt) == "" }

// perturb changes a clone of n in exactly one place; ok is false when it found nothing to change.
func perturb(r *rand.Rand, n *N) (m *N, what string, ok bool) {
	m = n.clone()
	var all []*N
	m.walk(func(x *N) { all = append(all, x) })
	for try := 0; try < 20; try++ {
		x := all[r.IntN(len(all))]
		switch x.K {
		case KObj, KArr:
			i := 0
			if len(x.C) > 0 {
				i = r.IntN(len(x.C))
			}
			switch r.IntN(7) {
			case 0:
				if x.K == KObj && len(x.C) > 0 {
					k := x.Keys[i]
					switch r.IntN(4) {
					case 0:
						k += "x"
					case 1:
						k = swapCase(r, k)
					case 2:
						if k != "" {
							k = k[:len(k)-1]
						}
					default:
						k = "\\" + k
					}
					if x.idx(k) >= 0 || strings.ToValidUTF8(k, "") != k {
						continue
					}
					x.Keys[i] = k
					return m, "key renamed", true
				}
			case 1:
				if len(x.C) > 1 { // swap
					j := r.IntN(len(x.C))
					if i == j || x.K == KArr && modelEqual(x.C[i], x.C[j]) {
						continue
					}
					x.C[i], x.C[j] = x.C[j], x.C[i]
					if x.K == KObj {
						x.Keys[i], x.Keys[j] = x.Keys[j], x.Keys[i]
					}
					return m, "order", true
				}
			case 2:
				if len(x.C) > 0 { // drop
					if r.IntN(2) == 0 {
						i = len(x.C) - 1
					}
					x.C = append(x.C[:i], x.C[i+1:]...)
					if x.K == KObj {
						x.Keys = append(x.Keys[:i], x.Keys[i+1:]...)
					}
					return m, "element dropped", true
				}
			case 3: // add
				y := genScalar(r, KInt, &treeOpt{})
				y.I %= 1 << 53
				if x.K == KObj {
					if x.idx("added") >= 0 {
						continue
					}
					x.add("added", y)
				} else {
					x.C = append(x.C, y)
				}
				return m, "element added", true
			case 4:
				if len(x.C) == 0 {
					x.K ^= 1 // empty object <-> empty array
					return m, "empty container kind", true
				}
			case 5:
				if len(x.C) == 1 && x.K == KArr { // unwrap
					*x = *x.C[0]
					return m, "unwrapped", true
				}
			case 6:
				*x = *nArr(x.clone())
				return m, "wrapped", true
			}
		case KStr:
			s := x.S
			switch r.IntN(6) {
			case 0:
				s += "x"
			case 1:
				s = swapCase(r, s)
			case 2:
				s = "x" + s
			case 3:
				s += "\x00"
			case 4:
				rs := []rune(s)
				if len(rs) > 0 {
					rs[r.IntN(len(rs))] = 'q'
				}
				s = string(rs)
			default:
				*x = *nNull()
				return m, "string to null", true
			}
			if s == x.S {
				continue
			}
			x.S = s
			return m, "string", true
		case KInt:
			switch r.IntN(7) {
			case 5, 6: // a neighbouring number of another type
				d := float64(x.I + int64(1-2*r.IntN(2)))
				if r.IntN(2) == 0 && float64(float32(d)) == d {
					*x = *nFlt(float32(d))
				} else if r.IntN(2) == 0 && math.Abs(float64(x.I)) < 1<<40 {
					*x = *nDbl(float64(x.I) + []float64{0.5, -0.5, 1.0 / 4096, -1.0 / 4096}[r.IntN(4)])
				} else {
					*x = *nDbl(d)
				}
				if x.F == 0 {
					x.F = 0
				}
				return m, "int to a neighbouring real", true
			case 0:
				x.I++
			case 1:
				x.I--
			case 2:
				x.I ^= 1 << uint(r.IntN(52))
			case 3:
				if x.I == 0 {
					continue
				}
				x.I = -x.I
			default:
				*x = *nStr(strconv.FormatInt(x.I, 10))
				return m, "int to text", true
			}
			return m, "int", true
		case KDbl:
			switch r.IntN(5) {
			case 3, 4: // a neighbouring number of another type
				if f := float64(float32(x.F)); f != x.F && !math.IsInf(f, 0) && f != 0 {
					*x = *nFlt(float32(f))
					return m, "double to the nearest float", true
				}
				if math.Abs(x.F) < 1<<52 && math.Trunc(x.F) != x.F {
					*x = *nInt(int64(x.F))
					return m, "double to a truncated int", true
				}
				continue
			case 0:
				if x.F == 0 {
					continue
				}
				x.F = -x.F
			case 1:
				x.F = math.Nextafter(x.F, math.Inf(1))
				if math.IsInf(x.F, 0) || x.F == 0 {
					x.F = 1.5
				}
			default:
				x.K = KTime
				return m, "double to date-time", true
			}
			return m, "double", true
		case KFlt:
			x.F = float64(math.Nextafter32(float32(x.F), 1))
			if x.F == 0 || x.F == 1 {
				x.F = 3
				if modelEqual(n, m) {
					x.F = 5
				}
			}
			return m, "float", true
		case KTime:
			x.F += 1.0 / 1024
			return m, "date-time", true
		case KBin, KExt:
			switch r.IntN(4) {
			case 0:
				x.B = append(x.B, 0)
			case 1:
				if len(x.B) == 0 {
					continue
				}
				x.B[r.IntN(len(x.B))] ^= 1 << uint(r.IntN(8))
			case 2:
				if len(x.B) == 0 {
					continue
				}
				x.B = x.B[:len(x.B)-1]
			default:
				if x.K == KExt {
					x.X ^= 1
				} else {
					*x = *nStr(fmt.Sprintf("%x", x.B))
				}
			}
			return m, "binary", true
		default:
			k := []Kind{KNull, KTrue, KFalse, KNaN, KInf}[r.IntN(5)]
			if r.IntN(4) == 0 {
				*x = *nStr(x.K.String())
				return m, "constant to text", true
			}
			if k == x.K {
				continue
			}
			x.K = k
			return m, "constant", true
		}
	}
	return nil, "", false
}

// renumber respells numbers without changing their value.
func renumber(r *rand.Rand, n *N) *N {
	n = n.clone()
	n.walk(func(x *N) {
		if !isNum(x.K) || r.IntN(2) == 0 {
			return
		}
		f := x.num()
		if x.K == KInt && (x.I > 1<<53 || x.I < -1<<53) {
			return
		}
		switch r.IntN(3) {
		case 0:
			if f == math.Trunc(f) && math.Abs(f) <= 1<<53 {
				*x = *nInt(int64(f))
			}
		case 1:
			if float64(float32(f)) == f {
				*x = *nFlt(float32(f))
			}
		default:
			*x = *nDbl(f)
		}
	})
	return n
}

func checkEqual(c *C, a, b *dx.DxValue, want bool, what string) {
	if got := a.Equal(b); got != want {
		c.Failf("%s: Equal says %v", what, got)
	}
	if got := b.Equal(a); got != want {
		c.Failf("%s: Equal the other way round says %v", what, got)
	}
	c.Ev("pairs compared", 2)
	if want {
		c.Ev("equal pairs", 1)
	}
}

// ---------------------------------------------------------------------------------------------
// merging

type mergeCall struct {
	path     string
	old, new string
	op       dx.MergeOp
}

// mergeModel merges s into t the way the property says; decide is the decision function (nil: none).
func mergeModel(t, s *N, path string, decide func(path string, old, new *N) dx.MergeOp) {
	if t.K == KArr {
		orig := len(t.C)
		for _, x := range s.C {
			found := false
			for _, y := range t.C[:orig] {
				found = found || modelEqual(x, y)
			}
			if !found {
				t.C = append(t.C, x.clone())
			}
		}
		return
	}
	for i, k := range s.Keys {
		nv := s.C[i]
		j := t.idx(k)
		if j < 0 {
			t.add(k, nv.clone())
			continue
		}
		old := t.C[j]
		p := k
		if path != "" {
			p = path + "/" + k
		}
		op := dx.MO_Normal
		if decide != nil {
			op = decide(p, old, nv)
		}
		switch {
		case op == dx.MO_Replace:
			t.C[j] = nv.clone()
		case op != dx.MO_Normal:
		case old.K == KObj && nv.K == KObj, old.K == KArr && nv.K == KArr:
			mergeModel(old, nv, p, decide)
		default:
			t.C[j] = nArr(old, nv.clone())
		}
	}
}

// dedup removes equal elements from the arrays of a tree.
func dedup(n *N) {
	for _, x := range n.C {
		dedup(x)
	}
	if n.K != KArr {
		return
	}
	var out []*N
	for _, x := range n.C {
		dup := false
		for _, y := range out {
			dup = dup || modelEqual(x, y)
		}
		if !dup {
			out = append(out, x)
		}
	}
	n.C = out
}

// related makes a second tree that shares much of the first.
func related(r *rand.Rand, n *N, o *treeOpt) *N {
	m := n.clone()
	var rec func(x *N, depth int)
	rec = func(x *N, depth int) {
		switch x.K {
		case KObj:
			for i := 0; i < len(x.C); i++ {
				switch r.IntN(7) {
				case 0:
					x.C = append(x.C[:i:i], x.C[i+1:]...)
					x.Keys = append(x.Keys[:i:i], x.Keys[i+1:]...)
					i--
				case 1:
					b := 4
					x.C[i] = genNode(r, o, 2, &b, -1)
				default:
					rec(x.C[i], depth+1)
				}
			}
			if r.IntN(2) == 0 {
				k := genKey(r)
				if x.idx(k) < 0 {
					b := 4
					x.add(k, genNode(r, o, 2, &b, -1))
				}
			}
			r.Shuffle(len(x.C), func(i, j int) {
				if r.IntN(2) == 0 {
					x.C[i], x.C[j] = x.C[j], x.C[i]
					x.Keys[i], x.Keys[j] = x.Keys[j], x.Keys[i]
				}
			})
		case KArr:
			for k := r.IntN(3); k > 0; k-- {
				b := 3
				x.C = append(x.C, genNode(r, o, 1, &b, -1))
			}
			if len(x.C) > 0 && r.IntN(2) == 0 {
				i := r.IntN(len(x.C))
				x.C = append(x.C[:i:i], x.C[i+1:]...)
			}
			r.Shuffle(len(x.C), func(i, j int) { x.C[i], x.C[j] = x.C[j], x.C[i] })
		default:
			if r.IntN(2) == 0 {
				*x = *genScalar(r, o.Kinds[r.IntN(len(o.Kinds))], o)
			}
		}
	}
	rec(m, 0)
	return m
}

func mergeCase(c *C, arrays bool) {
	r := c.R
	jsonable := r.IntN(2) == 0
	o := treeOpt{Root: int(KObj), Kinds: []Kind{KStr, KInt, KDbl, KBin, KNull, KTrue, KFalse, KExt}, Str: genString, Key: genKey, IntRange: 1000, Budget: 14, Depth: 4}
	if r.IntN(3) == 0 {
		o.Key = func(r *rand.Rand) string {
			return []string{"a", "b", "a/b", "", "a\nb", "中", "\"", "0"}[r.IntN(8)]
		}
	}
	if jsonable {
		o.Kinds, o.Str = []Kind{KStr, KInt, KNull, KTrue, KFalse}, jsonStr
	}
	if r.IntN(2) == 0 { // few distinct scalars: many equal elements
		o.Str = func(r *rand.Rand) string { return []string{"", "x", "y", "\n"}[r.IntN(4)] }
		o.IntRange = 3
	}
	if arrays {
		o.Root = int(KArr)
	}
	tn := genTree(r, o)
	sn := related(r, tn, &o)
	if !jsonable && r.IntN(2) == 0 {
		sn = renumber(r, sn)
	}
	dedup(sn)
	if r.IntN(10) == 0 {
		sn = genTree(r, o)
		dedup(sn)
	}
	t, o1 := made(r, tn, jsonable)
	s, o2 := made(r, sn, jsonable)
	if r.IntN(12) == 0 {
		s = fresh(r, sn, true)
		o2 = "built cached"
	}
	mode := r.IntN(5)
	salt := r.Uint64()
	op := func(path string) dx.MergeOp {
		switch mode {
		case 1:
			return dx.MO_Normal
		case 2:
			return dx.MO_Replace
		case 3:
			return dx.MO_Custom
		}
		return dx.MergeOp((hash64(path) ^ salt) % 3)
	}
	edit := mode == 4 && r.IntN(2) == 0 // the decision function changes the target's value itself
	c.Describe(func() string {
		return fmt.Sprintf("mode %d: %s (%s) merged with %s (%s)", mode, tn.dump(), o1, sn.dump(), o2)
	})
	c.NonTrivial(tn.dump(), sn.dump(), mode)
	want := tn.clone()
	var wantCalls []mergeCall
	decide := func(path string, old, new *N) dx.MergeOp {
		k := op(path)
		wantCalls = append(wantCalls, mergeCall{path, old.dump(), new.dump(), k})
		if edit && k == dx.MO_Custom && old.K == KInt {
			old.I = 4242
		}
		return k
	}
	var calls []mergeCall
	var paths []string // as given, not copied
	var fn dx.MergeFunc = func(path string, old, new *dx.DxValue) dx.MergeOp {
		k := op(path)
		paths = append(paths, path)
		calls = append(calls, mergeCall{strings.Clone(path), snap(old).dump(), snap(new).dump(), k})
		if edit && k == dx.MO_Custom && old.DataType == dx.VT_Int {
			old.SetInt(4242)
		}
		return k
	}
	if mode == 0 {
		fn = nil
		mergeModel(want, sn, "", nil)
	} else {
		mergeModel(want, sn, "", decide)
	}
	t.MergeWith(s, fn)
	c.same("merged target", want, t, diffOpt{})
	c.same("source of the merge", sn, s, diffOpt{})
	if len(calls) != len(wantCalls) {
		c.Failf("the decision function was called %d times, expected %d: %v / %v", len(calls), len(wantCalls), calls, wantCalls)
	}
	for i := range calls {
		if calls[i] != wantCalls[i] {
			c.Failf("decision call %d is %v, expected %v", i, calls[i], wantCalls[i])
		}
		if paths[i] != calls[i].path {
			c.Failf("the path %q given to the decision function became %q after the call", calls[i].path, paths[i])
		}
	}
	c.Ev("decision calls checked", int64(len(calls)))
	c.apart("after the merge", t, s)
	if d := accessors(t, want); d != "" {
		c.Failf("after the merge: %s", d)
	}
	// nothing is shared: editing one side is not seen on the other
	a, an, b, bn := t, want, s, sn
	if r.IntN(2) == 0 {
		a, an, b, bn = s, sn, t, want
	}
	e := newEditor(c, a, an.clone())
	for k := r.IntN(6); k > 0; k-- {
		what := e.step()
		if d := diff(bn, snap(b), diffOpt{}); d != "" {
			c.Failf("after the merge, %s on one side changed the other: %s", what, d)
		}
	}
	if a.ValueCache() != nil && r.IntN(2) == 0 {
		dx.FreeValue(a)
		churn(r, 2)
		c.same("after the merge and freeing one side, the other", bn, b, diffOpt{})
	}
}

// ---------------------------------------------------------------------------------------------
// recycling

type liveValue struct {
	v      *dx.DxValue
	n      *N
	origin string
}

type world struct {
	c    *C
	r    *rand.Rand
	live []*liveValue
	log  []string
}

func (w *world) logf(f string, a ...interface{}) {
	w.log = append(w.log, clip(fmt.Sprintf(f, a...), 250))
}

func (w *world) add(v *dx.DxValue, n *N, origin string) {
	w.live = append(w.live, &liveValue{v, n, origin})
	w.logf("#%d = %s %s", len(w.live)-1, origin, clip(n.dump(), 150))
}

func (w *world) size() int {
	switch w.r.IntN(4) {
	case 0:
		return 2 + w.r.IntN(5)
	case 1:
		return 60 + w.r.IntN(60)
	}
	return 6 + w.r.IntN(12) // around the initial capacity of a cache
}

// create makes a new value by some route; cached values come from recycled storage.
func (w *world) create() {
	r := w.r
	cached := r.IntN(5) > 0
	jk := treeOpt{Root: []int{0, 0, 1, 1, -1}[r.IntN(5)], Kinds: []Kind{KStr, KInt, KInt, KNull, KTrue, KFalse}, Str: jsonStr, Budget: w.size()}
	must := func(v *dx.DxValue, err error) *dx.DxValue {
		if err != nil {
			w.c.Failf("a valid document was refused: %v", err)
		}
		return v
	}
	switch r.IntN(9) {
	case 0:
		k := allKinds[r.IntN(len(allKinds))]
		if r.IntN(2) == 0 {
			k = Kind(r.IntN(2))
		}
		var v *dx.DxValue
		if cached {
			v = dx.NewCacheValue(kindType[k])
		} else {
			v = dx.NewValue(kindType[k])
		}
		w.add(v, zero(k), fmt.Sprintf("new %s cached=%v", k, cached))
	case 1:
		n := genTree(r, jk)
		v := must(dx.NewValueFromJson(writeJSON(r, n, genStyle(r)), cached, r.IntN(2) == 0))
		if r.IntN(2) == 0 {
			partlyRead(r, v)
		}
		w.add(v, n, fmt.Sprintf("json cached=%v", cached))
	case 2:
		n := genTree(r, treeOpt{Root: []int{0, 1, -1}[r.IntN(3)], Kinds: []Kind{KStr, KInt, KDbl, KFlt, KBin, KExt, KNull, KTrue}, Budget: w.size()})
		w.add(must(dx.NewValueFromMsgPack(encMP(r, n, r.IntN(2) == 0, nil), cached, r.IntN(2) == 0)), n, fmt.Sprintf("msgpack cached=%v", cached))
	case 3:
		n := genTree(r, treeOpt{Root: 0, Kinds: []Kind{KStr, KInt, KDbl, KBin, KNull, KTrue}, Budget: w.size(), Key: genPlainKey})
		w.add(must(dx.NewValueFromBson(encBSON(r, n, nil), cached, r.IntN(2) == 0)), n, fmt.Sprintf("bson cached=%v", cached))
	case 4:
		text, n, y := genYAML(r, true, w.size(), 4)
		v := must(dx.NewValueFromYaml([]byte(text), cached))
		if y.merged {
			if d := diff(n, snap(v), diffOpt{Unordered: true}); d != "" {
				w.c.Failf("yaml: %s\n%s", d, text)
			}
			n = snap(v)
		}
		w.add(v, n, fmt.Sprintf("yaml cached=%v", cached))
	case 5, 6:
		n := genTree(r, treeOpt{Root: []int{0, 1}[r.IntN(2)], Kinds: allKinds, Budget: w.size()})
		w.add(fresh(r, n, cached), n, fmt.Sprintf("built cached=%v", cached))
	case 7:
		if len(w.live) > 0 {
			o := w.live[r.IntN(len(w.live))]
			w.add(o.v.Clone(cached), o.n.clone(), fmt.Sprintf("clone cached=%v", cached))
		}
	case 8:
		w.add(dx.NewValueFrom(map[string]interface{}{"k": []interface{}{1, "two", nil, true, map[string]interface{}{"x": 1.5}}}, cached),
			nObj().add("k", nArr(nInt(1), nStr("two"), nNull(), nBool(true), nObj().add("x", nDbl(1.5)))), fmt.Sprintf("from Go value cached=%v", cached))
	}
}

func (w *world) step() {
	r := w.r
	if len(w.live) == 0 || len(w.live) < 7 && r.IntN(3) == 0 {
		w.create()
		return
	}
	i := r.IntN(len(w.live))
	x := w.live[i]
	drop := func() { w.live = append(w.live[:i], w.live[i+1:]...) }
	if x.v.ReadOnly() {
		dx.FreeValue(x.v) // must do nothing
		w.logf("free of a constant")
		drop()
		return
	}
	switch r.IntN(12) {
	case 0, 1:
		dx.FreeValue(x.v)
		w.logf("free #%d (%s)", i, x.origin)
		w.c.Ev("values freed", 1)
		drop()
	case 2:
		x.v.Clear()
		k := x.n.K
		*x.n = N{K: k}
		if k > KArr {
			x.v.Reset(dx.VT_Object)
			x.n.K = KObj
		}
		w.logf("clear #%d", i)
	case 3, 4: // reload
		switch r.IntN(4) {
		case 0:
			n := genTree(r, treeOpt{Root: []int{0, 1}[r.IntN(2)], Kinds: []Kind{KStr, KInt, KNull, KTrue}, Str: jsonStr, Budget: w.size()})
			if err := x.v.LoadFromJson(writeJSON(r, n, genStyle(r)), r.IntN(2) == 0); err != nil {
				w.c.Failf("load: %v", err)
			}
			x.n = n
		case 1:
			n := genTree(r, treeOpt{Root: []int{0, 1}[r.IntN(2)], Kinds: []Kind{KStr, KInt, KBin, KNull, KTrue}, Budget: w.size()})
			if err := x.v.LoadFromMsgPack(encMP(r, n, true, nil), r.IntN(2) == 0); err != nil {
				w.c.Failf("load: %v", err)
			}
			x.n = n
		case 2:
			n := genTree(r, treeOpt{Root: 0, Kinds: []Kind{KStr, KInt, KBin, KNull, KTrue}, Budget: w.size(), Key: genPlainKey})
			if err := x.v.LoadFromBson(encBSON(r, n, nil), r.IntN(2) == 0); err != nil {
				w.c.Failf("load: %v", err)
			}
			x.n = n
		default:
			x.v.LoadFromJson([]byte(`{"a":[1,2,{"b":"c"`), false)
			x.n = snap(x.v)
			if len(x.n.C) != 0 {
				w.c.Failf("a failed load left %s", x.n.dump())
			}
		}
		w.logf("reload #%d with %s", i, clip(x.n.dump(), 120))
	case 5: // copy between values
		if len(w.live) > 1 {
			y := w.live[r.IntN(len(w.live))]
			if y != x && !y.v.ReadOnly() {
				y.v.CopyFrom(x.v, y.v.ValueCache())
				*y.n = *x.n.clone()
				w.logf("copy #%d into another", i)
			}
		}
	case 6:
		if len(w.live) > 1 {
			y := w.live[r.IntN(len(w.live))]
			if y != x && !y.v.ReadOnly() {
				y.v.AddFrom(x.v, y.v.ValueCache())
				addModel(y.n, x.n)
				w.logf("add #%d to another", i)
			}
		}
	case 7: // encode and decode again into a cached value
		if x.n.K <= KArr {
			out := x.v.ToMsgPack(nil)
			v, err := dx.NewValueFromMsgPack(out, true, r.IntN(2) == 0)
			if err != nil {
				w.c.Failf("own encoding refused: %v", err)
			}
			n := x.n.clone()
			hard := false
			n.walk(func(m *N) {
				hard = hard || m.K == KTime || m.K == KNaN || m.K == KInf || m.K == KExt || m.K == KInt && m.Ext != 0
			})
			if hard {
				n = snap(v)
			}
			n.walk(func(m *N) { m.Ext = 0 })
			w.add(v, n, "re-decoded")
		}
	default:
		e := &editor{c: w.c, r: r, root: x.v, m: x.n, cached: true, noExt: true, kinds: allKinds, keyed: editPool(false)}
		for k := 1 + r.IntN(4); k > 0; k-- {
			w.logf("edit #%d: %s", i, e.step())
			w.c.Ev("edits", 1)
		}
	}
}

func (w *world) check() {
	ids := map[*dx.DxValue]string{}
	for i, x := range w.live {
		if d := diff(x.n, snap(x.v), diffOpt{NoExt: true, TimeTol: 0.01 * msDays}); d != "" {
			w.c.Failf("after %s: value #%d (%s): %s", w.log[len(w.log)-1], i, x.origin, d)
		}
		if d := nodesOf(x.v, ids, "#"+strconv.Itoa(i)); d != "" {
			w.c.Failf("after %s: %s", w.log[len(w.log)-1], d)
		}
	}
	w.c.Ev("live values compared", int64(len(w.live)))
	w.c.Ev("node identities checked", int64(len(ids)))
}

// crowdCase fills a cached tree with thousands of nodes that carry everything a node can carry, gives them back
// and takes them again: each node must be empty when it is handed out.
func crowdCase(c *C) {
	r := c.R
	size := []int{100, 1100, 2300, 5000, 12000}[r.IntN(5)] + r.IntN(200)
	kinds := []dx.ValueType{dx.VT_Object, dx.VT_Array, dx.VT_String, dx.VT_Int, dx.VT_Float, dx.VT_Double, dx.VT_DateTime, dx.VT_Binary, dx.VT_ExBinary}
	round := 0
	c.Describe(func() string { return fmt.Sprintf("%d nodes, round %d", size, round) })
	c.NonTrivial(size, r.Uint64())
	for round = 0; round < 4; round++ {
		list := r.IntN(2) == 0
		v := dx.NewCacheValue(dx.VT_Object)
		if list {
			dx.FreeValue(v)
			v = dx.NewCacheValue(dx.VT_Array)
		}
		if v.Count() != 0 || v.ExtType != 0 {
			c.Failf("a new value starts with %d entries, extended type %d", v.Count(), v.ExtType)
		}
		seen := make(map[*dx.DxValue]bool, size)
		for i := 0; i < size; i++ {
			t := kinds[r.IntN(len(kinds))]
			var x *dx.DxValue
			if list {
				x = v.SetIndex(-1, t)
			} else {
				x = v.SetKeyCached(fmt.Sprint("k", i), t, v.ValueCache())
			}
			if seen[x] {
				c.Failf("node %d is handed out twice", i)
			}
			seen[x] = true
			if x.DataType != t || x.ExtType != 0 || x.Count() != 0 || len(x.Binary()) != 0 {
				c.Failf("node %d: type %v extended %d with %d entries and %d bytes, expected an empty %v", i, x.DataType, x.ExtType, x.Count(), len(x.Binary()), t)
			}
			switch t {
			case dx.VT_String:
				if s := x.String(); s != "" {
					c.Failf("node %d starts with the text %q", i, s)
				}
			case dx.VT_Int, dx.VT_Float, dx.VT_Double, dx.VT_DateTime:
				if x.Int() != 0 || x.Double() != 0 {
					c.Failf("node %d starts with the number %v", i, x.Double())
				}
			}
			switch t { // leave marks
			case dx.VT_Object:
				x.SetKeyInt("mark", int64(i))
			case dx.VT_Array:
				x.SetIndexInt(-1, int64(i))
			case dx.VT_String:
				x.SetString("mark")
			case dx.VT_Int:
				x.SetInt(-1)
			case dx.VT_Float:
				x.SetFloat(1.5)
			case dx.VT_Double, dx.VT_DateTime:
				x.SetDouble(2.5)
			default:
				x.SetBinary([]byte{7, 7, 7}, true)
				x.ExtType = 7
			}
		}
		if v.Count() != size {
			c.Failf("%d entries, expected %d", v.Count(), size)
		}
		if r.IntN(2) == 0 {
			v.Clear()
			v.Reset(dx.VT_Object)
			if v.Count() != 0 {
				c.Failf("%d entries after clearing", v.Count())
			}
		}
		dx.FreeValue(v)
		c.Ev("nodes handed out again", int64(size))
	}
}

func worldCase(c *C, steps int) {
	w := &world{c: c, r: c.R}
	c.Describe(func() string { return strings.Join(w.log, "\n") })
	for s := 0; s < steps; s++ {
		w.log = append(w.log, "pending")
		at := len(w.log) - 1
		w.step()
		w.log = append(w.log[:at], w.log[at+1:]...)
		if len(w.log) == 0 {
			w.logf("nothing")
		}
		w.check()
	}
	for _, x := range w.live {
		if !x.v.ReadOnly() {
			dx.FreeValue(x.v)
		}
	}
	c.Ev("steps", int64(steps))
	c.NonTrivial(strings.Join(w.log, "\n"))
}

func init() {
	register(&Prop{ID: "C16", Scale: 40,
		Rule: "A case is a tree of any origin (built, cached, decoded from the four formats, partly read) that is cloned, copied over a value in some previous state or added to a container; content, node identity and bytes are compared, then one side is edited step by step, scribbled over, cleared, reloaded or freed while the other is watched, and the survivor is cloned again. Distinct = distinct (operation, tree).",
		Gens: []*Gen{{Name: "copies", Quick: 14000, Fn: func(c *C, i int) { copyCase(c) }},
			{Name: "inside", Quick: 2500, Fn: func(c *C, i int) { // source and target in one tree
				r := c.R
				n := genTree(r, treeOpt{Root: []int{0, 1}[r.IntN(2)], Kinds: allKinds})
				v := fresh(r, n, r.IntN(2) == 0)
				ps := places(v, n, func(x *N) bool { return true })
				a, b := ps[r.IntN(len(ps))], ps[r.IntN(len(ps))]
				add := r.IntN(2) == 0
				c.Describe(func() string { return fmt.Sprintf("add=%v %s -> %s in %s", add, a.n.dump(), b.n.dump(), n.dump()) })
				if b.v.ReadOnly() {
					return
				}
				src := a.n.clone()
				inTarget := false // the source lies inside the target: wiping the target takes it along
				b.n.walk(func(x *N) { inTarget = inTarget || x == a.n })
				inSource := false
				a.n.walk(func(x *N) { inSource = inSource || x == b.n })
				if add && inSource && a.v != b.v {
					b.v.AddFrom(a.v, nil) // the source grows with the target: it must end, and only that
					if k := snap(v).count(); k > 40*n.count()+40 {
						c.Failf("adding an ancestor made %d nodes out of %d", k, n.count())
					}
				} else if add {
					b.v.AddFrom(a.v, nil)
					want := b.n.clone()
					if b.v != a.v {
						addModel(want, src)
					}
					*b.n = *want
					c.same("tree after adding a part of it to another part", n, v, diffOpt{})
				} else if !inTarget || a.v == b.v {
					if inSource { // the copy of the source holds the (emptied) target
						b.v.CopyFrom(a.v, nil)
						snapTree := snap(v)
						if snapTree.count() > 4*n.count()+4 {
							c.Failf("copying an ancestor made %d nodes out of %d", snapTree.count(), n.count())
						}
					} else {
						b.v.CopyFrom(a.v, nil)
						*b.n = *src
						c.same("tree after copying a part of it over another part", n, v, diffOpt{})
					}
				}
				c.NonTrivial(n.dump(), src.dump(), b.n.dump())
				m := map[*dx.DxValue]string{}
				if d := nodesOf(v, m, ""); d != "" {
					c.Failf("after copying inside a tree: %s", d)
				}
			}}}})
	register(&Prop{ID: "C17", Scale: 15,
		Rule:   "A case is a pair of trees whose relation is known from the model: faithful copies of different origin (with numbers respelled), trees differing in exactly one place (string, number, bytes, key, order, count, kind), long texts, byte strings, arrays and objects (up to 300000) with one difference anywhere, and small trees over a tiny alphabet where all pairs and triples are compared. Distinct = distinct pairs.",
		Assume: []string{"BSON extension marks are not content"},
		Gens: []*Gen{
			{Name: "copies", Quick: 9000, Fn: func(c *C, i int) {
				json := c.R.IntN(2) == 0
				n := eqTree(c.R, json)
				a, oa := made(c.R, n, json)
				m := n
				if !json {
					m = renumber(c.R, n)
				}
				b, ob := made(c.R, m, json)
				c.Describe(func() string { return oa + " / " + ob + " " + n.dump() })
				c.NonTrivial(n.dump(), m.dump())
				checkEqual(c, a, b, true, oa+" / "+ob+" of the same tree")
				checkEqual(c, a, a, true, "a value with itself")
				cl := b.Clone(c.R.IntN(2) == 0)
				checkEqual(c, a, cl, true, "a clone")
				checkEqual(c, b, cl, true, "a clone")
				c.same("after comparing", n, a, diffOpt{})
			}},
			{Name: "onePlace", Quick: 20000, Fn: func(c *C, i int) {
				json := c.R.IntN(2) == 0
				n := eqTree(c.R, json)
				m, what, ok := perturb(c.R, n)
				if !ok || modelEqual(n, m) {
					return
				}
				bad := false
				m.walk(func(x *N) { bad = bad || x.K == KStr && dateDialect(x.S) })
				if bad {
					return
				}
				js := json
				m.walk(func(x *N) {
					js = js && (x.K <= KArr || x.K == KStr || x.K == KInt || x.K == KNull || x.K == KTrue || x.K == KFalse)
				})
				a, oa := made(c.R, n, json)
				b, ob := made(c.R, m, js)
				c.Describe(func() string { return what + ": " + oa + " " + n.dump() + " / " + ob + " " + m.dump() })
				c.NonTrivial(n.dump(), m.dump())
				checkEqual(c, a, b, false, "trees that differ in one place ("+what+")")
				c.Ev("differences: "+what, 1)
			}},
			{Name: "long", Quick: 1500, Fn: func(c *C, i int) { // one difference somewhere in something long
				r := c.R
				sz := []int{100, 1000, 4000, 4097, 8192, 20000, 65537, 100000, 300000}[r.IntN(9)] + r.IntN(100)
				k := i % 5
				if k > 2 && sz > 5000 && r.IntN(10) > 0 {
					sz = 2000 + r.IntN(3000)
				}
				if k == 3 && sz > 5000 {
					sz = 5000 + r.IntN(500)
				}
				at := r.IntN(sz)
				switch r.IntN(4) {
				case 0:
					at = sz - 1
				case 1:
					at = sz - 1 - r.IntN(min(sz, 300))
				}
				var n *N
				el := func(j int) *N {
					switch j % 4 {
					case 0:
						return nStr(fmt.Sprint("v", j))
					case 1:
						return nArr(nInt(int64(j)))
					}
					return nInt(int64(j))
				}
				switch k {
				case 0:
					n = nStr(genASCII(r, sz))
				case 1:
					n = nBin(randBytes(r, sz))
				case 2:
					n = nExt(byte(1+r.IntN(100)), randBytes(r, sz))
				case 3:
					n = nObj()
					for j := 0; j < sz; j++ {
						n.Keys, n.C = append(n.Keys, fmt.Sprint("key", j)), append(n.C, el(j))
					}
				default:
					n = nArr()
					for j := 0; j < sz; j++ {
						n.C = append(n.C, el(j))
					}
				}
				m := n.clone()
				switch k {
				case 0:
					b := []byte(m.S)
					b[at] ^= 1
					m.S = string(b)
				case 1, 2:
					m.B[at] ^= 1 << r.IntN(8)
				case 3:
					if r.IntN(3) == 0 {
						m.Keys[at] += "'"
						break
					}
					fallthrough
				default:
					m.C[at] = nInt(int64(-1 - at))
				}
				if k < 3 && r.IntN(2) == 0 { // inside
					w := func(x *N) *N { return nObj().add("a", nInt(1)).add("b", nArr(x)) }
					n, m = w(n), w(m)
				}
				what := fmt.Sprintf("kind %d of length %d, difference at %d", k, sz, at)
				c.Describe(func() string { return what })
				c.NonTrivial(what)
				a, b, d := bigFresh(r, n), bigFresh(r, m), bigFresh(r, n)
				checkEqual(c, a, b, false, what)
				checkEqual(c, a, d, true, what+", without the difference")
				checkEqual(c, b, b.Clone(r.IntN(2) == 0), true, what+", a clone")
				c.Ev("long pairs compared", 3)
			}},
			{Name: "tiny", Quick: 1500, Fn: func(c *C, i int) {
				var ns []*N
				var vs []*dx.DxValue
				for k := 0; k < 7; k++ {
					n := genTree(c.R, treeOpt{Root: -1, Depth: 2, Budget: 4, Kinds: []Kind{KStr, KInt, KDbl, KFlt, KBin, KNull, KTrue, KFalse}, IntRange: 2,
						Str: func(r *rand.Rand) string { return []string{"", "a", "1", "\n"}[r.IntN(4)] },
						Key: func(r *rand.Rand) string { return []string{"a", "b", "\n"}[r.IntN(3)] }})
					n.walk(func(x *N) {
						if x.K == KDbl || x.K == KFlt {
							x.F = []float64{0, 1, -1, 0.5, 0, math.Copysign(0, -1), 1 << 53, 1<<53 + 2, 1 << 63, -1 << 63, math.NaN(), math.Inf(1), math.Inf(-1), 1 << 62}[c.R.IntN(8)+c.R.IntN(7)]
						}
						if x.K == KFlt {
							x.F = float64(float32(x.F))
						}
						if x.K == KInt && c.R.IntN(3) == 0 {
							x.I = []int64{1 << 53, 1<<53 + 1, 1<<53 + 2, 1<<53 - 1, math.MaxInt64, math.MinInt64, 1 << 62, 1<<62 + 1, math.MaxInt64 - 1}[c.R.IntN(9)]
						}
						if len(x.B) > 1 {
							x.B = x.B[:1]
						}
					})
					ns = append(ns, n)
					vs = append(vs, fresh(c.R, n, c.R.IntN(2) == 0))
				}
				c.Describe(func() string {
					s := ""
					for _, n := range ns {
						s += n.dump() + "\n"
					}
					return s
				})
				eq := func(x, y int) bool { return vs[x].Equal(vs[y]) }
				for x := range ns {
					for y := range ns {
						if eq(x, y) != modelEqual(ns[x], ns[y]) {
							c.Failf("Equal says %v for %s and %s", eq(x, y), ns[x].dump(), ns[y].dump())
						}
						for z := range ns {
							if eq(x, y) && eq(y, z) && !eq(x, z) {
								c.Failf("not transitive: %s %s %s", ns[x].dump(), ns[y].dump(), ns[z].dump())
							}
						}
						c.NonTrivial(ns[x].dump(), ns[y].dump())
					}
					var null *dx.DxValue
					if vs[x].Equal(nil) || null.Equal(vs[x]) || !null.Equal(nil) {
						c.Failf("comparison with nil")
					}
				}
				c.Ev("pairs compared", int64(len(ns)*len(ns)))
			}},
		}})
	register(&Prop{ID: "C18", Scale: 40,
		Rule:   "A case is a pair of related objects (or arrays) of any origin with a decision function (none, constant or varying per path, possibly editing the target's value). The merged tree, the source and the exact log of decision calls are compared with the reference merge; node identity, bytes and later edits or frees show that nothing is shared. Distinct = distinct (target, source, mode).",
		Assume: []string{"arrays of the source contain no two equal elements", "source and target are separate trees"},
		Gens: []*Gen{
			{Name: "objects", Quick: 14000, Fn: func(c *C, i int) { mergeCase(c, false) }},
			{Name: "arrays", Quick: 4000, Fn: func(c *C, i int) { mergeCase(c, true) }},
			{Name: "mixed", Quick: 500, Fn: func(c *C, i int) { // different types, nil, itself: nothing happens
				v, n, _ := anyTree(c.R)
				w, m, _ := anyTree(c.R)
				v.MergeWith(nil, nil)
				v.MergeWith(v, nil)
				if n.K != m.K || n.K > KArr {
					v.MergeWith(w, nil)
					c.same("source", m, w, diffOpt{})
					c.NonTrivial(n.dump(), m.dump())
				}
				c.same("target", n, v, diffOpt{})
				var null *dx.DxValue
				null.MergeWith(v, nil)
			}},
		}})
	register(&Prop{ID: "C19", Scale: 30,
		Rule:   "A case is a life-cycle history over up to eight live values: create (all routes, mostly cached), edit, clear, reload (also failing), copy, add, clone, encode and decode, free. After every step every live value is compared with its own shadow and all node identities are checked to be distinct. Distinct = distinct histories.",
		Assume: []string{"a freed value is not used again", "nodes taken out of a cached tree are not used after it is cleared or freed"},
		Gens: []*Gen{
			{Name: "worlds", Quick: 2500, Fn: func(c *C, i int) { worldCase(c, 20+c.R.IntN(40)) }},
			{Name: "long", Quick: 16, Fn: func(c *C, i int) { worldCase(c, 800) }},
			{Name: "crowd", Quick: 24, Thorough: 240, Fn: func(c *C, i int) { crowdCase(c) }},
		}})
}
