package main

import (
	"bytes"
	"fmt"
	"hash/fnv"
	"math"
	"math/rand/v2"
	"os"
	"os/exec"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	dx "github.com/suiyunonghen/dxsvalue"
)

// ---------------------------------------------------------------------------------------------
// C20: goroutines with values of their own

// pause injects a scheduling point.
func pause(r *rand.Rand) {
	switch r.IntN(12) {
	case 0, 1, 2:
		runtime.Gosched()
	case 3:
		time.Sleep(time.Duration(r.IntN(30)) * time.Microsecond)
	}
}

// script is a deterministic program over values of its own; it returns the digests of everything it obtained.
func script(seed uint64, steps int, turn func()) (log []string) {
	r := rand.New(rand.NewPCG(seed, 77))
	pr := rand.New(rand.NewPCG(seed, 78))
	digest := func(what string, b []byte) {
		h := fnv.New64a()
		h.Write(b)
		log = append(log, fmt.Sprintf("%s %d %x", what, len(b), h.Sum64()))
	}
	var live []*dx.DxValue
	bsonable := func(v *dx.DxValue) bool {
		n := snap(v)
		ok := n.K == KObj
		n.walk(func(x *N) {
			ok = ok && x.K != KExt
			for _, k := range x.Keys {
				ok = ok && strings.IndexByte(k, 0) < 0
			}
		})
		return ok
	}
	for s := 0; s < steps; s++ {
		turn()
		pause(pr)
		if len(live) == 0 || len(live) < 6 && r.IntN(3) == 0 {
			f := Format(r.IntN(4))
			b, _, _ := docOf(r, f)
			if r.IntN(10) == 0 {
				b = mutateBytes(r, b, []byte("{}[]\",:- \n\x00\xc1\x80"), nil)
			}
			if v, err := newFrom(f, b, r.IntN(4) > 0, r.IntN(2) == 0); err == nil {
				live = append(live, v)
				digest("decoded "+f.String(), []byte(snap(v).dump()))
			} else {
				digest("refused "+f.String(), nil)
			}
			continue
		}
		i := r.IntN(len(live))
		v := live[i]
		switch r.IntN(14) {
		case 0, 1:
			if !v.ReadOnly() {
				dx.FreeValue(v)
			}
			live = append(live[:i], live[i+1:]...)
		case 2:
			digest("json", dx.Value2Json(v, dx.JSE_AllEscape, r.IntN(2) == 0, nil))
		case 3:
			digest("format", dx.Value2FormatJson(v, dx.JSE_OnlyAnsiChar, false, nil))
		case 4:
			digest("msgpack", dx.Value2MsgPack(v, nil))
		case 5:
			if bsonable(v) {
				b, err := dx.Value2Bson(v, nil)
				digest(fmt.Sprint("bson ", err), b)
			}
		case 6:
			w := v.Clone(r.IntN(3) > 0)
			live = append(live, w)
			digest(fmt.Sprint("clone ", w.Equal(v)), []byte(snap(w).dump()))
		case 7:
			w := live[r.IntN(len(live))]
			if w != v && !w.ReadOnly() {
				w.CopyFrom(v, w.ValueCache())
				digest("copy", []byte(snap(w).dump()))
			}
		case 8:
			w := live[r.IntN(len(live))]
			if w != v && w.DataType == dx.VT_Object && v.DataType == dx.VT_Object {
				w.MergeWith(v, func(path string, old, new *dx.DxValue) dx.MergeOp { return dx.MO_Custom })
				digest("merge", []byte(snap(w).dump()))
			}
		case 9:
			if !v.ReadOnly() {
				f := Format(r.IntN(4))
				b, _, _ := docOf(r, f)
				err := loadInto(f, v, b, r.IntN(2) == 0)
				digest(fmt.Sprint("load ", f, err == nil), []byte(snap(v).dump()))
			}
		case 10: // conversions
			x := timeHolder{When: time.Unix(r.Int64N(1e9), 0), List: []time.Time{time.Unix(5, 0)}}
			w := dx.NewValueFrom(struct {
				H timeHolder
				R regInt
				S []string
			}{x, regInt(r.IntN(100)), []string{"a", genString(r)}}, r.IntN(2) == 0)
			var back struct {
				H timeHolder
				R regInt
				S []string
			}
			ok := w.ToStdValue(&back, r.IntN(2) == 0)
			if r.IntN(4) == 0 {
				dx.RegisterTypeMapFunc(reflect.TypeOf(regInt(0)), func(f reflect.Value, v *dx.DxValue) { f.SetInt(v.Int() + 1000) })
			}
			digest("export", []byte(fmt.Sprintf("%v %v %d %q", ok, back.H.When.UnixMilli(), back.R, back.S)))
			live = append(live, w)
		default:
			if v.ReadOnly() {
				break
			}
			e := &editor{r: r, c: &C{R: r, W: newWorker()}, root: v, m: snap(v), cached: true, noExt: true, kinds: allKinds, keyed: editPool(false)}
			for k := 1 + r.IntN(3); k > 0; k-- {
				e.step()
			}
			digest("edit", []byte(snap(v).dump()))
		}
	}
	for _, v := range live {
		digest("left", []byte(snap(v).dump()))
		if !v.ReadOnly() {
			dx.FreeValue(v)
		}
	}
	return
}

func newWorker() *Worker {
	return &Worker{PerGen: map[string]int64{}, Events: map[string]int64{}, distinct: map[uint64]struct{}{}}
}

// together runs the functions in goroutines of their own that start at the same time; the first failure is reported.
func together(c *C, fs []func(turn func())) {
	var wg sync.WaitGroup
	start := make(chan bool)
	errs := make([]string, len(fs))
	// Turns are timestamps in slices of their own, counted after the run: an atomic counter here would order the
	// goroutines' accesses and hide races from the detector.
	turns := make([][]int64, len(fs))
	began := time.Now()
	for g := range fs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					if f, ok := e.(failure); ok {
						errs[g] = f.msg
					} else {
						errs[g] = fmt.Sprintf("panic: %v\n%s", e, clip(string(debug.Stack()), 4000))
					}
				}
			}()
			<-start
			fs[g](func() { turns[g] = append(turns[g], int64(time.Since(began))) })
		}()
	}
	close(start)
	wg.Wait()
	c.Ev("goroutine switches observed", switches(turns))
	for g, e := range errs {
		if e != "" {
			c.Failf("goroutine %d of %d: %s", g, len(fs), e)
		}
	}
}

// switches counts how often the turn passed from one goroutine to another.
func switches(turns [][]int64) (n int64) {
	type at struct {
		t int64
		g int
	}
	var all []at
	for g := range turns {
		for _, t := range turns[g] {
			all = append(all, at{t, g})
		}
	}
	sort.Slice(all, func(i, j int) bool { return all[i].t < all[j].t })
	for i := 1; i < len(all); i++ {
		if all[i].g != all[i-1].g {
			n++
		}
	}
	return
}

// act is one prepared step of a hammer plan.
type act struct {
	op          int
	f           Format
	b           []byte
	cached      bool
	share, flag bool
	style       dx.JsonEscapeStyle
	i           int
	s           string
	d           float64
	t           time.Time
	val         interface{}
}

type hammerStruct struct {
	Name string
	N    []int
	In   struct {
		F float64
		T time.Time
		B []byte
	}
	M map[string]string
	E encVal
	R regInt
}

// growTree is a tree of a size that varies over orders of magnitude in one respect.
func growTree(r *rand.Rand) *N {
	k := 1 << r.IntN(12)
	k += r.IntN(k)
	n := nObj()
	switch r.IntN(6) {
	case 0:
		a := nArr()
		for i := 0; i < k; i++ {
			a.C = append(a.C, nInt(int64(i)))
		}
		n.add("a", a)
	case 1:
		for i := 0; i < k; i++ {
			n.add("k"+strconv.Itoa(i), nInt(int64(i)))
		}
	case 2:
		x := nObj().add("x", nInt(1))
		for i := 0; i < k%120; i++ {
			if i%3 == 0 {
				x = nArr(x)
			} else {
				x = nObj().add("x", x)
			}
		}
		n.add("deep", x)
	case 3:
		b := make([]byte, k*8)
		for i := range b {
			b[i] = "abc\"\\\n\t/%<"[r.IntN(10)]
		}
		n.add("text", nStr(string(b)))
	case 4:
		var rs []rune
		for i := 0; i < k; i++ {
			rs = append(rs, []rune{'a', 'é', '中', '😀', 0x2028, 0x7f}[r.IntN(6)])
		}
		n.add(string(rs[:min(len(rs), 300)]), nStr(string(rs)))
	case 5:
		a := nArr()
		for i := 0; i < k; i++ {
			a.C = append(a.C, nDbl(genFloat(r, false)), nStr(strconv.Itoa(i)), nNull(), nBool(i%2 == 0))
		}
		n.add("mixed", a)
	}
	return n.add("end", nStr("2020-01-02 03:04:05"))
}

// plan prepares the steps of one goroutine.
func plan(seed, kinds uint64, steps int, cached int) []act {
	r := rand.New(rand.NewPCG(seed, 5))
	kr := rand.New(rand.NewPCG(kinds, 6)) // what is done, apart from with which content
	acts := make([]act, steps)
	for i := range acts {
		a := &acts[i]
		a.op = kr.IntN(18)
		if i == 0 {
			a.op = 0
		}
		a.f = Format(kr.IntN(4))
		a.cached = cached == 1 || cached == 2 && r.IntN(2) == 0
		a.share, a.flag = r.IntN(2) == 0, r.IntN(2) == 0
		a.style = dx.JsonEscapeStyle(1 + kr.IntN(2))
		a.i, a.s, a.d, a.t = r.IntN(1000), genASCII(r, 1+r.IntN(8)), genFloat(r, false), time.Unix(r.Int64N(2e9), 0).UTC()
		switch a.op {
		case 0, 1, 2, 12, 15:
			n := growTree(r)
			switch {
			case r.IntN(3) == 0 || a.f == FYAML:
				a.b, _, _ = docOf(r, a.f)
			case a.f == FJSON:
				a.b = writeJSON(r, n, genStyle(r))
			case a.f == FMP:
				a.b = encMP(r, n, r.IntN(2) == 0, nil)
			default:
				a.b = encBSON(r, n, nil)
			}
			if r.IntN(12) == 0 {
				a.b = mutateBytes(r, a.b, []byte("{}[]\",:- \n\x00\xc1\x80"), nil)
			}
			a.b = append([]byte(nil), a.b...)
		case 13:
			h := hammerStruct{Name: genString(r), N: make([]int, a.i%40), M: map[string]string{"k": a.s}, E: encVal{a.i % 9}, R: regInt(a.i)}
			h.In.F, h.In.T, h.In.B = a.d, a.t, []byte(a.s)
			a.val = &h
		}
	}
	return acts
}

// perform executes a plan. Nothing in it but the library synchronises goroutines: no fmt (its pool would order
// them for the race detector), no shared state.
func perform(acts []act, turn func()) (log []uint64) {
	const prime, basis = 1099511628211, 14695981039346656037
	note := func(b []byte) {
		h := uint64(basis)
		for _, x := range b {
			h = (h ^ uint64(x)) * prime
		}
		log = append(log, h, uint64(len(b)))
	}
	num := func(x uint64) { log = append(log, x) }
	flag := func(x bool) {
		if x {
			num(1)
		} else {
			num(0)
		}
	}
	var v *dx.DxValue
	var walk func(x *dx.DxValue, depth int)
	walk = func(x *dx.DxValue, depth int) {
		num(uint64(x.DataType))
		switch x.DataType {
		case dx.VT_Object, dx.VT_Array:
			num(uint64(x.Count()))
			x.Visit(func(k string, y *dx.DxValue) bool {
				note([]byte(k))
				walk(y, depth+1)
				return true
			})
		default:
			num(uint64(x.Int()))
			num(math.Float64bits(x.Double()))
			flag(x.Bool())
			num(math.Float64bits(float64(x.DateTime())))
			num(uint64(x.GoTime().UnixNano()))
			note(x.Binary())
			note([]byte(x.String()))
		}
	}
	for i := range acts {
		a := &acts[i]
		turn()
		if v == nil && a.op != 13 || a.op < 3 {
			if v != nil && !v.ReadOnly() {
				dx.FreeValue(v)
			}
			v = nil
			if a.b != nil {
				x, err := newFrom(a.f, a.b, a.cached, a.share)
				flag(err == nil)
				if err == nil {
					v = x
				} else {
					note([]byte(err.Error()))
				}
			}
			if v == nil {
				v = dx.NewObject(a.cached)
			}
			continue
		}
		switch a.op {
		case 3:
			note(dx.Value2Json(v, a.style, a.flag, nil))
		case 4:
			note(dx.Value2FormatJson(v, a.style, a.flag, nil))
		case 5:
			note(dx.Value2MsgPack(v, nil))
		case 6:
			note(v.ToBson(nil))
		case 7:
			note([]byte(v.String()))
			walk(v, 0)
		case 8:
			w := v.Clone(a.cached)
			flag(w.Equal(v))
			if !w.ReadOnly() {
				w.SetKeyString(a.s, a.s)
				dx.FreeValue(w)
			}
		case 9:
			w := dx.NewObject(a.cached)
			w.CopyFrom(v, w.ValueCache())
			walk(w, 0)
			dx.FreeValue(w)
		case 10:
			var m map[string]interface{}
			var l []interface{}
			flag(v.ToStdValue(&m, a.flag))
			flag(v.ToStdValue(&l, a.flag))
			num(uint64(len(m)))
			num(uint64(len(l)))
		case 11:
			if !v.ReadOnly() {
				v.SetKeyString(a.s, a.s)
				v.SetKeyInt(a.s+"1", int64(a.i))
				v.SetKeyDouble(a.s+"2", a.d)
				v.SetKeyTime(a.s+"3", a.t)
				v.SetKeyBool(a.s+"4", a.flag)
				v.ForcePath(dx.VT_String, a.s, "x", "y").SetString(a.s)
				note([]byte(v.StringByPath("", a.s, "x", "y")))
				v.RemoveKey(a.s + "1")
				x := v.ForcePath(dx.VT_Array, a.s, "arr")
				for k := 0; k < a.i%50; k++ {
					x.SetIndexInt(k, int64(k))
				}
				x.InsertValue(0, dx.VT_String).SetString(a.s)
				x.RemoveIndex(1)
			}
		case 12:
			if !v.ReadOnly() && a.b != nil {
				w, err := newFrom(a.f, a.b, a.cached, a.share)
				flag(err == nil)
				if err == nil {
					v.MergeWith(w, func(path string, o, n *dx.DxValue) dx.MergeOp { note([]byte(path)); return dx.MO_Normal })
					if !w.ReadOnly() {
						dx.FreeValue(w)
					}
				}
			}
		case 13:
			w := dx.NewValueFrom(a.val, a.cached)
			note(dx.Value2Json(w, a.style, a.flag, nil))
			var back hammerStruct
			flag(w.ToStdValue(&back, a.flag))
			note([]byte(back.Name))
			num(uint64(len(back.N)))
			num(uint64(back.R))
			num(uint64(back.In.T.UnixNano()))
			dx.FreeValue(w)
		case 14:
			b := append(make([]byte, 0, 8), a.s...)
			b = dx.Value2Json(v, a.style, a.flag, b)
			b = dx.Value2MsgPack(v, b)
			note(b)
		case 15:
			if !v.ReadOnly() && a.b != nil {
				flag(loadInto(a.f, v, a.b, a.share) == nil)
			}
		case 16:
			if !v.ReadOnly() {
				v.SetKey("ext", dx.VT_ExBinary).SetExtType(byte(a.i))
				v.SetKey("bin", dx.VT_Binary).SetBinary([]byte(a.s), a.flag)
				v.SetKeyvalue("go", []interface{}{a.i, a.s, a.d, a.t, a.flag, nil}, v.ValueCache())
				v.SetKeyvalue("n", a.i, v.ValueCache())
			}
		case 17:
			num(uint64(v.Count()))
			note([]byte(v.KeyNameByIndex(v.Count() - 1)))
			if x := v.ValueByName("end"); x != nil {
				num(uint64(x.GoTime().UnixNano()))
			}
		}
	}
	if v != nil && !v.ReadOnly() {
		walk(v, 0)
		dx.FreeValue(v)
	}
	return
}

// hammerCase lets goroutines do the same or different things at the same time with prepared content of growing sizes.
func hammerCase(c *C) {
	r := c.R
	n := 2 + r.IntN(5)
	steps := 8 + r.IntN(40)
	cached := r.IntN(3)
	alike := r.IntN(3) > 0
	kinds := r.Uint64()
	seeds := make([]uint64, n)
	ks := make([]uint64, n)
	for g := range seeds {
		seeds[g], ks[g] = r.Uint64(), kinds
		if !alike {
			ks[g] = r.Uint64()
		}
	}
	c.Describe(func() string {
		return fmt.Sprintf("%d goroutines, %d steps, caching %d, alike=%v, seeds %x", n, steps, cached, alike, seeds)
	})
	results := make([][]uint64, n)
	var fs []func(func())
	for g := range seeds {
		acts := plan(seeds[g], ks[g], steps, cached)
		fs = append(fs, func(turn func()) { results[g] = perform(acts, turn) })
	}
	together(c, fs)
	for g := range seeds {
		alone := perform(plan(seeds[g], ks[g], steps, cached), func() {})
		for k := range alone {
			if k >= len(results[g]) || alone[k] != results[g][k] {
				c.Failf("goroutine %d of %d: result %d of %d differs from the one obtained alone", g, n, k, len(alone))
			}
		}
		c.Ev("results compared with a sequential run", int64(len(alone)))
	}
	c.NonTrivial(fmt.Sprint("hammer", seeds, steps))
}

// coldCase is a hammer case in a process of its own, so that nothing of the library was used before the goroutines start.
func coldCase(c *C) {
	r := c.R
	spec := fmt.Sprint(r.Uint64(), 2+r.IntN(5), 4+r.IntN(16), r.IntN(3), r.IntN(4))
	c.Describe(func() string { return "cold process " + spec })
	exe, err := os.Executable()
	if err != nil {
		c.Failf("%v", err)
	}
	cmd := exec.Command(exe)
	cmd.Env = append(os.Environ(), "VMON_COLD="+spec)
	var log bytes.Buffer
	cmd.Stdout, cmd.Stderr = &log, &log
	err = cmd.Run()
	if err != nil {
		c.Failf("a fresh process whose goroutines start at once: %v\n%s", err, clip(log.String(), 6000))
	}
	var k int64
	if _, err := fmt.Sscanf(log.String(), "%d results compared", &k); err != nil {
		c.Failf("a fresh process reports %q", clip(log.String(), 2000))
	}
	c.Ev("results of fresh processes compared with a sequential run", k)
	c.Ev("fresh processes", 1)
	c.NonTrivial(spec)
}

func coldMain(spec string) {
	var seed uint64
	var n, steps, cached, alike int
	fmt.Sscan(spec, &seed, &n, &steps, &cached, &alike)
	runtime.GOMAXPROCS(4)
	r := rand.New(rand.NewPCG(seed, 9))
	kinds := r.Uint64()
	seeds, ks := make([]uint64, n), make([]uint64, n)
	for g := range seeds {
		seeds[g], ks[g] = r.Uint64(), kinds
		if alike == 0 {
			ks[g] = r.Uint64()
		}
	}
	results := make([][]uint64, n)
	errs := make([]interface{}, n)
	start := make(chan bool)
	var wg sync.WaitGroup
	for g := range seeds {
		acts := plan(seeds[g], ks[g], steps, cached)
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					errs[g] = fmt.Sprintf("panic: %v\n%s", e, clip(string(debug.Stack()), 4000))
				}
			}()
			<-start
			results[g] = perform(acts, func() {})
		}()
	}
	close(start)
	wg.Wait()
	total := 0
	for g := range seeds {
		if errs[g] != nil {
			fmt.Printf("goroutine %d: %v\n", g, errs[g])
			os.Exit(1)
		}
		alone := perform(plan(seeds[g], ks[g], steps, cached), func() {})
		for k := range alone {
			if k >= len(results[g]) || alone[k] != results[g][k] {
				fmt.Printf("goroutine %d of %d: result %d of %d differs from the one obtained alone\n", g, n, k, len(alone))
				os.Exit(1)
			}
		}
		total += len(alone)
	}
	fmt.Printf("%d results compared\n", total)
	if raceErrors() > 0 {
		os.Exit(66)
	}
}

func scriptsCase(c *C) {
	r := c.R
	n := 2 + r.IntN(7)
	steps := 20 + r.IntN(60)
	seeds := make([]uint64, n)
	for i := range seeds {
		seeds[i] = r.Uint64()
	}
	if r.IntN(3) == 0 { // the same program in several goroutines
		for i := range seeds {
			seeds[i] = seeds[0]
		}
	}
	c.Describe(func() string { return fmt.Sprintf("%d goroutines, %d steps, seeds %x", n, steps, seeds) })
	results := make([][]string, n)
	var fs []func(func())
	for g := range seeds {
		fs = append(fs, func(turn func()) { results[g] = script(seeds[g], steps, turn) })
	}
	stop := make(chan bool)
	var gc sync.WaitGroup
	if r.IntN(3) == 0 { // collections empty the pools
		gc.Add(1)
		go func() {
			defer gc.Done()
			for {
				select {
				case <-stop:
					return
				default:
					runtime.GC()
				}
			}
		}()
	}
	func() {
		defer func() { close(stop); gc.Wait() }()
		together(c, fs)
	}()
	for g := range seeds {
		alone := script(seeds[g], steps, func() {})
		for k := range alone {
			if k >= len(results[g]) || alone[k] != results[g][k] {
				got := "nothing"
				if k < len(results[g]) {
					got = results[g][k]
				}
				c.Failf("goroutine %d of %d, result %d: %s, but alone %s", g, n, k, got, alone[k])
			}
		}
		c.Ev("results compared with a sequential run", int64(len(alone)))
	}
	c.NonTrivial(fmt.Sprint(seeds, steps))
}

// modelsCase runs monitored workloads of the other properties side by side.
func modelsCase(c *C) {
	r := c.R
	n := 2 + r.IntN(7)
	kinds := []struct {
		name string
		f    func(*C)
	}{
		{"lifecycle", func(c *C) { worldCase(c, 25) }},
		{"copy", copyCase},
		{"load", loadCase},
		{"chain", chainCase},
		{"read", readCase},
		{"merge", func(c *C) { mergeCase(c, false) }},
		{"convert", convertCase},
		{"export", exportCase},
		{"constants", func(c *C) {
			for k := 0; k < 20; k++ {
				if v, _, _ := obtain(c.R, constKinds[c.R.IntN(5)]); v != nil && v.ReadOnly() {
					attack(c.R, v)
				}
			}
		}},
		{"yaml", func(c *C) {
			text, n, y := genYAML(c.R, true, 30, 5)
			v, err := dx.NewValueFromYaml([]byte(text), c.R.IntN(2) == 0)
			if err != nil {
				c.Failf("yaml: %v", err)
			}
			c.same("yaml", n, v, diffOpt{Unordered: y.merged})
			if !v.ReadOnly() {
				dx.FreeValue(v)
			}
		}},
	}
	only := -1
	if r.IntN(2) == 0 {
		only = r.IntN(len(kinds))
	}
	var fs []func(func())
	workers := make([]*Worker, n)
	var names []string
	for g := 0; g < n; g++ {
		k := r.IntN(len(kinds))
		if only >= 0 {
			k = only
		}
		seed := r.Uint64()
		names = append(names, kinds[k].name)
		workers[g] = newWorker()
		fs = append(fs, func(turn func()) {
			cr := rand.New(rand.NewPCG(seed, 1))
			for s := 0; s < 6; s++ {
				turn()
				pause(cr)
				kinds[k].f(&C{P: c.P, G: c.G, I: c.I, R: cr, W: workers[g], Tier: c.Tier})
			}
		})
	}
	c.Describe(func() string { return strings.Join(names, ", ") })
	together(c, fs)
	for _, w := range workers {
		for _, n := range w.Events {
			c.Ev("observations of the monitors", n)
		}
	}
	c.NonTrivial(fmt.Sprint(names), r.IntN(1<<30))
}

func init() {
	register(&Prop{ID: "C20", Scale: 2, Race: true, GoMax: 4, Procs: 4,
		Rule:   "A case starts 2 to 8 goroutines at once. Each runs a random program over values of its own (decoding in four formats, editing, encoding, merging, copying, cloning, freeing, converting, reloading; cached values throughout) with injected yields and delays, some with garbage collections that empty the pools; every result is compared with a sequential run of the same program, or judged by the shadow models of the other properties. In hammer cases all goroutines repeat one short operation in a tight loop, with nothing in the harness that would order them. In cold cases the goroutines are the first to use the library in a process of their own. Half of the worker processes run under the race detector, half at full speed. Distinct = distinct programs.",
		Assume: []string{"no value is used by two goroutines", "the package option IgnoreCase is not changed while goroutines run"},
		Gens: []*Gen{
			{Name: "hammer", Quick: 450, Fn: func(c *C, i int) { hammerCase(c) }},
			{Name: "cold", Quick: 300, Fn: func(c *C, i int) { coldCase(c) }},
			{Name: "scripts", Quick: 500, Fn: func(c *C, i int) { scriptsCase(c) }},
			{Name: "models", Quick: 900, Fn: func(c *C, i int) { modelsCase(c) }},
		}})
}
