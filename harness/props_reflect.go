package main

import (
	"bytes"
	"fmt"
	"math"
	"math/rand/v2"
	"reflect"
	"strconv"
	"strings"
	"time"

	dx "github.com/suiyunonghen/dxsvalue"
)

// ---------------------------------------------------------------------------------------------
// Go types of the workloads

type (
	namedInt    int32
	namedU16    uint16
	namedStr    string
	namedBool   bool
	namedF32    float32
	namedF64    float64
	namedMap    map[string]int
	namedMap2   map[namedStr]interface{}
	namedSlice  []namedStr
	namedSlice2 []interface{}
	namedStruct struct {
		ID    int
		Name  namedStr
		When  time.Time
		Raw   []byte
		Tags  []string
		Inner struct {
			Rate float32
			Deep []namedInner
		}
		Any interface{}
	}
	namedInner struct {
		Flag bool
		N    uint8
		L    [][]int
	}
	ptrStruct struct {
		P  *int
		S  *string
		B  *bool
		T  *time.Time
		R  *[]byte
		M  *map[string]string
		L  *[]string
		In *namedInner
		PP **int64
	}

	// structs with fields that are not exported, named hid...
	hidStruct struct {
		hidBase
		A    int
		hidA int
		B    string
		hidB string
		hidC int8
		hidD int16
		C    []namedInner
		hidE int32
		hidF int64
		hidG uint
		hidH uint8
		hidI uint16
		hidJ uint32
		D    map[string]int
		hidK uint64
		hidL bool
		hidM float32
		hidN float64
		E    *time.Time
		hidO *int
		hidP *string
		hidQ *uint8
		hidR *float32
		hidS *bool
		hidT **int
		F    interface{}
		hidU interface{}
		hidV time.Time
		hidW []int
		hidX map[string]int
		hidY []byte
		hidZ *time.Time
		G    hidInner
		hid1 chan int
		hid2 func()
		hid3 [3]int
		hid4 *[]string
		hid5 namedInner
		hid6 namedStr
		hid7 namedInt
		hid8 *hidInner
		hid9 complex128
		H    []hidInner
		Last bool
	}
	hidBase  struct{ X, y int }
	hidInner struct {
		hidA namedU16
		Name string
		hidB *namedBool
		hidC []hidBase
		N    *hidLeaf
	}
	hidLeaf struct {
		hidA int
		hidB string
	}
	outHid struct {
		hidA int
		A    int
		hidB string
		B    string
		hidC []int
		C    []string
		hidD outHidIn
		hidE *int
		hidF map[string]int
		hidG interface{}
		D    outHidIn
		E    []outHidIn
		hidH time.Time
		hidI decVal
		Last float64
	}
	outHidIn struct {
		hidA []byte
		N    uint16
		hidB bool
	}
	hidOnly struct {
		hidA int
		hidB *string
		hidC []int
	}

	// encVal encodes itself by value, encPtr through its pointer
	encVal struct{ A int }
	encPtr struct{ S string }
	// decVal decodes itself through its pointer
	decVal struct {
		Got  string
		Seen int
	}
	// regVal has a registered converter
	regVal struct{ X, Y string }
	// regAny has a registered converter that takes whatever it is given
	regAny struct{ Got string }
	regInt int
)

func (e encVal) EncodeToDxValue(dest *dx.DxValue) {
	switch {
	case e.A < 0:
		dest.SetInt(int64(e.A))
	case e.A%2 == 0:
		dest.SetString(fmt.Sprint("enc", e.A))
	default:
		dest.Reset(dx.VT_Object)
		dest.SetKeyInt("enc", int64(e.A))
	}
}

func (e *encPtr) EncodeToDxValue(dest *dx.DxValue) {
	dest.Reset(dx.VT_Array)
	dest.SetIndexString(0, e.S)
	dest.SetIndexInt(1, int64(len(e.S)))
}

func (d *decVal) DecodeFromDxValue(from *dx.DxValue) {
	d.Got = snap(from).dump()
	d.Seen++
}

var (
	anyType   = reflect.TypeOf((*interface{})(nil)).Elem()
	timeType  = reflect.TypeOf(time.Time{})
	bytesType = reflect.TypeOf([]byte(nil))
)

func init() {
	dx.RegisterTypeMapFunc(reflect.TypeOf(regVal{}), func(f reflect.Value, v *dx.DxValue) {
		f.Field(0).SetString("reg:" + v.AsString("X", "?"))
	})
	dx.RegisterTypeMapFunc(reflect.TypeOf(regAny{}), func(f reflect.Value, v *dx.DxValue) { f.Field(0).SetString(snap(v).dump()) })
	dx.RegisterTypeMapFunc(reflect.TypeOf(regInt(0)), func(f reflect.Value, v *dx.DxValue) { f.SetInt(v.Int() + 1000) })
}

var scalarTypes = []reflect.Type{
	reflect.TypeOf(int(0)), reflect.TypeOf(int8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(int32(0)), reflect.TypeOf(int64(0)),
	reflect.TypeOf(uint(0)), reflect.TypeOf(uint8(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(uint64(0)),
	reflect.TypeOf(""), reflect.TypeOf(false), reflect.TypeOf(float32(0)), reflect.TypeOf(float64(0)), timeType, bytesType,
	reflect.TypeOf(""), reflect.TypeOf(false), timeType, bytesType,
	reflect.TypeOf(namedInt(0)), reflect.TypeOf(namedU16(0)), reflect.TypeOf(namedStr("")), reflect.TypeOf(namedBool(false)), reflect.TypeOf(namedF32(0)), reflect.TypeOf(namedF64(0)),
}

var fieldNames = []string{"A", "B", "ID", "Name", "Value", "List", "When", "Data", "Flag", "Rate", "Xyz", "Zed", "Übung", "Q1"}

func structOf(r *rand.Rand, n int, field func() reflect.Type) reflect.Type {
	var fs []reflect.StructField
	for _, i := range r.Perm(len(fieldNames))[:n] {
		fs = append(fs, reflect.StructField{Name: fieldNames[i], Type: field()})
	}
	if r.IntN(60) == 0 { // a wide struct: the usual fields come last
		var more []reflect.StructField
		for i := 10 + r.IntN(120); i > 0; i-- {
			more = append(more, reflect.StructField{Name: "F" + strconv.Itoa(i), Type: scalarTypes[r.IntN(len(scalarTypes))]})
		}
		fs = append(more, fs...)
	}
	return reflect.StructOf(fs)
}

// genGoType is a type the encoder supports.
func genGoType(r *rand.Rand, depth int) reflect.Type {
	if depth <= 0 || r.IntN(3) == 0 {
		return scalarTypes[r.IntN(len(scalarTypes))]
	}
	sub := func() reflect.Type { return genGoType(r, depth-1) }
	switch r.IntN(14) {
	case 0, 1:
		return anyType
	case 2, 3:
		return reflect.PointerTo(sub())
	case 4, 5:
		for {
			if t := sub(); t.Kind() != reflect.Uint8 {
				return reflect.SliceOf(t)
			}
		}
	case 6:
		return reflect.MapOf(reflect.TypeOf(""), sub())
	case 7:
		return reflect.MapOf(reflect.TypeOf(namedStr("")), sub())
	case 8, 9:
		return structOf(r, r.IntN(6), sub)
	case 10:
		return []reflect.Type{reflect.TypeOf(map[string]interface{}(nil)), reflect.TypeOf(map[string]string(nil)), reflect.TypeOf(map[string]int(nil)), reflect.TypeOf([]interface{}(nil)), reflect.TypeOf([]string(nil))}[r.IntN(5)]
	case 11:
		return []reflect.Type{reflect.TypeOf(map[string][]byte(nil)), reflect.TypeOf([]*[]byte(nil)),
			reflect.TypeOf(namedMap(nil)), reflect.TypeOf(namedMap2(nil)), reflect.TypeOf(namedSlice(nil)), reflect.TypeOf(namedSlice2(nil))}[r.IntN(4)]
	case 12:
		return []reflect.Type{reflect.TypeOf(namedStruct{}), reflect.TypeOf(namedInner{}), reflect.TypeOf(ptrStruct{})}[r.IntN(3)]
	}
	return []reflect.Type{reflect.TypeOf(encVal{}), reflect.TypeOf(&encPtr{}), reflect.TypeOf(&encVal{})}[r.IntN(3)]
}

func genInstant(r *rand.Rand) time.Time {
	lo := time.Date(1900, 1, 3, 0, 0, 0, 0, time.UTC).Unix()
	hi := time.Date(2190, 1, 1, 0, 0, 0, 0, time.UTC).Unix()
	t := time.Unix(lo+r.Int64N(hi-lo), r.Int64N(1e9))
	switch r.IntN(5) {
	case 0:
		t = t.Truncate(time.Second)
	case 1:
		t = t.Truncate(24 * time.Hour)
	case 2:
		t = t.Truncate(time.Millisecond)
	case 3:
		t = t.Truncate(24 * time.Hour).Add(-time.Duration(r.IntN(3)) * time.Millisecond)
	}
	switch r.IntN(6) {
	case 0: // the first or last moments of a local day
		l := t.In(time.Local)
		t = time.Date(l.Year(), l.Month(), l.Day(), 0, 0, 0, 0, time.Local).Add(time.Duration(r.Int64N(int64(2*time.Hour))) - time.Duration(r.Int64N(int64(2*time.Hour))))
	case 1: // around a change of the local offset
		if from, to := t.In(time.Local).ZoneBounds(); !from.IsZero() && r.IntN(2) == 0 {
			t = from.Add(time.Duration(r.IntN(7)-3) * 30 * time.Minute)
		} else if !to.IsZero() {
			t = to.Add(time.Duration(r.IntN(7)-3)*30*time.Minute - time.Duration(r.IntN(2))*time.Millisecond)
		}
		if t.Unix() < lo || t.Unix() >= hi {
			t = time.Unix(lo, 0)
		}
	}
	switch r.IntN(4) {
	case 0:
		return t.UTC()
	case 1:
		return t.In(time.FixedZone("z", (r.IntN(27)-13)*3600+r.IntN(2)*1800))
	}
	return t
}

// genGo makes a value of type t and the tree it should convert to.
func genGo(r *rand.Rand, t reflect.Type, depth int) (reflect.Value, *N) {
	return genGoLen(r, t, depth, -1)
}

// genGoLen: with size elements when t is a slice or map and size is not negative.
func genGoLen(r *rand.Rand, t reflect.Type, depth, size int) (reflect.Value, *N) {
	v := reflect.New(t).Elem()
	switch t {
	case timeType:
		x := genInstant(r)
		v.Set(reflect.ValueOf(x))
		return v, &N{K: KTime, F: dayOf(x), T: x}
	case bytesType:
		b := genBytes(r)
		if r.IntN(8) == 0 {
			b = nil
		}
		v.SetBytes(bytes.Clone(b))
		return v, nBin(b)
	case reflect.TypeOf(encVal{}):
		e := encVal{r.IntN(10) - 4}
		v.Set(reflect.ValueOf(e))
		switch {
		case e.A < 0:
			return v, nInt(int64(e.A))
		case e.A%2 == 0:
			return v, nStr(fmt.Sprint("enc", e.A))
		}
		return v, nObj().add("enc", nInt(int64(e.A)))
	case reflect.TypeOf(&encPtr{}):
		if r.IntN(5) == 0 {
			return v, nNull()
		}
		e := &encPtr{genString(r)}
		v.Set(reflect.ValueOf(e))
		return v, nArr(nStr(e.S), nInt(int64(len(e.S))))
	case reflect.TypeOf(&dx.DxValue{}):
		n := genTree(r, treeOpt{Root: -1, Kinds: allKinds, Budget: 8})
		v.Set(reflect.ValueOf(fresh(r, n, r.IntN(3) == 0)))
		return v, n
	}
	few := func() int {
		if size >= 0 {
			return size
		}
		if depth <= 0 {
			return r.IntN(2)
		}
		if r.IntN(100) == 0 {
			return 8 + r.IntN(300)
		}
		return []int{0, 1, 2, 3, 7}[r.IntN(5)]
	}
	switch t.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		x := genInt(r)
		switch r.IntN(4) {
		case 0:
			x = -1 << (t.Bits() - 1)
		case 1:
			x = 1<<(t.Bits()-1) - 1
		}
		v.SetInt(x << (64 - t.Bits()) >> (64 - t.Bits()))
		return v, nInt(v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		x := uint64(genInt(r))
		if r.IntN(3) == 0 {
			x = math.MaxUint64
		}
		x = x << (64 - t.Bits()) >> (64 - t.Bits())
		v.SetUint(x & math.MaxInt64)
		return v, nInt(int64(v.Uint()))
	case reflect.String:
		v.SetString(genString(r))
		return v, nStr(v.String())
	case reflect.Bool:
		v.SetBool(r.IntN(2) == 0)
		return v, nBool(v.Bool())
	case reflect.Float32:
		v.SetFloat(float64(genFloat32(r, true)))
		return v, nFlt(float32(v.Float()))
	case reflect.Float64:
		v.SetFloat(genFloat(r, true))
		return v, nDbl(v.Float())
	case reflect.Interface:
		if r.IntN(5) == 0 {
			return v, nNull()
		}
		t := genGoType(r, depth-1)
		if r.IntN(12) == 0 {
			t = reflect.TypeOf(&dx.DxValue{})
		}
		x, n := genGo(r, t, depth-1)
		if x.Kind() == reflect.Interface && x.IsNil() {
			return v, nNull()
		}
		v.Set(x)
		return v, n
	case reflect.Pointer:
		if r.IntN(4) == 0 {
			return v, nNull()
		}
		x, n := genGo(r, t.Elem(), depth-1)
		if x.Kind() == reflect.Interface && !x.IsNil() && x.Elem().Type() == reflect.TypeOf(&dx.DxValue{}) {
			return v, nNull() // trees are passed directly
		}
		v.Set(reflect.New(t.Elem()))
		v.Elem().Set(x)
		return v, n
	case reflect.Slice:
		n := nArr()
		k := few()
		if k > 0 || r.IntN(2) == 0 {
			v.Set(reflect.MakeSlice(t, 0, k))
		}
		for i := 0; i < k; i++ {
			x, m := genGo(r, t.Elem(), depth-1)
			v.Set(reflect.Append(v, x))
			n.C = append(n.C, m)
		}
		return v, n
	case reflect.Map:
		n := nObj()
		k := few()
		if k > 0 || r.IntN(2) == 0 {
			v.Set(reflect.MakeMap(t))
		}
		for i := 0; i < k; i++ {
			key := genKey(r)
			if n.idx(key) >= 0 {
				continue
			}
			x, m := genGo(r, t.Elem(), depth-1)
			v.SetMapIndex(reflect.ValueOf(key).Convert(t.Key()), x)
			n.add(key, m)
		}
		return v, n
	case reflect.Struct:
		n := nObj()
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if k := f.Type.Kind(); !f.IsExported() && (k == reflect.Chan || k == reflect.Func || k == reflect.Array || k == reflect.Complex128) {
				continue
			}
			x, m := genGo(r, f.Type, depth-1)
			if f.IsExported() {
				v.Field(i).Set(x)
			} else {
				reflect.NewAt(f.Type, v.Field(i).Addr().UnsafePointer()).Elem().Set(x)
			}
			n.add(f.Name, m)
		}
		return v, n
	}
	panic("genGo: " + t.String())
}

func goText(v reflect.Value) string {
	s := fmt.Sprintf("%s %#v", v.Type(), v)
	return clip(s, 1500)
}

// hasMap tells whether a map with several keys is in the value (its order is open).
func hasMap(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Interface, reflect.Pointer:
		if v.Type() == reflect.TypeOf(&dx.DxValue{}) || v.IsNil() {
			return false
		}
		return hasMap(v.Elem())
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			if hasMap(v.Index(i)) {
				return true
			}
		}
	case reflect.Map:
		if v.Len() > 1 {
			return true
		}
		for _, k := range v.MapKeys() {
			if hasMap(v.MapIndex(k)) {
				return true
			}
		}
	case reflect.Struct:
		if v.Type() == timeType {
			return false
		}
		for i := 0; i < v.NumField(); i++ {
			if hasMap(v.Field(i)) {
				return true
			}
		}
	}
	return false
}

func convertCase(c *C) {
	depth := 1 + c.R.IntN(4)
	t := genGoType(c.R, depth)
	x, n := genGo(c.R, t, depth)
	convert(c, x, n)
}

var longTypes = []reflect.Type{
	reflect.TypeOf([]interface{}(nil)), reflect.TypeOf([]string(nil)), reflect.TypeOf([]int(nil)), reflect.TypeOf([]bool(nil)), reflect.TypeOf([]float32(nil)), reflect.TypeOf([]float64(nil)),
	reflect.TypeOf([]int8(nil)), reflect.TypeOf([]uint16(nil)), reflect.TypeOf([]uint32(nil)), reflect.TypeOf([]int64(nil)), reflect.TypeOf([]time.Time(nil)), reflect.TypeOf([][]byte(nil)),
	reflect.TypeOf([]map[string]interface{}(nil)), reflect.TypeOf([]namedInner(nil)), reflect.TypeOf([]*int(nil)), reflect.TypeOf([][]int(nil)),
	reflect.TypeOf(map[string]interface{}(nil)), reflect.TypeOf(map[string]string(nil)), reflect.TypeOf(map[string]int(nil)), reflect.TypeOf(map[string]int64(nil)), reflect.TypeOf(map[string]bool(nil)),
	reflect.TypeOf(map[string][]int(nil)), reflect.TypeOf(map[namedStr]int(nil)), reflect.TypeOf(map[string]float64(nil)), reflect.TypeOf(map[string]time.Time(nil)),
	reflect.TypeOf(map[string][]byte(nil)), reflect.TypeOf([]*[]byte(nil)),
	reflect.TypeOf(namedMap(nil)), reflect.TypeOf(namedMap2(nil)), reflect.TypeOf(namedSlice(nil)), reflect.TypeOf(namedSlice2(nil)),
}

// longCase converts a container of many elements, bare or behind pointers, interfaces and containers.
func longCase(c *C, i int) {
	r := c.R
	t := longTypes[i%len(longTypes)]
	k := []int{100, 250, 256, 300, 512, 1024, 1100, 2048, 5000}[r.IntN(9)] + r.IntN(10)
	x, n := genGoLen(r, t, 1, k)
	for w := r.IntN(4); w > 0; w-- {
		switch r.IntN(5) {
		case 0, 1:
			p := reflect.New(x.Type())
			p.Elem().Set(x)
			x = p
		case 2:
			s := reflect.MakeSlice(reflect.TypeOf([]interface{}(nil)), 1, 1)
			s.Index(0).Set(x)
			x, n = s, nArr(n)
		case 3:
			m := reflect.MakeMap(reflect.TypeOf(map[string]interface{}(nil)))
			m.SetMapIndex(reflect.ValueOf("in"), x)
			x, n = m, nObj().add("in", n)
		case 4:
			s := reflect.New(reflect.StructOf([]reflect.StructField{{Name: "F", Type: x.Type()}})).Elem()
			s.Field(0).Set(x)
			x, n = s, nObj().add("F", n)
		}
	}
	convert(c, x, n)
}

// hiddenCase converts structs with fields that are not exported. Whether these get an entry is left open.
func hiddenCase(c *C, i int) {
	r := c.R
	hid := []reflect.Type{reflect.TypeOf(hidStruct{}), reflect.TypeOf(hidInner{}), reflect.TypeOf(hidLeaf{}), reflect.TypeOf(hidOnly{})}[[]int{0, 0, 0, 1, 2, 3}[i%6]]
	t := hid
	switch r.IntN(6) {
	case 0:
		t = reflect.PointerTo(hid)
	case 1:
		t = reflect.SliceOf(hid)
	case 2:
		t = reflect.MapOf(reflect.TypeOf(""), reflect.PointerTo(hid))
	case 3:
		t = reflect.StructOf([]reflect.StructField{{Name: "In", Type: hid}, {Name: "P", Type: reflect.PointerTo(hid)}})
	}
	x, n := genGo(r, t, 4)
	got := snap(dx.NewValueFrom(x.Interface(), r.IntN(2) == 0))
	var settle func(n, got *N)
	settle = func(n, got *N) {
		switch {
		case n.K == KObj && got.K == KObj:
			for k := len(n.Keys) - 1; k >= 0; k-- {
				g := got.idx(n.Keys[k])
				if g >= 0 {
					settle(n.C[k], got.C[g])
				}
				if strings.HasPrefix(n.Keys[k], "hid") || n.Keys[k] == "y" {
					if g < 0 {
						n.Keys, n.C = append(n.Keys[:k:k], n.Keys[k+1:]...), append(n.C[:k:k], n.C[k+1:]...)
						c.Ev("hidden fields without entry", 1)
					} else {
						c.Ev("hidden fields with entry", 1)
					}
				}
			}
		case n.K == KArr && got.K == KArr:
			for k := 0; k < len(n.C) && k < len(got.C); k++ {
				settle(n.C[k], got.C[k])
			}
		}
	}
	settle(n, got)
	convert(c, x, n)
}

// scramble overwrites every byte slice in a Go value.
func scramble(v reflect.Value, depth int) (k int64) {
	if depth > 12 {
		return 0
	}
	switch v.Kind() {
	case reflect.Interface, reflect.Pointer:
		if v.Type() != reflect.TypeOf(&dx.DxValue{}) && !v.IsNil() {
			return scramble(v.Elem(), depth+1)
		}
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			for i := range v.Bytes() {
				v.Bytes()[i] ^= 0x5a
			}
			if v.Len() > 0 {
				return 1
			}
			return 0
		}
		for i := 0; i < v.Len(); i++ {
			k += scramble(v.Index(i), depth+1)
		}
	case reflect.Map:
		for _, m := range v.MapKeys() {
			k += scramble(v.MapIndex(m), depth+1)
		}
	case reflect.Struct:
		if v.Type() == timeType || v.Type() == reflect.TypeOf(dx.DxValue{}) {
			return 0
		}
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				k += scramble(v.Field(i), depth+1)
			}
		}
	}
	return
}

func convert(c *C, x reflect.Value, n *N) {
	r, t := c.R, x.Type()
	var how string
	c.Describe(func() string { return how + " " + goText(x) + "\nexpected " + n.dump() })
	o := diffOpt{TimeTol: 0.01 * msDays, Unordered: hasMap(x)}
	in := x.Interface()
	var root *dx.DxValue
	var whole *N
	cached := r.IntN(2) == 0
	switch r.IntN(5) {
	case 0:
		how = "NewValueFrom"
		v := dx.NewValueFrom(in, cached)
		c.same(how, n, v, o)
		if root, whole = v, n; r.IntN(2) == 0 {
			break
		}
		root = nil
		if d := usableTree(v); d != "" {
			c.Failf("%s: %s", how, d)
		}
	case 1:
		v, prev := prevValue(r, cached)
		if v.ReadOnly() {
			return
		}
		if v.DataType == dx.VT_DateTime && n.K == KDbl || v.DataType == dx.VT_Double && n.K == KTime {
			v.Reset(dx.VT_Object)
		}
		how = "SetValue over " + prev
		v.SetValue(in)
		c.same(how, n, v, o)
		root, whole = v, n
	case 2:
		how = "SetKeyvalue"
		v := dx.NewObject(cached)
		m := nObj()
		for k := r.IntN(4); k > 0; k-- { // other entries stay
			key := fmt.Sprint("other", k)
			w := nStr(genString(r))
			v.SetKeyString(key, w.S)
			m.add(key, w)
		}
		key := genKey(r)
		for m.idx(key) >= 0 {
			key = genKey(r)
		}
		if r.IntN(3) == 0 && n.K != KTime && n.K != KDbl { // over any entry
			_, old := setScalar(r, v.SetKey(key, dx.VT_Int))
			how += " over " + old
			if r.IntN(3) == 0 {
				tp := []dx.ValueType{dx.VT_Object, dx.VT_Array}[r.IntN(2)]
				fill(r, v.SetKey(key, tp), genTree(r, treeOpt{Root: int(tp), Budget: 6}))
			}
		}
		v.SetKeyvalue(key, in, v.ValueCache())
		m.add(key, n)
		c.same(how, m, v, o)
		root, whole = v, m
	case 3, 4:
		how = "SetIndexvalue"
		v := dx.NewArray(cached)
		m := nArr()
		for k := r.IntN(4); k > 0; k-- {
			w := nStr(genString(r))
			v.SetIndexString(v.Count(), w.S)
			m.C = append(m.C, w)
		}
		i := v.Count()
		if i > 0 && r.IntN(3) == 0 {
			i = r.IntN(i)
			m.C[i] = n
			if n.K != KTime && n.K != KDbl && r.IntN(2) == 0 { // which holds a container
				tp := []dx.ValueType{dx.VT_Object, dx.VT_Array}[r.IntN(2)]
				fill(r, v.SetIndex(i, tp), genTree(r, treeOpt{Root: int(tp), Budget: 6}))
				how += " over a container"
			}
		} else {
			m.C = append(m.C, n)
		}
		v.SetIndexvalue(i, in, v.ValueCache())
		c.same(how, m, v, o)
		root, whole = v, m
	}
	if root != nil { // the source is the caller's own
		if k := scramble(x, 0); k > 0 {
			c.same(how+"; after the byte slices of the Go value were overwritten", whole, root, o)
			c.Ev("source byte slices overwritten", k)
		}
	}
	c.Ev("conversions "+strings.Fields(how)[0], 1)
	c.Ev("nodes converted", int64(n.count()))
	c.NonTrivial(how, n.dump(), t.String())
}

func usableTree(v *dx.DxValue) string {
	if v.ReadOnly() {
		return ""
	}
	v.SetKeyString("after", "text")
	if v.DataType == dx.VT_Object && v.AsString("after", "") != "text" {
		return "the tree takes no further entries"
	}
	return ""
}

// ---------------------------------------------------------------------------------------------
// C25: export

// genOutType is a type the exporter supports.
func genOutType(r *rand.Rand, depth int) reflect.Type {
	if depth <= 0 || r.IntN(3) == 0 {
		return scalarTypes[r.IntN(len(scalarTypes))]
	}
	sub := func() reflect.Type { return genOutType(r, depth-1) }
	switch r.IntN(12) {
	case 0, 1:
		return anyType
	case 2, 3, 4:
		for {
			if t := sub(); t.Kind() != reflect.Uint8 {
				return reflect.SliceOf(t)
			}
		}
	case 5, 6, 7:
		return structOf(r, r.IntN(6), sub)
	case 8:
		return reflect.TypeOf(namedStruct{})
	case 9:
		return []reflect.Type{reflect.TypeOf(namedInner{}), reflect.TypeOf(namedSlice(nil)), reflect.TypeOf(namedSlice2(nil)), reflect.TypeOf([]string(nil)), reflect.TypeOf([]interface{}(nil))}[r.IntN(5)]
	case 10:
		return []reflect.Type{reflect.TypeOf(decVal{}), reflect.TypeOf(&decVal{})}[r.IntN(2)]
	}
	return []reflect.Type{reflect.TypeOf(regVal{}), reflect.TypeOf(regInt(0)), reflect.TypeOf(regAny{})}[r.IntN(3)]
}

// genFor makes a tree whose content fits type t (the reverse of exporting).
func genFor(r *rand.Rand, t reflect.Type, depth int) *N {
	switch t {
	case timeType:
		x := genInstant(r)
		return &N{K: KTime, F: dayOf(x), T: x}
	case bytesType:
		return nBin(genBytes(r))
	case reflect.TypeOf(decVal{}), reflect.TypeOf(&decVal{}), reflect.TypeOf(regAny{}), anyType:
		n := genTree(r, treeOpt{Root: []int{0, 1, -1, -1}[r.IntN(4)], Kinds: []Kind{KStr, KInt, KDbl, KFlt, KBin, KNull, KTrue, KFalse}, Budget: 6})
		return n
	case reflect.TypeOf(regVal{}):
		return nObj().add("X", nStr(genString(r))).add("Z", nInt(1))
	case reflect.TypeOf(regInt(0)):
		return nInt(int64(r.IntN(1000)))
	}
	if t.Kind() == reflect.Slice {
		n := nArr()
		k := []int{0, 1, 2, 3, 7}[r.IntN(5)]
		if r.IntN(100) == 0 {
			k = 8 + r.IntN(300)
		}
		for ; k > 0; k-- {
			n.C = append(n.C, genFor(r, t.Elem(), depth-1))
		}
		return n
	}
	if t.Kind() == reflect.Struct {
		n := nObj()
		for _, i := range r.Perm(t.NumField()) {
			if r.IntN(6) > 0 {
				n.add(t.Field(i).Name, genFor(r, t.Field(i).Type, depth-1))
			}
		}
		for k := r.IntN(3); k > 0; k-- { // entries without counterpart
			if key := genKey(r); n.idx(key) < 0 && !nameClash(t, key) {
				insertEntry(r, n, key, genTree(r, treeOpt{Root: -1, Budget: 4}))
			}
		}
		return n
	}
	_, n := genGo(r, t, depth)
	return n
}

func insertEntry(r *rand.Rand, n *N, key string, x *N) {
	at := r.IntN(len(n.C) + 1)
	n.Keys = append(n.Keys[:at:at], append([]string{key}, n.Keys[at:]...)...)
	n.C = append(n.C[:at:at], append([]*N{x}, n.C[at:]...)...)
}

// miscase adds entries that would name a field if case did not matter.
func miscase(r *rand.Rand, t reflect.Type, n *N) {
	if t == timeType || t == reflect.TypeOf(regVal{}) || t == reflect.TypeOf(regAny{}) || t == reflect.TypeOf(decVal{}) {
		return
	}
	switch {
	case t.Kind() == reflect.Slice && n.K == KArr:
		for _, x := range n.C {
			miscase(r, t.Elem(), x)
		}
	case t.Kind() == reflect.Struct && n.K == KObj:
		for i, k := range n.Keys {
			if f, ok := t.FieldByName(k); ok {
				miscase(r, f.Type, n.C[i])
			}
		}
		for i := 0; i < t.NumField(); i++ {
			if k := swapCase(r, t.Field(i).Name); r.IntN(4) == 0 && n.idx(k) < 0 {
				if _, ok := t.FieldByName(k); !ok {
					insertEntry(r, n, k, genTree(r, treeOpt{Root: -1, Budget: 3}))
				}
			}
		}
	}
}

func nameClash(t reflect.Type, key string) bool {
	for i := 0; i < t.NumField(); i++ {
		if strings.EqualFold(t.Field(i).Name, key) {
			return true
		}
	}
	return false
}

// recase changes the case of some keys that name struct fields.
func recase(r *rand.Rand, t reflect.Type, n *N) {
	if t == timeType || t == reflect.TypeOf(regVal{}) || t == reflect.TypeOf(regAny{}) || t == reflect.TypeOf(decVal{}) {
		return
	}
	switch {
	case t.Kind() == reflect.Slice && n.K == KArr:
		for _, x := range n.C {
			recase(r, t.Elem(), x)
		}
	case t.Kind() == reflect.Struct && n.K == KObj:
		for i, k := range n.Keys {
			if f, ok := t.FieldByName(k); ok {
				recase(r, f.Type, n.C[i])
				n.Keys[i] = swapCase(r, k)
			}
		}
	}
}

// expectGo stores what exporting n into dest should store.
func expectGo(dest reflect.Value, n *N, fold bool) {
	t := dest.Type()
	switch t {
	case timeType:
		dest.Set(reflect.ValueOf(n.T))
		return
	case bytesType:
		dest.SetBytes(append([]byte(nil), n.B...))
		return
	case anyType:
		if x := stdOf(n); x != nil {
			dest.Set(reflect.ValueOf(x))
		} else {
			dest.SetZero()
		}
		return
	case reflect.TypeOf(decVal{}):
		d := dest.Addr().Interface().(*decVal)
		d.Got, d.Seen = n.dump(), d.Seen+1
		return
	case reflect.TypeOf(&decVal{}):
		if dest.IsNil() {
			dest.Set(reflect.ValueOf(&decVal{}))
		}
		d := dest.Interface().(*decVal)
		d.Got, d.Seen = n.dump(), d.Seen+1
		return
	case reflect.TypeOf(regAny{}):
		dest.Field(0).SetString(n.dump())
		return
	case reflect.TypeOf(regVal{}):
		dest.Field(0).SetString("reg:" + n.C[0].S)
		return
	case reflect.TypeOf(regInt(0)):
		dest.SetInt(n.I + 1000)
		return
	}
	switch t.Kind() {
	case reflect.Slice:
		dest.Set(reflect.MakeSlice(t, len(n.C), len(n.C)))
		for i := range n.C {
			expectGo(dest.Index(i), n.C[i], fold)
		}
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			for j, k := range n.Keys {
				if k == t.Field(i).Name || fold && strings.EqualFold(k, t.Field(i).Name) {
					expectGo(dest.Field(i), n.C[j], fold)
				}
			}
		}
	case reflect.String:
		dest.SetString(n.S)
	case reflect.Bool:
		dest.SetBool(n.K == KTrue)
	case reflect.Float32, reflect.Float64:
		dest.SetFloat(n.F)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		dest.SetInt(n.I)
	default:
		dest.SetUint(uint64(n.I))
	}
}

// stdOf is the generic Go value of a tree.
func stdOf(n *N) interface{} {
	switch n.K {
	case KObj:
		m := map[string]interface{}{}
		for i, k := range n.Keys {
			m[k] = stdOf(n.C[i])
		}
		return m
	case KArr:
		a := []interface{}{}
		for _, x := range n.C {
			a = append(a, stdOf(x))
		}
		return a
	case KStr:
		return n.S
	case KInt:
		return n.I
	case KDbl:
		return n.F
	case KFlt:
		return float32(n.F)
	case KTime:
		return n.T
	case KBin, KExt:
		return n.B
	case KTrue, KFalse:
		return n.K == KTrue
	case KNaN:
		return math.NaN()
	case KInf:
		return math.Inf(1)
	}
	return nil
}

// goDiff compares Go values: nil and empty slices alike, times within about 2 ms, NaN equal to itself.
func goDiff(a, b reflect.Value, path string) string {
	if a.Type() != b.Type() {
		return fmt.Sprintf("%s: %s instead of %s", path, b.Type(), a.Type())
	}
	if a.Type() == timeType {
		d := b.Interface().(time.Time).Sub(a.Interface().(time.Time))
		if d > 510*time.Microsecond || d < -510*time.Microsecond {
			return fmt.Sprintf("%s: %v instead of %v", path, b, a)
		}
		return ""
	}
	switch a.Kind() {
	case reflect.Interface, reflect.Pointer:
		if a.IsNil() || b.IsNil() {
			if a.IsNil() != b.IsNil() {
				return fmt.Sprintf("%s: %v instead of %v", path, b, a)
			}
			return ""
		}
		return goDiff(a.Elem(), b.Elem(), path)
	case reflect.Slice:
		if a.Type() == bytesType {
			if !bytes.Equal(a.Bytes(), b.Bytes()) {
				return fmt.Sprintf("%s: bytes %x instead of %x", path, clipB(b.Bytes()), clipB(a.Bytes()))
			}
			return ""
		}
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s: %d elements instead of %d", path, b.Len(), a.Len())
		}
		for i := 0; i < a.Len(); i++ {
			if d := goDiff(a.Index(i), b.Index(i), fmt.Sprintf("%s[%d]", path, i)); d != "" {
				return d
			}
		}
	case reflect.Map:
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s: %d keys instead of %d", path, b.Len(), a.Len())
		}
		for _, k := range a.MapKeys() {
			x := b.MapIndex(k)
			if !x.IsValid() {
				return fmt.Sprintf("%s: no key %q", path, k)
			}
			if d := goDiff(a.MapIndex(k), x, fmt.Sprintf("%s[%q]", path, k)); d != "" {
				return d
			}
		}
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if d := goDiff(a.Field(i), b.Field(i), path+"."+a.Type().Field(i).Name); d != "" {
				return d
			}
		}
	case reflect.Float32, reflect.Float64:
		if !sameFloat(a.Float(), b.Float()) {
			return fmt.Sprintf("%s: %v instead of %v", path, b, a)
		}
	case reflect.String:
		if a.String() != b.String() {
			return fmt.Sprintf("%s: %q instead of %q", path, clip(b.String(), 300), clip(a.String(), 300))
		}
	case reflect.Chan, reflect.Func:
		if a.IsNil() != b.IsNil() {
			return path + ": changed"
		}
	default:
		if !a.Equal(b) {
			return fmt.Sprintf("%s: %v instead of %v", path, b, a)
		}
	}
	return ""
}

// exportable realises a tree: built, or decoded from MsgPack or BSON when it has no date-times.
func exportable(r *rand.Rand, n *N) (*dx.DxValue, string) {
	plain, js := true, true
	n.walk(func(x *N) {
		plain = plain && x.K != KTime && x.K != KNaN && x.K != KInf
		js = js && x.K != KBin && x.K != KExt && x.K != KDbl && x.K != KFlt && !(x.K == KStr && (dateDialect(x.S) || hasPercentHex(x.S)))
		for _, k := range x.Keys {
			js = js && !hasPercentHex(k)
		}
	})
	js = js && plain
	switch r.IntN(4) {
	case 0:
		if js {
			v, err := dx.NewValueFromJson(writeJSON(r, n, genStyle(r)), r.IntN(2) == 0, r.IntN(2) == 0)
			if err == nil {
				return v, "json"
			}
		}
	case 1:
		if plain {
			if v, err := dx.NewValueFromMsgPack(encMP(r, n, r.IntN(2) == 0, nil), r.IntN(2) == 0, r.IntN(2) == 0); err == nil {
				return v, "msgpack"
			}
		}
	}
	return fresh(r, n, r.IntN(2) == 0), "built"
}

func exportCase(c *C) {
	r := c.R
	depth := 1 + r.IntN(4)
	var t reflect.Type
	for {
		t = genOutType(r, depth)
		if k := t.Kind(); t == bytesType || t == timeType || k == reflect.Slice || k == reflect.Struct || t.PkgPath() == "" && k != reflect.Interface {
			break
		}
	}
	if t == reflect.TypeOf(regVal{}) || t == reflect.TypeOf(regAny{}) || t == reflect.TypeOf(&decVal{}) { // converters apply to fields and elements
		t = reflect.SliceOf(t)
	}
	n := genFor(r, t, depth)
	fold := r.IntN(2) == 0
	if fold {
		recase(r, t, n)
	} else {
		miscase(r, t, n)
	}
	dest, want := reflect.New(t), reflect.New(t)
	prefilled := r.IntN(2) == 0
	if prefilled { // what has no counterpart stays
		seed := r.Uint64()
		for _, d := range []reflect.Value{dest, want} {
			x := junk(rand.New(rand.NewPCG(seed, 1)), t, depth)
			d.Elem().Set(x)
		}
	}
	v, origin := exportable(r, n)
	before := snap(v)
	c.Describe(func() string {
		return fmt.Sprintf("%s fold=%v prefilled=%v %s <- %s", origin, fold, prefilled, t, n.dump())
	})
	expectGo(want.Elem(), n, fold)
	if !v.ToStdValue(dest.Interface(), fold) {
		c.Failf("exporting into %s reports that it is not supported", t)
	}
	if d := goDiff(want.Elem(), dest.Elem(), "target"); d != "" {
		c.Failf("exported: %s", d)
	}
	c.same("the tree after exporting", before, v, diffOpt{})
	c.Ev("typed exports", 1)
	c.NonTrivial(t.String(), n.dump(), fmt.Sprint(fold, prefilled))
}

// hiddenTarget exports into structs with fields that are not exported: these stay as they are.
func hiddenTarget(c *C) {
	r := c.R
	n := nObj()
	put := func(k string, f func() *N) {
		if r.IntN(4) > 0 {
			insertEntry(r, n, k, f())
		}
	}
	num := func() *N { return nInt(int64(r.IntN(60000))) }
	str := func() *N { return nStr(genString(r)) }
	in := func() *N {
		x := nObj()
		for _, k := range []string{"hidA", "N", "hidB"} {
			if r.IntN(4) > 0 {
				insertEntry(r, x, k, num())
			}
		}
		return x
	}
	any := func() *N { return genTree(r, treeOpt{Root: -1, Budget: 4}) }
	for _, k := range []string{"hidA", "hidB", "hidC", "hidD", "hidE", "hidF", "hidG", "hidH", "hidI"} {
		put(k, any)
	}
	put("A", num)
	put("B", str)
	put("C", func() *N { return nArr(str(), str()) })
	put("D", in)
	put("E", func() *N { return nArr(in(), in()) })
	put("Last", func() *N { return nDbl(genFloat(r, false)) })
	mk := func() *outHid {
		one := 1
		return &outHid{hidA: 7, A: 8, hidB: "x", B: "y", hidC: []int{1, 2}, C: []string{"z"}, hidD: outHidIn{hidA: []byte("b"), N: 3, hidB: true}, hidE: &one, hidF: map[string]int{"k": 1}, hidG: "g",
			D: outHidIn{hidA: []byte("c"), N: 4}, hidH: time.Unix(1e9, 0), hidI: decVal{Got: "q", Seen: 2}, Last: 1.5}
	}
	dest, want := mk(), mk()
	for i, k := range n.Keys {
		x := n.C[i]
		inner := func(d *outHidIn, x *N) {
			if j := x.idx("N"); j >= 0 {
				d.N = uint16(x.C[j].I)
			}
		}
		switch k {
		case "A":
			want.A = int(x.I)
		case "B":
			want.B = x.S
		case "C":
			want.C = []string{x.C[0].S, x.C[1].S}
		case "D":
			inner(&want.D, x)
		case "E":
			want.E = make([]outHidIn, 2)
			inner(&want.E[0], x.C[0])
			inner(&want.E[1], x.C[1])
		case "Last":
			want.Last = x.F
		}
	}
	v, origin := exportable(r, n)
	fold := r.IntN(2) == 0
	c.Describe(func() string { return fmt.Sprintf("%s fold=%v <- %s", origin, fold, n.dump()) })
	v.ToStdValue(dest, fold)
	if !reflect.DeepEqual(dest, want) {
		c.Failf("exported %+v instead of %+v", *dest, *want)
	}
	c.Ev("exports beside hidden fields", 1)
	c.NonTrivial("hidden", n.dump(), fold)
}

// junk is a value of a target type with some content.
func junk(r *rand.Rand, t reflect.Type, depth int) reflect.Value {
	v := reflect.New(t).Elem()
	switch t {
	case anyType:
		v.Set(reflect.ValueOf("old"))
		return v
	case reflect.TypeOf(decVal{}):
		v.Set(reflect.ValueOf(decVal{"old", 3}))
		return v
	case reflect.TypeOf(&decVal{}):
		if r.IntN(2) == 0 {
			v.Set(reflect.ValueOf(&decVal{"old", 3}))
		}
		return v
	case reflect.TypeOf(regAny{}):
		v.Set(reflect.ValueOf(regAny{"old"}))
		return v
	case reflect.TypeOf(regVal{}):
		v.Set(reflect.ValueOf(regVal{"oldx", "oldy"}))
		return v
	}
	switch {
	case t.Kind() == reflect.Slice && t != bytesType:
		for k := r.IntN(4); k > 0; k-- {
			v.Set(reflect.Append(v, junk(r, t.Elem(), depth-1)))
		}
	case t.Kind() == reflect.Struct && t != timeType:
		for i := 0; i < t.NumField(); i++ {
			v.Field(i).Set(junk(r, t.Field(i).Type, depth-1))
		}
	default:
		x, _ := genGo(r, t, 0)
		v.Set(x)
	}
	return v
}

// genericCase exports any tree into generic containers.
func genericCase(c *C) {
	r := c.R
	n := genTree(r, treeOpt{Root: []int{0, 0, 1, 1, -1}[r.IntN(5)], Kinds: []Kind{KStr, KStr, KInt, KDbl, KFlt, KBin, KExt, KTime, KNull, KTrue, KFalse, KNaN, KInf}})
	if r.IntN(80) == 0 { // many entries
		n.C, n.Keys = nil, nil
		if n.K > KArr {
			n = nArr()
		}
		for k := []int{300, 1030, 2050, 5000}[r.IntN(4)]; k > 0; k-- {
			n.C = append(n.C, genNode(r, &treeOpt{Str: genString, Key: genKey, Kinds: []Kind{KStr, KInt, KDbl, KNull}}, 0, new(int), -1))
			if n.K == KObj {
				n.Keys = append(n.Keys, fmt.Sprint("k", k))
			}
		}
	}
	setTimes(r, n, time.Millisecond)
	v, origin := exportable(r, n)
	c.Describe(func() string { return origin + " " + n.dump() })
	c.NonTrivial(n.dump())
	check := func(what string, want, got interface{}) {
		if d := goDiff(reflect.ValueOf(want), reflect.ValueOf(got), what); d != "" {
			c.Failf("exported: %s", d)
		}
		c.Ev("generic exports", 1)
	}
	// map[string]interface{}: entries of the tree are stored, others stay
	m := map[string]interface{}{"\x01stays": 7}
	ok := v.ToStdValue(m, r.IntN(2) == 0)
	if ok != (n.K == KObj) {
		c.Failf("export into a map reports %v", ok)
	}
	want := map[string]interface{}{"\x01stays": 7}
	if n.K == KObj {
		for i, k := range n.Keys {
			want[k] = stdOf(n.C[i])
		}
	}
	check("map", want, m)
	// []interface{} of any length: as many elements as both have
	k := r.IntN(6)
	if r.IntN(2) == 0 {
		k = len(n.C)
	}
	a, wa := make([]interface{}, k), make([]interface{}, k)
	sa, wsa := make([]string, k), make([]string, k)
	for i := range a {
		a[i], wa[i], sa[i], wsa[i] = "old", "old", "old", "old"
	}
	ok = v.ToStdValue(a, false)
	oks := v.ToStdValue(sa, false)
	if ok != (n.K == KArr) || oks != ok {
		c.Failf("export into a slice reports %v %v", ok, oks)
	}
	if n.K == KArr {
		for i := 0; i < k && i < len(n.C); i++ {
			wa[i] = stdOf(n.C[i])
			wsa[i] = v.ValueByIndex(i).String()
			if x := n.C[i]; x.K == KStr {
				wsa[i] = x.S
			} else if x.K == KInt {
				wsa[i] = fmt.Sprint(x.I)
			}
		}
	}
	check("slice", wa, a)
	check("string slice", wsa, sa)
	// map[string]string
	sm, wsm := map[string]string{"\x01stays": "x"}, map[string]string{"\x01stays": "x"}
	if ok := v.ToStdValue(sm, false); ok != (n.K == KObj) {
		c.Failf("export into a string map reports %v", ok)
	}
	if n.K == KObj {
		for i, k := range n.Keys {
			wsm[k] = v.ValueByIndex(i).String()
			if x := n.C[i]; x.K == KStr {
				wsm[k] = x.S
			} else if x.K == KInt {
				wsm[k] = fmt.Sprint(x.I)
			}
		}
	}
	check("string map", wsm, sm)
	// pointers to slices and interfaces of generic type
	var ps []interface{}
	if ok := v.ToStdValue(&ps, false); ok != (n.K == KArr) {
		c.Failf("export into a slice pointer reports %v", ok)
	}
	if n.K == KArr {
		check("slice pointer", stdOf(n), ps)
	}
}

// scalarTargets exports one scalar into a pointer to every scalar type, a field of it and a slice of it: what is
// stored is what the reading of that type gives, when it fits.
func scalarTargets(c *C) {
	r := c.R
	var n *N
	json := r.IntN(2) == 0
	for n == nil || json && n.K == KStr && dateDialect(n.S) {
		kinds := []Kind{KStr, KInt, KDbl, KFlt, KTime, KTrue, KFalse}
		if json {
			kinds = []Kind{KStr, KInt, KTrue, KFalse}
		}
		n = genNode(r, &treeOpt{Str: scalarText, Key: genKey}, 0, new(int), int(kinds[r.IntN(len(kinds))]))
	}
	setTimes(r, n, time.Millisecond)
	c.Describe(func() string { return n.dump() })
	c.NonTrivial(n.dump())
	for _, t := range scalarGoTypes {
		ref := fresh(r, n, false)
		var want reflect.Value
		switch t.Kind() {
		case reflect.String:
			want = reflect.ValueOf(ref.String())
		case reflect.Bool:
			want = reflect.ValueOf(ref.Bool())
		case reflect.Float64:
			want = reflect.ValueOf(ref.Double())
		case reflect.Float32:
			want = reflect.ValueOf(ref.Float())
		default:
			if f := ref.Double(); n.K != KInt && (math.Abs(f) > 9e18 || f != f) {
				continue
			}
			want = reflect.ValueOf(ref.Int())
			if back := want.Convert(t).Convert(want.Type()); back.Int() != want.Int() || t.Kind() >= reflect.Uint && want.Int() < 0 {
				continue
			}
			want = want.Convert(t)
		}
		in, origin := made(r, nObj().add("K", n), json)
		v := in.ValueByName("K")
		dest := reflect.New(t)
		how := "pointer"
		ok := false
		switch r.IntN(3) {
		case 0:
			ok = v.ToStdValue(dest.Interface(), false)
		case 1:
			how = "field"
			s := reflect.New(reflect.StructOf([]reflect.StructField{{Name: "K", Type: t}}))
			ok = in.ToStdValue(s.Interface(), false)
			dest = s.Elem().Field(0).Addr()
		default:
			how = "element"
			s := reflect.New(reflect.SliceOf(t))
			arr := dx.NewArray(false)
			arr.SetIndexValue(0, v)
			ok = arr.ToStdValue(s.Interface(), false)
			if t.Kind() == reflect.Uint8 {
				continue // a byte slice takes binary content only
			}
			if s.Elem().Len() != 1 {
				c.Failf("%s: exported into a slice of %s: %d elements", origin, t, s.Elem().Len())
			}
			dest = s.Elem().Index(0).Addr()
		}
		if !ok {
			c.Failf("%s: %s of %s is refused", origin, how, t)
		}
		if d := goDiff(want, dest.Elem(), how); d != "" {
			if t.Kind() == reflect.Float32 && float32(ref.Double()) == float32(dest.Elem().Float()) {
				continue
			}
			c.Failf("%s into %s of %s: %s", origin, how, t, d)
		}
		c.Ev("scalars exported", 1)
	}
}

var scalarGoTypes = []reflect.Type{reflect.TypeOf(int(0)), reflect.TypeOf(int8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(int32(0)), reflect.TypeOf(int64(0)),
	reflect.TypeOf(uint(0)), reflect.TypeOf(uint8(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(uint64(0)),
	reflect.TypeOf(""), reflect.TypeOf(true), reflect.TypeOf(float32(0)), reflect.TypeOf(float64(0))}

// anyTargetCase exports any tree into any target, fitting or not: no panic, and a refused target is untouched.
func anyTargetCase(c *C) {
	r := c.R
	n := genTree(r, treeOpt{Root: []int{0, 1, -1}[r.IntN(3)], Kinds: allKinds, Key: func(r *rand.Rand) string {
		if r.IntN(2) == 0 {
			return swapCase(r, fieldNames[r.IntN(len(fieldNames))])
		}
		return genKey(r)
	}})
	v, origin := exportable(r, n)
	var t reflect.Type
	odd := []reflect.Type{reflect.TypeOf(make(chan int)), reflect.TypeOf(func() {}), reflect.TypeOf(map[string]int{}), reflect.TypeOf(&namedInner{}), reflect.TypeOf([3]int{}), reflect.TypeOf(complex(1, 1)), reflect.TypeOf(new(int)), reflect.TypeOf((*error)(nil)).Elem(), reflect.TypeOf((*dx.DxValueUnMarshaler)(nil)).Elem(), reflect.TypeOf(uintptr(0))}
	var gen func(d int) reflect.Type
	gen = func(d int) reflect.Type {
		switch r.IntN(6) {
		case 0:
			return odd[r.IntN(len(odd))]
		case 1:
			if d > 0 {
				return structOf(r, r.IntN(7), func() reflect.Type { return gen(d - 1) })
			}
		case 2:
			if d > 0 {
				return reflect.SliceOf(gen(d - 1))
			}
		case 3:
			return reflect.TypeOf(struct {
				Name   string
				hidden int
				flag   bool
				List   []struct{ a, B string }
			}{})
		}
		return genOutType(r, d)
	}
	t = gen(3)
	dest, keep := reflect.New(t), reflect.New(t)
	c.Describe(func() string { return fmt.Sprintf("%s %s <- %s", origin, t, n.dump()) })
	c.NonTrivial(t.String(), n.dump())
	before := snap(v)
	if !v.ToStdValue(dest.Interface(), r.IntN(2) == 0) {
		if d := goDiff(keep.Elem(), dest.Elem(), "target"); d != "" {
			c.Failf("a refused target was written: %s", d)
		}
		c.Ev("targets refused", 1)
	} else {
		c.Ev("targets accepted", 1)
	}
	// targets that are no pointers
	for _, x := range []interface{}{nil, 1, "s", []byte("b"), 2.5, true, struct{ A int }{1}, map[int]int{}, func() {}, make(chan int), (*namedInner)(nil), (*[]int)(nil), uint8(1), time.Time{}} {
		if v.ToStdValue(x, r.IntN(2) == 0) {
			c.Failf("%T is reported as a supported target", x)
		}
	}
	c.same("the tree after exporting", before, v, diffOpt{})
}

// roundTripCase: struct -> tree -> struct.
func roundTripCase(c *C) {
	r := c.R
	depth := 1 + r.IntN(4)
	t := structOf(r, 1+r.IntN(6), func() reflect.Type {
		for {
			if t := genOutType(r, depth); noHooks(t) {
				return t
			}
		}
	})
	if r.IntN(4) == 0 {
		t = reflect.TypeOf(namedStruct{})
	}
	x := roundable(r, t, depth)
	fold := r.IntN(2) == 0
	c.Describe(func() string { return goText(x) })
	var v *dx.DxValue
	in := x.Interface()
	if r.IntN(2) == 0 {
		p := reflect.New(t)
		p.Elem().Set(x)
		in = p.Interface()
	}
	switch r.IntN(3) {
	case 0:
		v = dx.NewValueFrom(in, r.IntN(2) == 0)
	case 1:
		v = dx.NewObject(r.IntN(2) == 0)
		v.SetValue(in)
	case 2:
		p := dx.NewObject(r.IntN(2) == 0)
		p.SetKeyvalue("in", in, nil)
		v = p.ValueByName("in")
	}
	if r.IntN(3) == 0 {
		v = v.Clone(r.IntN(2) == 0)
	}
	dest := reflect.New(t)
	if !v.ToStdValue(dest.Interface(), fold) {
		c.Failf("exporting into %s reports that it is not supported", t)
	}
	if d := goDiff(x, dest.Elem(), "field"); d != "" {
		c.Failf("after the round trip: %s", d)
	}
	c.Ev("round trips", 1)
	c.NonTrivial(t.String(), snap(v).dump())
}

func noHooks(t reflect.Type) bool {
	switch t {
	case reflect.TypeOf(decVal{}), reflect.TypeOf(&decVal{}), reflect.TypeOf(regVal{}), reflect.TypeOf(regAny{}), reflect.TypeOf(regInt(0)):
		return false
	case timeType:
		return true
	}
	switch t.Kind() {
	case reflect.Slice:
		return noHooks(t.Elem())
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if !noHooks(t.Field(i).Type) {
				return false
			}
		}
	}
	return true
}

// roundable makes a value whose interface fields hold what an export stores there.
func roundable(r *rand.Rand, t reflect.Type, depth int) reflect.Value {
	v := reflect.New(t).Elem()
	switch {
	case t == anyType:
		if x := stdOf(genTree(r, treeOpt{Root: []int{0, 1, -1, -1}[r.IntN(4)], Kinds: []Kind{KStr, KInt, KDbl, KFlt, KBin, KNull, KTrue, KFalse}, Budget: 6})); x != nil {
			v.Set(reflect.ValueOf(x))
		}
	case t == timeType || t == bytesType:
		x, _ := genGo(r, t, depth)
		return x
	case t.Kind() == reflect.Slice:
		for k := []int{0, 1, 2, 3, 7}[r.IntN(5)]; k > 0; k-- {
			v.Set(reflect.Append(v, roundable(r, t.Elem(), depth-1)))
		}
	case t.Kind() == reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			v.Field(i).Set(roundable(r, t.Field(i).Type, depth-1))
		}
	default:
		x, _ := genGo(r, t, depth)
		return x
	}
	return v
}

func init() {
	register(&Prop{ID: "C24", Scale: 25,
		Rule:   "A case is a Go value of a random type (all integer and float kinds at their limits, strings, booleans, byte slices, times, nil, pointers to these, interfaces, string-keyed maps, slices, generated and declared structs, named types, self-encoding types, trees) that is converted as root over a value in some previous state, under a key or at an index, cached or not; the tree is compared with the model made together with the value. Distinct = distinct (entry point, type, content).",
		Assume: []string{"unsigned integers up to MaxInt64", "types that encode themselves only through a pointer are passed as pointers", "named byte-slice types are left out"},
		Gens: []*Gen{{Name: "values", Quick: 60000, Fn: func(c *C, i int) { convertCase(c) }},
			{Name: "hidden", Quick: 4000, Fn: hiddenCase},
			{Name: "long", Quick: 900, Fn: func(c *C, i int) { longCase(c, i) }}}})
	register(&Prop{ID: "C25", Scale: 18,
		Rule:   "A case exports a tree of some origin into a target of a generated type (fitting structs and slices with prefilled content, exact or case-insensitive names, decode-interface implementers, registered converters), into generic maps and slices, into arbitrary fitting or unfitting targets, or sends a struct through a tree into a fresh struct; the target is compared field by field with what the model stores, untouched fields included. Distinct = distinct (type, content).",
		Assume: []string{"targets are non-nil", "field names do not differ only by case", "null is not exported into strings, times, slices or structs"},
		Gens: []*Gen{
			{Name: "typed", Quick: 30000, Fn: func(c *C, i int) { exportCase(c) }},
			{Name: "hidden", Quick: 4000, Fn: func(c *C, i int) { hiddenTarget(c) }},
			{Name: "generic", Quick: 8000, Fn: func(c *C, i int) { genericCase(c) }},
			{Name: "scalars", Quick: 5000, Fn: func(c *C, i int) { scalarTargets(c) }},
			{Name: "any", Quick: 15000, Fn: func(c *C, i int) { anyTargetCase(c) }},
			{Name: "roundtrip", Quick: 20000, Fn: func(c *C, i int) { roundTripCase(c) }},
		}})
}
