package main

import (
	"errors"
	"fmt"
	"reflect"
	"strconv"
	"strings"
	"time"
	_ "time/tzdata"

	"github.com/suiyunonghen/DxCommonLib"
	dx "github.com/suiyunonghen/dxsvalue"
)

// ---------------------------------------------------------------------------------------------
// C27: date-times

var timeLayouts = []string{"2006-01-02T15:04:05Z", "2006-01-02 15:04:05", "2006/01/02 15:04:05"}

type timeHolder struct {
	When time.Time
	List []time.Time
}

func (c *C) near(what string, want, got time.Time, tol time.Duration) {
	d := got.Sub(want)
	if d < 0 {
		d = -d
	}
	if d > tol {
		c.Failf("%s: %s instead of %s (off by %v, local offset %s)", what, got.UTC().Format(time.RFC3339Nano), want.UTC().Format(time.RFC3339Nano), got.Sub(want), time.Now().Format("-0700"))
	}
	c.Ev("instants compared", 1)
}

// readTime reads a date-time node in every way and gives the stored time, which is t to the nearest millisecond.
func (c *C) readTime(what string, t time.Time, v *dx.DxValue) time.Time {
	if v == nil {
		c.Failf("%s: no node", what)
	}
	g := v.GoTime()
	tol := time.Duration(0)
	if t.Nanosecond()%1e6 != 0 { // a time of whole milliseconds is exact
		tol = 500*time.Microsecond + 20*time.Microsecond
	}
	c.near(what+" GoTime", t, g, tol)
	c.near(what+" DateTime", t, v.DateTime().ToTime(), time.Millisecond+20*time.Microsecond) // the library's reading is cut to milliseconds
	if v.DataType == dx.VT_DateTime {
		if s := g.In(time.Local).Format("2006-01-02 15:04:05"); v.String() != s {
			c.Failf("%s: String gives %q, not %q", what, v.String(), s)
		}
	}
	return g
}

// ambiguous tells whether the text of a local time may stand for another instant (clocks put back).
func ambiguous(t time.Time, layout string) bool {
	t = t.Truncate(time.Second)
	b, err := time.ParseInLocation(layout, t.In(time.Local).Format(layout), time.Local)
	return err != nil || !b.Equal(t)
}

// holder builds a tree with one date-time in it and gives the ways to find it.
func setTime(c *C, t time.Time) (root *dx.DxValue, find func(*dx.DxValue) *dx.DxValue, how string) {
	r := c.R
	cached := r.IntN(2) == 0
	byKey := func(v *dx.DxValue) *dx.DxValue { return v.ValueByName("t") }
	o := dx.NewObject(cached)
	if r.IntN(2) == 0 { // something else was there
		setKey(r, o, "t", genScalar(r, []Kind{KStr, KInt, KBin, KNull, KTrue, KTime, KFlt}[r.IntN(7)], &treeOpt{Str: genString}))
	}
	inList := func(v *dx.DxValue) *dx.DxValue { return v.ValueByPath("l", "1") }
	list := func() *dx.DxValue {
		o.RemoveKey("t")
		a := o.SetKey("l", dx.VT_Array)
		a.SetIndexInt(0, 1)
		return a
	}
	switch r.IntN(12) {
	case 0:
		o.SetKeyTime("t", t)
		return o, byKey, "SetKeyTime"
	case 1:
		o.SetKey("t", dx.VT_DateTime).SetTime(t)
		return o, byKey, "SetTime"
	case 2:
		o.SetKey("t", dx.VT_String).SetTime(t)
		return o, byKey, "SetTime over a string"
	case 3:
		o.SetKey("t", dx.VT_Int).SetValue(t)
		return o, byKey, "SetValue"
	case 4:
		o.SetKey("t", dx.VT_Object).SetValue(&t)
		return o, byKey, "SetValue pointer"
	case 5:
		o.SetKeyvalue("t", t, nil)
		return o, byKey, "SetKeyvalue"
	case 6:
		list().SetIndexTime(1, t)
		return o, inList, "SetIndexTime"
	case 7:
		list().SetIndexvalue(1, t, nil)
		return o, inList, "SetIndexvalue"
	case 8:
		o.SetKey("t", dx.VT_DateTime).SetDelphiTime(DxCommonLib.TDateTime(t.Sub(delphiLocal).Hours() / 24))
		return o, byKey, "SetDelphiTime"
	case 9:
		v := dx.NewValueFrom(map[string]interface{}{"t": t}, cached)
		return v, byKey, "NewValueFrom map"
	case 10:
		v := dx.NewValueFrom(timeHolder{t, []time.Time{t}}, cached)
		if r.IntN(2) == 0 {
			return v, func(v *dx.DxValue) *dx.DxValue { return v.ValueByPath("List", "0") }, "NewValueFrom struct slice"
		}
		return v, func(v *dx.DxValue) *dx.DxValue { return v.ValueByName("When") }, "NewValueFrom struct"
	}
	o.RemoveKey("t")
	o.ForcePath(dx.VT_DateTime, "a", "b").SetTime(t)
	return o, func(v *dx.DxValue) *dx.DxValue { return v.ValueByPath("a", "b") }, "ForcePath"
}

var delphiLocal = time.Date(1899, 12, 30, 0, 0, 0, 0, time.Local)

func decMPAll(b []byte) (*N, error) {
	n, rest, err := decMP(b, 0, &mpInfo{})
	if err == nil && len(rest) > 0 {
		err = errors.New("bytes left over")
	}
	return n, err
}

func decBSONAll(b []byte) (*N, error) {
	n, used, err := decBSON(b, false, 0)
	if err == nil && used != len(b) {
		err = errors.New("bytes left over")
	}
	return n, err
}

func timeCase(c *C) {
	r := c.R
	t := genInstant(r)
	root, find, how := setTime(c, t)
	c.Describe(func() string { return how + " " + t.Format(time.RFC3339Nano) + " local " + time.Now().Format("-0700") })
	c.NonTrivial(how, t.String(), time.Now().Format("-0700"))
	x := find(root)
	t = c.readTime(how, t, x)
	if x.DataType != dx.VT_DateTime {
		c.Failf("%s stores type %v", how, x.DataType)
	}
	for k := 1 + r.IntN(3); k > 0; k-- {
		switch r.IntN(7) {
		case 0, 1:
			out := root.ToMsgPack(nil)
			if n, err := decMPAll(out); err == nil {
				n.walk(func(m *N) {
					if m.K == KTime {
						c.near(how+" MsgPack wire", t, m.T, 0)
					}
				})
			} else {
				c.Failf("MsgPack: %v", err)
			}
			v, err := entriesOf[FMP][r.IntN(8)].dec(r, out)
			if err != nil {
				c.Failf("MsgPack refused: %v", err)
			}
			root = v
			how += " > msgpack"
		case 2, 3:
			out := root.ToBson(nil)
			if n, err := decBSONAll(out); err == nil {
				n.walk(func(m *N) {
					if m.K == KTime {
						c.near(how+" BSON wire", t, m.T, 0)
					}
				})
			} else {
				c.Failf("BSON: %v", err)
			}
			v, err := entriesOf[FBSON][r.IntN(8)].dec(r, out)
			if err != nil {
				c.Failf("BSON refused: %v", err)
			}
			root = v
			how += " > bson"
		case 4:
			root = root.Clone(r.IntN(2) == 0)
			how += " > clone"
		case 5:
			o := dx.NewObject(r.IntN(2) == 0)
			o.CopyFrom(root, o.ValueCache())
			root = o
			how += " > copy"
		case 6:
			var h struct{ T time.Time }
			o := dx.NewObject(false)
			o.SetKeyValue("T", find(root).Clone(false))
			if !o.ToStdValue(&h, false) {
				c.Failf("no export")
			}
			c.near(how+" export", t, h.T, 0)
			m := map[string]interface{}{}
			o.ToStdValue(m, false)
			if y, ok := m["T"].(time.Time); !ok {
				c.Failf("export into a map gives %s", reflect.TypeOf(m["T"]))
			} else {
				c.near(how+" map export", t, y, 0)
			}
			var p time.Time
			if !find(root).ToStdValue(&p, false) {
				c.Failf("no export")
			}
			c.near(how+" pointer export", t, p, 0)
		}
		y := find(root)
		if y == nil || y.DataType != dx.VT_DateTime {
			c.Failf("%s: the date-time is no longer one", how)
		}
		c.readTime(how, t, y)
		c.Ev("hops", 1)
	}
	if r.IntN(4) == 0 { // alone, as the whole message
		w, err := entriesOf[FMP][r.IntN(8)].dec(r, find(root).ToMsgPack(nil))
		if err != nil || w.DataType != dx.VT_DateTime {
			c.Failf("%s: a date-time alone through MsgPack: %v", how, err)
		}
		c.readTime(how+" > msgpack alone", t, w)
	}
	// JSON, both forms
	if r.IntN(4) == 0 { // alone
		root, find = find(root).Clone(r.IntN(2) == 0), func(v *dx.DxValue) *dx.DxValue { return v }
		how += " alone"
	}
	esc := []dx.JsonEscapeStyle{dx.JSE_OnlyAnsiChar, dx.JSE_AllEscape}[r.IntN(2)]
	date := r.IntN(2) == 0 && (t.Unix() < 0 || t.Unix() >= 1000000) // numbers of up to nine digits are seconds
	out := root.ToJson(r.IntN(2) == 0, esc, date, nil)
	n, err := stdJSON(out)
	if err != nil {
		c.Failf("JSON: %v %q", err, out)
	}
	found := 0
	n.walk(func(m *N) {
		if m.K != KStr {
			return
		}
		var got time.Time
		if date {
			ms, err := strconv.ParseInt(strings.TrimSuffix(strings.TrimPrefix(m.S, "/Date("), ")/"), 10, 64)
			if err != nil {
				c.Failf("JSON date text %q", m.S)
			}
			got = time.UnixMilli(ms)
		} else if got, err = time.ParseInLocation("2006-01-02 15:04:05", m.S, time.Local); err != nil {
			c.Failf("JSON date text %q", m.S)
		}
		if date || !ambiguous(t, timeLayouts[1]) {
			c.near(how+" JSON text", floorSecond(t), got, 0)
		}
		found++
	})
	if found == 0 {
		c.Failf("JSON: no date text in %q", out)
	}
	v, err := entriesOf[FJSON][r.IntN(8)].dec(r, out)
	if err != nil {
		c.Failf("JSON refused: %v", err)
	}
	y := find(v)
	if date && y.DataType != dx.VT_DateTime {
		c.Failf("the /Date(ms)/ form is decoded as %v", y.DataType)
	}
	if date || !ambiguous(t, timeLayouts[1]) {
		c.readTime(how+" > json", floorSecond(t), y)
	}
}

func floorSecond(t time.Time) time.Time { return time.Unix(t.Unix(), 0) }

// numberCase reads the /Date(ms)/ form, which may carry milliseconds, at any place of a document.
func numberCase(c *C) {
	r := c.R
	t := genInstant(r).Truncate(time.Millisecond)
	ms := t.UnixMilli()
	if ms >= 0 && ms < 1e9 {
		ms += 1e9
		t = time.UnixMilli(ms)
	}
	s := "/Date(" + strconv.FormatInt(ms, 10) + ")/"
	x := nStr(s)
	path := []string{}
	n := x
	for k := r.IntN(4); k > 0; k-- {
		if r.IntN(2) == 0 {
			n = nObj().add("a", nInt(1)).add("t", n)
			path = append([]string{"t"}, path...)
		} else {
			n = nArr(nNull(), n)
			path = append([]string{"1"}, path...)
		}
	}
	b := writeJSON(r, n, jsonStyle{WS: r.IntN(3)})
	e := entriesOf[FJSON][r.IntN(8)]
	c.Describe(func() string { return fmt.Sprintf("%s %s", e.name, b) })
	c.NonTrivial(string(b), time.Now().Format("-0700"))
	v, err := e.dec(r, b)
	if err != nil {
		c.Failf("refused: %v", err)
	}
	y := v
	if len(path) > 0 {
		y = v.ValueByPath(path...)
	}
	if y == nil || y.DataType != dx.VT_DateTime {
		c.Failf("%s is no date-time", s)
	}
	if got := y.GoTime(); got.After(t) || got.Before(floorSecond(t)) {
		c.Failf("%s reads as %v", s, got)
	}
	var p time.Time
	if !y.ToStdValue(&p, false) || p.After(t) || p.Before(floorSecond(t)) {
		c.Failf("%s exports as %v", s, p)
	}
	c.Ev("date numbers read", 1)
}

// textCase reads date-times from text in the three layouts.
func textCase(c *C) {
	r := c.R
	t := genInstant(r).Truncate(time.Second)
	layout := timeLayouts[r.IntN(3)]
	if ambiguous(t, layout) {
		c.Ev("ambiguous local texts left out", 1)
		return
	}
	s := t.In(time.Local).Format(layout)
	c.Describe(func() string { return s })
	c.NonTrivial(s, time.Now().Format("-0700"))
	n := nObj().add("t", nStr(s))
	var v *dx.DxValue
	var err error
	switch r.IntN(5) {
	case 0:
		v = dx.NewObject(r.IntN(2) == 0)
		v.SetKeyString("t", s)
	case 1:
		v, err = dx.NewValueFromJson(writeJSON(r, n, genStyle(r)), r.IntN(2) == 0, r.IntN(2) == 0)
	case 2:
		v, err = dx.NewValueFromMsgPack(encMP(r, n, true, nil), r.IntN(2) == 0, r.IntN(2) == 0)
	case 3:
		v, err = dx.NewValueFromBson(encBSON(r, n, nil), r.IntN(2) == 0, r.IntN(2) == 0)
	case 4:
		v, err = dx.NewValueFromYaml([]byte("t: "+s+"\n"), r.IntN(2) == 0)
	}
	if err != nil {
		c.Failf("refused: %v", err)
	}
	x := v.ValueByName("t")
	if got := x.GoTime(); !got.Equal(t) {
		c.Failf("%q reads as %v", s, got)
	}
	c.near(s, t, v.GoTimeByPath(time.Time{}, "t"), 0)
	ms := time.Millisecond + 20*time.Microsecond
	c.near(s+" DateTime", t, x.DateTime().ToTime(), ms)
	c.near(s+" AsDateTime", t, v.AsDateTime("t", 0).ToTime(), ms)
	c.near(s+" DateTimeByPath", t, v.DateTimeByPath(0, "t").ToTime(), ms)
	var p time.Time
	if !x.ToStdValue(&p, false) || !p.Equal(t) {
		c.Failf("%q exports as %v", s, p)
	}
	if x.String() != s {
		c.Failf("%q was changed to %q", s, x.String())
	}
	// text that is no date-time
	junk := []string{"", "2020", s[:len(s)-1], s + "x", "x" + s, genString(r), strings.Replace(s, "0", "a", 1)}[r.IntN(7)]
	for _, l := range timeLayouts {
		if _, err := time.ParseInLocation(l, junk, time.Local); err == nil {
			return
		}
	}
	v.SetKeyString("j", junk)
	if got := v.ValueByName("j").GoTime(); !got.IsZero() {
		c.Failf("%q reads as %v", junk, got)
	}
	if got := v.ValueByName("j").DateTime(); got != -1 {
		c.Failf("%q reads as day %v", junk, got)
	}
	c.Ev("texts read", 1)
}

func init() {
	register(&Prop{ID: "C27", Scale: 60,
		Rule:   "Worker processes run under sixteen different local zones (whole hours from -12 to +14, half and quarter hours, zones with summer time of an hour or half an hour, with local mean time in 1899, with a day left out). A case stores an instant between 1900 and 2190, given in some zone, through one of the setters or conversions (often around local midnight or a change of the local offset), sends it through a chain of MsgPack, BSON, clone, copy and export, and finally JSON in date-text or /Date(ms)/ form; the wire bytes are decoded independently and every reading is compared with the instant: the first to the nearest millisecond, the rest exactly. Number cases read /Date(ms)/ with milliseconds at any depth. Text cases read the three supported layouts from every kind of string node. Distinct = distinct (entry point, instant, zone).",
		Assume: []string{"local texts that stand for two instants (clocks put back) are left out", "numbers of up to nine digits in the /Date(ms)/ form are seconds by the dialect"},
		TZ: []string{"UTC", "Etc/GMT+12", "Etc/GMT-14", "fixed:19800", "Etc/GMT-8", "fixed:-34200", "Etc/GMT+5", "fixed:45900",
			"Europe/Berlin", "America/New_York", "Asia/Shanghai", "Australia/Lord_Howe", "America/Sao_Paulo", "Pacific/Apia", "Europe/Dublin", "Asia/Kathmandu"},
		Gens: []*Gen{
			{Name: "instants", Quick: 60000, Fn: func(c *C, i int) { timeCase(c) }},
			{Name: "numbers", Quick: 15000, Fn: func(c *C, i int) { numberCase(c) }},
			{Name: "texts", Quick: 30000, Fn: func(c *C, i int) { textCase(c) }},
		}})
}
