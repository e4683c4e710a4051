package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand/v2"
	"strconv"
	"unicode/utf16"
	"unicode/utf8"
)

// ---------------------------------------------------------------------------------------------
// writing JSON text in varied spellings

type jsonStyle struct {
	WS      int // 0 none, 1 some, 2 lots
	Escape  int // 0 only what is needed, 1 sometimes more, 2 everything
	NumForm bool
}

func genStyle(r *rand.Rand) jsonStyle {
	return jsonStyle{WS: r.IntN(3), Escape: r.IntN(3), NumForm: r.IntN(2) == 0}
}

func writeJSON(r *rand.Rand, n *N, st jsonStyle) []byte {
	var b []byte
	b = ws(r, b, st)
	b = writeJ(r, b, n, st)
	return ws(r, b, st)
}

func ws(r *rand.Rand, b []byte, st jsonStyle) []byte {
	if st.WS == 0 || st.WS == 1 && r.IntN(3) > 0 {
		return b
	}
	n := r.IntN(3)
	if r.IntN(400) == 0 {
		n = r.IntN([]int{30, 150, 1500}[r.IntN(3)])
	}
	for i := n; i >= 0; i-- {
		b = append(b, " \n\t\r"[r.IntN(4)])
	}
	return b
}

func writeJ(r *rand.Rand, b []byte, n *N, st jsonStyle) []byte {
	switch n.K {
	case KObj:
		b = append(b, '{')
		b = ws(r, b, st)
		for i, k := range n.Keys {
			if i > 0 {
				b = append(b, ',')
				b = ws(r, b, st)
			}
			b = writeJStr(r, b, k, st)
			b = ws(r, b, st)
			b = append(b, ':')
			b = ws(r, b, st)
			b = writeJ(r, b, n.C[i], st)
			b = ws(r, b, st)
		}
		return append(b, '}')
	case KArr:
		b = append(b, '[')
		b = ws(r, b, st)
		for i, c := range n.C {
			if i > 0 {
				b = append(b, ',')
				b = ws(r, b, st)
			}
			b = writeJ(r, b, c, st)
			b = ws(r, b, st)
		}
		return append(b, ']')
	case KStr:
		return writeJStr(r, b, n.S, st)
	case KInt:
		return strconv.AppendInt(b, n.I, 10)
	case KDbl, KFlt:
		return writeJNum(r, b, n.F, st)
	case KTrue:
		return append(b, "true"...)
	case KFalse:
		return append(b, "false"...)
	case KNull:
		return append(b, "null"...)
	}
	panic("writeJ: " + n.dump())
}

// writeJNum writes a finite float64 in one of its exact decimal spellings.
func writeJNum(r *rand.Rand, b []byte, f float64, st jsonStyle) []byte {
	if !st.NumForm {
		s, _ := json.Marshal(f)
		return append(b, s...)
	}
	switch r.IntN(5) {
	case 0:
		return strconv.AppendFloat(b, f, 'f', -1, 64)
	case 1:
		return strconv.AppendFloat(b, f, 'e', -1, 64) // 1e+06, 1.5e-07
	case 2:
		return strconv.AppendFloat(b, f, 'E', -1, 64)
	case 3: // more digits than needed, same double
		return strconv.AppendFloat(b, f, 'e', 16+r.IntN(6), 64)
	default: // explicit fraction
		s := strconv.FormatFloat(f, 'f', -1, 64)
		if !bytes.ContainsRune([]byte(s), '.') {
			s += ".0"
		} else if r.IntN(2) == 0 {
			s += "00"
		}
		return append(b, s...)
	}
}

func hex4(r *rand.Rand, b []byte, u uint16) []byte {
	f := "%04x"
	if r.IntN(2) == 0 {
		f = "%04X"
	}
	return append(append(b, '\\', 'u'), fmt.Sprintf(f, u)...)
}

func isHex(b byte) bool {
	return b >= '0' && b <= '9' || b >= 'a' && b <= 'f' || b >= 'A' && b <= 'F'
}

func writeJStr(r *rand.Rand, b []byte, s string, st jsonStyle) []byte {
	b = append(b, '"')
	for i := 0; i < len(s); {
		c, w := utf8.DecodeRuneInString(s[i:])
		pct := c == '%' && i+2 < len(s) && isHex(s[i+1]) && isHex(s[i+2]) // spelled so that it is not the %XX dialect
		short := map[rune]byte{'"': '"', '\\': '\\', '\b': 'b', '\f': 'f', '\n': 'n', '\r': 'r', '\t': 't', '/': '/'}[c]
		must := c < 0x20 || c == '"' || c == '\\' || pct
		more := st.Escape == 2 || st.Escape == 1 && r.IntN(4) == 0
		switch {
		case (must || more) && short != 0 && r.IntN(3) > 0:
			b = append(b, '\\', short)
		case must || more:
			if c >= 0x10000 {
				h, l := utf16.EncodeRune(c)
				b = hex4(r, b, uint16(h))
				b = hex4(r, b, uint16(l))
			} else {
				b = hex4(r, b, uint16(c))
			}
		default:
			b = append(b, s[i:i+w]...)
		}
		i += w
	}
	return append(b, '"')
}

// ---------------------------------------------------------------------------------------------
// the standard decoder as oracle (keeps key order)

func stdJSON(b []byte) (*N, error) {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	n, err := stdVal(d)
	if err != nil {
		return nil, err
	}
	if _, err := d.Token(); err != io.EOF {
		return nil, errors.New("trailing data")
	}
	return n, nil
}

func stdVal(d *json.Decoder) (*N, error) {
	t, err := d.Token()
	if err != nil {
		return nil, err
	}
	switch x := t.(type) {
	case json.Delim:
		if x == '{' {
			n := nObj()
			for d.More() {
				k, err := d.Token()
				if err != nil {
					return nil, err
				}
				c, err := stdVal(d)
				if err != nil {
					return nil, err
				}
				n.add(k.(string), c)
			}
			_, err := d.Token()
			return n, err
		}
		n := nArr()
		for d.More() {
			c, err := stdVal(d)
			if err != nil {
				return nil, err
			}
			n.C = append(n.C, c)
		}
		_, err := d.Token()
		return n, err
	case string:
		return nStr(x), nil
	case bool:
		return nBool(x), nil
	case nil:
		return nNull(), nil
	case json.Number:
		if i, err := strconv.ParseInt(string(x), 10, 64); err == nil {
			return nInt(i), nil
		}
		f, err := strconv.ParseFloat(string(x), 64)
		if err != nil {
			return nil, err
		}
		return nDbl(f), nil
	}
	return nil, errors.New("token")
}

// ---------------------------------------------------------------------------------------------
// a lenient structural recogniser: accepts every RFC 8259 text and the leniencies of the library's dialect
// (inf/nan words, leading '+', leading zeros, missing digits beside the point, any bytes in strings, any escapes)

type lenient struct {
	b     []byte
	i     int
	depth int
	max   int
}

func lenientJSON(b []byte) (ok bool, depth int) {
	l := &lenient{b: b}
	l.sp()
	if !l.val() {
		return false, l.max
	}
	l.sp()
	return l.i == len(b), l.max
}

func (l *lenient) sp() {
	for l.i < len(l.b) && (l.b[l.i] == ' ' || l.b[l.i] == '\n' || l.b[l.i] == '\t' || l.b[l.i] == '\r') {
		l.i++
	}
}

func (l *lenient) lit(s string) bool {
	if l.i+len(s) <= len(l.b) && string(l.b[l.i:l.i+len(s)]) == s {
		l.i += len(s)
		return true
	}
	return false
}

func (l *lenient) str() bool {
	if !l.lit(`"`) {
		return false
	}
	for l.i < len(l.b) {
		switch l.b[l.i] {
		case '\\':
			l.i += 2
		case '"':
			l.i++
			return true
		default:
			l.i++
		}
	}
	return false
}

func (l *lenient) val() bool {
	l.depth++
	if l.depth > l.max {
		l.max = l.depth
	}
	defer func() { l.depth-- }()
	if l.i >= len(l.b) {
		return false
	}
	switch c := l.b[l.i]; {
	case c == '{':
		l.i++
		l.sp()
		if l.lit("}") {
			return true
		}
		for {
			l.sp()
			if !l.str() {
				return false
			}
			l.sp()
			if !l.lit(":") {
				return false
			}
			l.sp()
			if !l.val() {
				return false
			}
			l.sp()
			if l.lit(",") {
				continue
			}
			return l.lit("}")
		}
	case c == '[':
		l.i++
		l.sp()
		if l.lit("]") {
			return true
		}
		for {
			l.sp()
			if !l.val() {
				return false
			}
			l.sp()
			if l.lit(",") {
				continue
			}
			return l.lit("]")
		}
	case c == '"':
		return l.str()
	}
	if l.lit("true") || l.lit("false") || l.lit("null") {
		return true
	}
	s := l.i
	if l.b[l.i] == '+' || l.b[l.i] == '-' {
		l.i++
	}
	if l.i+3 <= len(l.b) {
		if w := string(bytes.ToLower(l.b[l.i : l.i+3])); w == "inf" || w == "nan" {
			l.i += 3
			return true
		}
	}
	digits := func() int {
		k := l.i
		for l.i < len(l.b) && l.b[l.i] >= '0' && l.b[l.i] <= '9' {
			l.i++
		}
		return l.i - k
	}
	d := digits()
	if l.i < len(l.b) && l.b[l.i] == '.' {
		l.i++
		d += digits()
	}
	if d == 0 {
		return false
	}
	if l.i < len(l.b) && (l.b[l.i] == 'e' || l.b[l.i] == 'E') {
		l.i++
		if l.i < len(l.b) && (l.b[l.i] == '+' || l.b[l.i] == '-') {
			l.i++
		}
		if digits() == 0 {
			return false
		}
	}
	// a number runs to the end of the number characters
	if l.i < len(l.b) && bytes.IndexByte([]byte("0123456789.eE+-"), l.b[l.i]) >= 0 {
		return false
	}
	return l.i > s
}

// strictJSON tells whether b is a JSON text the library must accept: RFC 8259, valid UTF-8, numbers within
// float64, no deeper than 10000 levels.
func strictJSON(b []byte) bool {
	if !json.Valid(b) || !utf8.Valid(b) {
		return false
	}
	if _, d := lenientJSON(b); d > 9000 {
		return false
	}
	n, err := stdJSON(b)
	if err != nil {
		return false
	}
	ok := true
	n.walk(func(x *N) {
		if x.K == KDbl && math.IsInf(x.F, 0) {
			ok = false
		}
	})
	return ok
}
