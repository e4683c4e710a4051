package main

import (
	"encoding/binary"
	"errors"
	"fmt"
	"math"
	"math/rand/v2"
	"time"
)

// encMP writes n in MessagePack. With minimal, every header is the smallest; otherwise r chooses among all
// equivalent formats.
func encMP(r *rand.Rand, n *N, minimal bool, dst []byte) []byte {
	pick := func(opts []byte) byte {
		if minimal || len(opts) == 1 {
			return opts[0]
		}
		return opts[r.IntN(len(opts))]
	}
	be := func(v uint64, w int) {
		for k := w - 1; k >= 0; k-- {
			dst = append(dst, byte(v>>(8*uint(k))))
		}
	}
	sized := func(l int, fixMax int, fix byte, c8, c16, c32 byte) {
		var opts []byte
		if fixMax >= 0 && l <= fixMax {
			opts = append(opts, fix|byte(l))
		}
		if c8 != 0 && l < 256 {
			opts = append(opts, c8)
		}
		if l < 65536 {
			opts = append(opts, c16)
		}
		opts = append(opts, c32)
		c := pick(opts)
		dst = append(dst, c)
		switch c {
		case c8:
			if c8 != 0 {
				be(uint64(l), 1)
			}
		case c16:
			be(uint64(l), 2)
		case c32:
			be(uint64(l), 4)
		}
	}
	switch n.K {
	case KNull:
		return append(dst, 0xc0)
	case KFalse:
		return append(dst, 0xc2)
	case KTrue:
		return append(dst, 0xc3)
	case KInt:
		i := n.I
		var opts []byte
		if i >= 0 {
			if i < 128 {
				opts = append(opts, byte(i))
			}
			if i < 256 {
				opts = append(opts, 0xcc)
			}
			if i < 65536 {
				opts = append(opts, 0xcd)
			}
			if i < 1<<32 {
				opts = append(opts, 0xce)
			}
			opts = append(opts, 0xcf)
		} else if i >= -32 {
			opts = append(opts, byte(i))
		}
		if i >= -128 && i < 128 {
			opts = append(opts, 0xd0)
		}
		if i >= -32768 && i < 32768 {
			opts = append(opts, 0xd1)
		}
		if i >= math.MinInt32 && i <= math.MaxInt32 {
			opts = append(opts, 0xd2)
		}
		opts = append(opts, 0xd3)
		c := pick(opts)
		dst = append(dst, c)
		switch c {
		case 0xcc, 0xd0:
			be(uint64(i), 1)
		case 0xcd, 0xd1:
			be(uint64(i), 2)
		case 0xce, 0xd2:
			be(uint64(i), 4)
		case 0xcf, 0xd3:
			be(uint64(i), 8)
		}
		return dst
	case KFlt:
		dst = append(dst, 0xca)
		be(uint64(math.Float32bits(float32(n.F))), 4)
		return dst
	case KDbl:
		dst = append(dst, 0xcb)
		be(math.Float64bits(n.F), 8)
		return dst
	case KStr:
		sized(len(n.S), 31, 0xa0, 0xd9, 0xda, 0xdb)
		return append(dst, n.S...)
	case KBin:
		sized(len(n.B), -1, 0, 0xc4, 0xc5, 0xc6)
		return append(dst, n.B...)
	case KArr:
		sized(len(n.C), 15, 0x90, 0, 0xdc, 0xdd)
		for _, c := range n.C {
			dst = encMP(r, c, minimal, dst)
		}
		return dst
	case KObj:
		sized(len(n.C), 15, 0x80, 0, 0xde, 0xdf)
		for i, c := range n.C {
			dst = encMP(r, nStr(n.Keys[i]), minimal, dst)
			dst = encMP(r, c, minimal, dst)
		}
		return dst
	case KExt:
		var opts []byte
		fix := map[int]byte{1: 0xd4, 2: 0xd5, 4: 0xd6, 8: 0xd7, 16: 0xd8}
		if f, ok := fix[len(n.B)]; ok {
			opts = append(opts, f)
		}
		if len(n.B) < 256 {
			opts = append(opts, 0xc7)
		}
		if len(n.B) < 65536 {
			opts = append(opts, 0xc8)
		}
		opts = append(opts, 0xc9)
		c := pick(opts)
		dst = append(dst, c)
		switch c {
		case 0xc7:
			be(uint64(len(n.B)), 1)
		case 0xc8:
			be(uint64(len(n.B)), 2)
		case 0xc9:
			be(uint64(len(n.B)), 4)
		}
		dst = append(dst, n.X)
		return append(dst, n.B...)
	case KTime:
		sec, ns := n.T.Unix(), n.T.Nanosecond()
		var opts []byte
		if ns == 0 && sec >= 0 && sec < 1<<32 {
			opts = append(opts, 0xd6)
		}
		if sec >= 0 && sec < 1<<34 {
			opts = append(opts, 0xd7)
		}
		opts = append(opts, 0xc7)
		switch pick(opts) {
		case 0xd6:
			dst = append(dst, 0xd6, 0xff)
			be(uint64(sec), 4)
		case 0xd7:
			dst = append(dst, 0xd7, 0xff)
			be(uint64(ns)<<34|uint64(sec), 8)
		default:
			dst = append(dst, 0xc7, 12, 0xff)
			be(uint64(ns), 4)
			be(uint64(sec), 8)
		}
		return dst
	}
	panic("encMP " + n.dump())
}

// mpInfo is what the strict decoder noticed.
type mpInfo struct{ NonMinimal string }

var errMP = errors.New("truncated msgpack")

// errMPSoft marks encodings outside the claimed domain that need not be refused.
var errMPSoft = errors.New("msgpack value out of range")

// decMP is an independent strict decoder.
func decMP(b []byte, depth int, info *mpInfo) (*N, []byte, error) {
	if len(b) == 0 {
		return nil, nil, errMP
	}
	if depth > 20000 {
		return nil, nil, errMPSoft
	}
	c := b[0]
	b = b[1:]
	need := func(k int) ([]byte, error) {
		if len(b) < k {
			return nil, errMP
		}
		x := b[:k]
		b = b[k:]
		return x, nil
	}
	uint := func(w int) (uint64, error) {
		x, err := need(w)
		if err != nil {
			return 0, err
		}
		var v uint64
		for _, y := range x {
			v = v<<8 | uint64(y)
		}
		return v, nil
	}
	nonmin := func(ok bool, what string, v interface{}) {
		if !ok && info != nil && info.NonMinimal == "" {
			info.NonMinimal = fmt.Sprintf("%s %v written with code %#x", what, v, c)
		}
	}
	raw := func(l uint64) ([]byte, error) {
		if l > uint64(len(b)) {
			return nil, errMP
		}
		return need(int(l))
	}
	str := func(l uint64) (*N, []byte, error) {
		x, err := raw(l)
		if err != nil {
			return nil, nil, err
		}
		return nStr(string(x)), b, nil
	}
	bin := func(l uint64) (*N, []byte, error) {
		x, err := raw(l)
		if err != nil {
			return nil, nil, err
		}
		return nBin(append([]byte(nil), x...)), b, nil
	}
	ext := func(l uint64) (*N, []byte, error) {
		t, err := need(1)
		if err != nil {
			return nil, nil, err
		}
		x, err := raw(l)
		if err != nil {
			return nil, nil, err
		}
		if t[0] == 0xff {
			switch {
			case c == 0xd6:
				return &N{K: KTime, T: time.Unix(int64(binary.BigEndian.Uint32(x)), 0).UTC()}, b, nil
			case c == 0xd7:
				u := binary.BigEndian.Uint64(x)
				if u>>34 > 999999999 {
					return nil, nil, errMPSoft
				}
				return &N{K: KTime, T: time.Unix(int64(u&(1<<34-1)), int64(u>>34)).UTC()}, b, nil
			case c == 0xc7 && l == 12:
				ns := binary.BigEndian.Uint32(x)
				if ns > 999999999 {
					return nil, nil, errMPSoft
				}
				return &N{K: KTime, T: time.Unix(int64(binary.BigEndian.Uint64(x[4:])), int64(ns)).UTC()}, b, nil
			}
		}
		return nExt(t[0], append([]byte(nil), x...)), b, nil
	}
	arr := func(l uint64) (*N, []byte, error) {
		if l > uint64(len(b)) {
			return nil, nil, errMP
		}
		n := nArr()
		for i := uint64(0); i < l; i++ {
			x, rest, err := decMP(b, depth+1, info)
			if err != nil {
				return nil, nil, err
			}
			b = rest
			n.C = append(n.C, x)
		}
		return n, b, nil
	}
	mp := func(l uint64) (*N, []byte, error) {
		if l > uint64(len(b)) {
			return nil, nil, errMP
		}
		n := nObj()
		for i := uint64(0); i < l; i++ {
			k, rest, err := decMP(b, depth+1, info)
			if err != nil {
				return nil, nil, err
			}
			if k.K != KStr {
				return nil, nil, errors.New("key is not a string")
			}
			x, rest, err := decMP(rest, depth+1, info)
			if err != nil {
				return nil, nil, err
			}
			b = rest
			n.add(k.S, x)
		}
		return n, b, nil
	}
	switch {
	case c < 0x80:
		return nInt(int64(c)), b, nil
	case c < 0x90:
		return mp(uint64(c & 15))
	case c < 0xa0:
		return arr(uint64(c & 15))
	case c < 0xc0:
		return str(uint64(c & 31))
	case c >= 0xe0:
		return nInt(int64(int8(c))), b, nil
	}
	switch c {
	case 0xc0:
		return nNull(), b, nil
	case 0xc2:
		return nBool(false), b, nil
	case 0xc3:
		return nBool(true), b, nil
	case 0xc4, 0xc5, 0xc6:
		w := 1 << (c - 0xc4)
		l, err := uint(w)
		if err != nil {
			return nil, nil, err
		}
		nonmin(w == 1 || w == 2 && l > 255 || w == 4 && l > 65535, "binary length", l)
		return bin(l)
	case 0xc7, 0xc8, 0xc9:
		w := 1 << (c - 0xc7)
		l, err := uint(w)
		if err != nil {
			return nil, nil, err
		}
		nonmin((w == 1 || w == 2 && l > 255 || w == 4 && l > 65535) && l != 1 && l != 2 && l != 4 && l != 8 && l != 16, "extension length", l)
		return ext(l)
	case 0xd4, 0xd5, 0xd6, 0xd7, 0xd8:
		return ext(1 << (c - 0xd4))
	case 0xca:
		u, err := uint(4)
		if err != nil {
			return nil, nil, err
		}
		return &N{K: KFlt, F: float64(math.Float32frombits(uint32(u)))}, b, nil
	case 0xcb:
		u, err := uint(8)
		if err != nil {
			return nil, nil, err
		}
		return nDbl(math.Float64frombits(u)), b, nil
	case 0xcc, 0xcd, 0xce, 0xcf:
		w := 1 << (c - 0xcc)
		u, err := uint(w)
		if err != nil {
			return nil, nil, err
		}
		if u > math.MaxInt64 {
			return nil, nil, errMPSoft
		}
		nonmin(w == 1 && u > 127 || w == 2 && u > 255 || w == 4 && u > 65535 || w == 8 && u > math.MaxUint32, "integer", u)
		return nInt(int64(u)), b, nil
	case 0xd0, 0xd1, 0xd2, 0xd3:
		w := 1 << (c - 0xd0)
		u, err := uint(w)
		if err != nil {
			return nil, nil, err
		}
		i := int64(u<<(64-8*w)) >> (64 - 8*w)
		nonmin(w == 1 && i < -32 || w == 2 && i < -128 || w == 4 && i < -32768 || w == 8 && i < math.MinInt32, "integer", i)
		return nInt(i), b, nil
	case 0xd9, 0xda, 0xdb:
		w := 1 << (c - 0xd9)
		l, err := uint(w)
		if err != nil {
			return nil, nil, err
		}
		nonmin(w == 1 && l > 31 || w == 2 && l > 255 || w == 4 && l > 65535, "string length", l)
		return str(l)
	case 0xdc, 0xdd:
		w := 2 << (c - 0xdc)
		l, err := uint(w)
		if err != nil {
			return nil, nil, err
		}
		nonmin(w == 2 && l > 15 || w == 4 && l > 65535, "array length", l)
		return arr(l)
	case 0xde, 0xdf:
		w := 2 << (c - 0xde)
		l, err := uint(w)
		if err != nil {
			return nil, nil, err
		}
		nonmin(w == 2 && l > 15 || w == 4 && l > 65535, "map length", l)
		return mp(l)
	}
	return nil, nil, errors.New("reserved code")
}
