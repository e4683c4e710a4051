package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"math"
	"math/rand/v2"
	"strconv"
	"time"
	"unicode/utf8"
)

// BSON marks carried in N.Ext
const (
	extBinary    = 0x05
	extObjectID  = 0x07
	extTimestamp = 0x11
	extDecimal   = 0x13
)

func le32(b []byte, v uint32) []byte { return binary.LittleEndian.AppendUint32(b, v) }
func le64(b []byte, v uint64) []byte { return binary.LittleEndian.AppendUint64(b, v) }

// encBSON writes an object as a BSON document; r (may be nil) picks among equivalent encodings.
func encBSON(r *rand.Rand, n *N, dst []byte) []byte {
	start := len(dst)
	dst = le32(dst, 0)
	for i, c := range n.C {
		key := strconv.Itoa(i)
		if n.K == KObj {
			key = n.Keys[i]
		}
		dst = encBSONElem(r, key, c, dst)
	}
	dst = append(dst, 0)
	binary.LittleEndian.PutUint32(dst[start:], uint32(len(dst)-start))
	return dst
}

func encBSONElem(r *rand.Rand, key string, c *N, dst []byte) []byte {
	hdr := func(t byte) { dst = append(append(append(dst, t), key...), 0) }
	switch c.K {
	case KObj:
		hdr(3)
		return encBSON(r, c, dst)
	case KArr:
		hdr(4)
		return encBSON(r, c, dst)
	case KStr:
		hdr(2)
		dst = le32(dst, uint32(len(c.S)+1))
		return append(append(dst, c.S...), 0)
	case KInt:
		if c.Ext == extTimestamp {
			hdr(0x11)
			return le64(dst, uint64(c.I))
		}
		if c.I >= math.MinInt32 && c.I <= math.MaxInt32 && (r == nil || r.IntN(3) > 0) {
			hdr(0x10)
			return le32(dst, uint32(int32(c.I)))
		}
		hdr(0x12)
		return le64(dst, uint64(c.I))
	case KDbl, KFlt:
		hdr(1)
		return le64(dst, math.Float64bits(c.F))
	case KTime:
		hdr(9)
		return le64(dst, uint64(c.T.UnixMilli()))
	case KNull:
		hdr(0x0a)
		return dst
	case KTrue:
		hdr(8)
		return append(dst, 1)
	case KFalse:
		hdr(8)
		return append(dst, 0)
	case KBin:
		switch c.Ext {
		case extObjectID:
			hdr(7)
			return append(dst, c.B...)
		case extDecimal:
			hdr(0x13)
			return append(dst, c.B...)
		}
		hdr(5)
		if r != nil && r.IntN(5) == 0 { // old generic subtype carries a second length
			dst = le32(dst, uint32(len(c.B)+4))
			dst = append(dst, 2)
			dst = le32(dst, uint32(len(c.B)))
			return append(dst, c.B...)
		}
		dst = le32(dst, uint32(len(c.B)))
		dst = append(dst, 0)
		return append(dst, c.B...)
	case KExt:
		hdr(5)
		dst = le32(dst, uint32(len(c.B)))
		dst = append(dst, c.X)
		return append(dst, c.B...)
	}
	panic("encBSON " + c.dump())
}

var errBSON = errors.New("malformed bson")

// errSoft marks documents that strict decoders refuse but whose framing is intact.
var errSoft = errors.New("questionable bson")

// errType marks an element type without support.
var errType = errors.New("unsupported bson element")

// decBSON is an independent strict decoder: exact lengths, terminators, consecutive array indexes.
func decBSON(b []byte, arr bool, depth int) (*N, int, error) {
	if depth > 20000 {
		return nil, 0, errors.New("depth")
	}
	if len(b) < 5 {
		return nil, 0, errBSON
	}
	l := int(int32(binary.LittleEndian.Uint32(b)))
	if l < 5 || l > len(b) || b[l-1] != 0 {
		return nil, 0, fmt.Errorf("document length %d of %d: %w", l, len(b), errBSON)
	}
	total := l
	b = b[4 : l-1]
	n := nObj()
	if arr {
		n = nArr()
	}
	soft := false
	for len(b) > 0 {
		t := b[0]
		z := bytes.IndexByte(b[1:], 0)
		if z < 0 {
			return nil, 0, errBSON
		}
		key := string(b[1 : 1+z])
		b = b[z+2:]
		need := func(k int) ([]byte, error) {
			if k < 0 || k > len(b) {
				return nil, errBSON
			}
			x := b[:k]
			b = b[k:]
			return x, nil
		}
		var c *N
		var x []byte
		var err error
		switch t {
		case 1:
			if x, err = need(8); err == nil {
				c = nDbl(math.Float64frombits(binary.LittleEndian.Uint64(x)))
			}
		case 2:
			if x, err = need(4); err == nil {
				sl := int(int32(binary.LittleEndian.Uint32(x)))
				if sl < 1 {
					return nil, 0, errBSON
				}
				if x, err = need(sl); err == nil {
					if x[sl-1] != 0 {
						return nil, 0, errBSON
					}
					c = nStr(string(x[:sl-1]))
					if !utf8.Valid(x) {
						c.K, soft = KBad, true
					}
				}
			}
		case 3, 4:
			var used int
			c, used, err = decBSON(b, t == 4, depth+1)
			if errors.Is(err, errSoft) {
				soft, err = true, nil
			}
			if err == nil {
				b = b[used:]
			}
		case 5:
			if x, err = need(5); err == nil {
				bl, sub := int(int32(binary.LittleEndian.Uint32(x))), x[4]
				if x, err = need(bl); err == nil {
					data := append([]byte(nil), x...)
					switch sub {
					case 0:
						c = nBin(data)
					case 2:
						if bl < 4 || int(binary.LittleEndian.Uint32(x)) != bl-4 {
							soft = true
							c = nBin(data)
						} else {
							c = nBin(data[4:])
						}
					default:
						c = nExt(sub, data)
						c.Ext = extBinary
					}
				}
			}
		case 7:
			if x, err = need(12); err == nil {
				c = &N{K: KBin, B: append([]byte(nil), x...), Ext: extObjectID}
			}
		case 8:
			if x, err = need(1); err == nil {
				if x[0] > 1 {
					soft = true
				}
				c = nBool(x[0] == 1)
			}
		case 9:
			if x, err = need(8); err == nil {
				c = &N{K: KTime, T: time.UnixMilli(int64(binary.LittleEndian.Uint64(x))).UTC()}
			}
		case 0x0a:
			c = nNull()
		case 0x10:
			if x, err = need(4); err == nil {
				c = nInt(int64(int32(binary.LittleEndian.Uint32(x))))
			}
		case 0x11:
			if x, err = need(8); err == nil {
				c = &N{K: KInt, I: int64(binary.LittleEndian.Uint64(x)), Ext: extTimestamp}
			}
		case 0x12:
			if x, err = need(8); err == nil {
				c = nInt(int64(binary.LittleEndian.Uint64(x)))
			}
		case 0x13:
			if x, err = need(16); err == nil {
				c = &N{K: KBin, B: append([]byte(nil), x...), Ext: extDecimal}
			}
		default:
			return nil, 0, fmt.Errorf("element type %#x: %w", t, errType)
		}
		if err != nil {
			return nil, 0, err
		}
		if arr {
			if key != strconv.Itoa(len(n.C)) {
				soft = true
			}
			n.C = append(n.C, c)
		} else {
			n.add(key, c)
		}
	}
	if soft {
		return n, total, errSoft
	}
	return n, total, nil
}
