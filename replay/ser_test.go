package value_test

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"errors"
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"sort"
	"testing"

	"github.com/codeallergy/value"
	"github.com/shopspring/decimal"
)

// ---------------------------------------------------------------- an independent MessagePack encoder

func be(n uint64, k int) []byte {
	var b [8]byte
	binary.BigEndian.PutUint64(b[:], n)
	return b[8-k:]
}

func refLong(i int64) []byte {
	switch {
	case i >= -32 && i <= 127:
		return []byte{byte(i)}
	case i >= 0 && i <= math.MaxUint8:
		return []byte{0xcc, byte(i)}
	case i >= 0 && i <= math.MaxUint16:
		return append([]byte{0xcd}, be(uint64(i), 2)...)
	case i >= 0 && i <= math.MaxUint32:
		return append([]byte{0xce}, be(uint64(i), 4)...)
	case i >= 0:
		return append([]byte{0xcf}, be(uint64(i), 8)...)
	case i >= math.MinInt8:
		return []byte{0xd0, byte(i)}
	case i >= math.MinInt16:
		return append([]byte{0xd1}, be(uint64(i), 2)...)
	case i >= math.MinInt32:
		return append([]byte{0xd2}, be(uint64(i), 4)...)
	}
	return append([]byte{0xd3}, be(uint64(i), 8)...)
}

func refHead(fix byte, fixN int, c8, c16, c32 byte, n int) []byte {
	switch {
	case n < fixN:
		return []byte{fix | byte(n)}
	case c8 != 0 && n < 256:
		return []byte{c8, byte(n)}
	case n < 65536:
		return append([]byte{c16}, be(uint64(n), 2)...)
	}
	return append([]byte{c32}, be(uint64(n), 4)...)
}

func refStr(s string) []byte { return append(refHead(0xa0, 32, 0xd9, 0xda, 0xdb, len(s)), s...) }

func refExt(tag byte, d []byte) []byte {
	var h []byte
	switch len(d) {
	case 1:
		h = []byte{0xd4}
	case 2:
		h = []byte{0xd5}
	case 4:
		h = []byte{0xd6}
	case 8:
		h = []byte{0xd7}
	case 16:
		h = []byte{0xd8}
	default:
		h = refHead(0, 0, 0xc7, 0xc8, 0xc9, len(d))
	}
	return append(append(h, tag), d...)
}

func refEncode(v value.Value) []byte {
	if v == nil {
		return []byte{0xc0}
	}
	switch v.Kind() {
	case value.BOOL:
		if v.Object().(bool) {
			return []byte{0xc3}
		}
		return []byte{0xc2}
	case value.NUMBER:
		switch o := v.Object().(type) {
		case int64:
			return refLong(o)
		case float64:
			return append([]byte{0xcb}, be(math.Float64bits(o), 8)...)
		case *big.Int:
			b, _ := o.GobEncode()
			return refExt(1, b)
		case decimal.Decimal:
			b, _ := o.MarshalBinary()
			return refExt(2, b)
		}
	case value.STRING:
		switch o := v.Object().(type) {
		case string:
			return refStr(o)
		case []byte:
			return append(refHead(0, 0, 0xc4, 0xc5, 0xc6, len(o)), o...)
		}
	case value.UNKNOWN:
		o := v.Object().([]byte)
		return refExt(o[0], o[1:])
	case value.LIST:
		switch o := v.Object().(type) {
		case []value.Value:
			out := refHead(0x90, 16, 0, 0xdc, 0xdd, len(o))
			for _, e := range o {
				out = append(out, refEncode(e)...)
			}
			return out
		case []value.ListItem:
			out := refHead(0x80, 16, 0, 0xde, 0xdf, len(o))
			for _, e := range o {
				out = append(out, refLong(int64(e.Key()))...)
				out = append(out, refEncode(e.Value())...)
			}
			return out
		}
	case value.MAP:
		o := v.Object().([]value.MapEntry)
		out := refHead(0x80, 16, 0, 0xde, 0xdf, len(o))
		for _, e := range o {
			out = append(out, refStr(e.Key())...)
			out = append(out, refEncode(e.Value())...)
		}
		return out
	}
	return []byte{0xc0}
}

func short(b []byte) string {
	if len(b) > 60 {
		return fmt.Sprintf("%x… (%d bytes)", b[:60], len(b))
	}
	return fmt.Sprintf("%x", b)
}

// length of a header boundary value
func boundaryValue(r *rand.Rand) value.Value {
	n := []int{15, 16, 17, 31, 32, 33, 255, 256, 257, 65534, 65535, 65536, 65537}[r.Intn(13)]
	b := make([]byte, n)
	switch r.Intn(5) {
	case 0:
		return value.Utf8(string(b))
	case 1:
		return value.Raw(b, false)
	case 2:
		return value.Unknown(append([]byte{byte(3 + r.Intn(200))}, b...))
	case 3:
		l := make([]value.Value, n)
		return value.ImmutableList(l)
	}
	items := make([]value.ListItem, n)
	for i := range items {
		items[i] = value.ImmutableItem(i, nil)
	}
	return value.SparseList(items, true)
}

func anyValue(r *rand.Rand) value.Value {
	if r.Intn(60) == 0 {
		return boundaryValue(r)
	}
	if r.Intn(60) == 0 {
		return nil
	}
	return genValue(r, 3)
}

func TestVerif_C02(t *testing.T) {
	vLoop(t, func(r *rand.Rand) string {
		v := anyValue(r)
		want := refEncode(v)
		got, err := value.Pack(v)
		if err != nil || !bytes.Equal(got, want) {
			return fmt.Sprintf("Pack(%.200s) gives %s, %v; the encoding is %s", dump(v), short(got), err, short(want))
		}
		var w bytes.Buffer
		if err := value.Write(&w, v); err != nil || !bytes.Equal(w.Bytes(), want) {
			return fmt.Sprintf("Write(%.200s) writes %s, %v; the encoding is %s", dump(v), short(w.Bytes()), err, short(want))
		}
		if h := value.Hex(v); h != hex.EncodeToString(want) {
			return fmt.Sprintf("Hex(%.200s) is %.100s; the encoding is %s", dump(v), h, short(want))
		}
		if v != nil {
			got, err = v.MarshalBinary()
			if err != nil || !bytes.Equal(got, want) {
				return fmt.Sprintf("MarshalBinary of %.200s gives %s, %v; the encoding is %s", dump(v), short(got), err, short(want))
			}
		}
		return ""
	})
}

// ---------------------------------------------------------------- failing sinks

var errSink = errors.New("sink failed")

type failSink struct {
	left  int // bytes accepted before the failure
	short int // 0 accepts nothing of the failing write, 1 a part, 2 all of it
	after int // writes after the failure
	dead  bool
	out   []byte
}

func (s *failSink) Write(b []byte) (int, error) {
	if s.dead {
		s.after++
		return 0, errSink
	}
	if len(b) > s.left {
		s.dead = true
		if s.short == 1 {
			s.out = append(s.out, b[:s.left]...)
			return s.left, errSink
		}
		if s.short == 2 {
			s.out = append(s.out, b...)
			return len(b), errSink
		}
		return 0, errSink
	}
	s.left -= len(b)
	s.out = append(s.out, b...)
	return len(b), nil
}

func TestVerif_C05(t *testing.T) {
	vLoop(t, func(r *rand.Rand) string {
		v := anyValue(r)
		full := refEncode(v)
		cut := 0
		if len(full) > 0 {
			cut = r.Intn(len(full))
		}
		s := &failSink{left: cut, short: r.Intn(3)}
		err := value.Write(s, v)
		if s.dead && err == nil {
			return fmt.Sprintf("Write(%.200s) to a sink that fails after %d of %d bytes returns nil", dump(v), cut, len(full))
		}
		if s.after > 0 {
			return fmt.Sprintf("Write(%.200s) to a sink that fails after %d of %d bytes writes %d more times", dump(v), cut, len(full), s.after)
		}
		// a packer used for several values
		vs := []value.Value{v, genScalar(r), anyValue(r), nil, genScalar(r)}
		total := 0
		for _, x := range vs {
			total += len(refEncode(x))
		}
		cut = r.Intn(total)
		s = &failSink{left: cut, short: r.Intn(3)}
		p := value.MessagePacker(s)
		for _, x := range vs {
			if x == nil {
				p.PackNil()
			} else {
				x.Pack(p)
			}
			if s.dead && p.Error() == nil {
				return fmt.Sprintf("after packing %.200s to a sink that failed after %d bytes the packer's error is nil", dump(x), cut)
			}
		}
		if s.after > 0 {
			return fmt.Sprintf("packing values to a sink that failed after %d bytes writes %d more times", cut, s.after)
		}
		s = &failSink{left: cut, short: r.Intn(3)}
		c := make(chan value.Value, len(vs))
		for _, x := range vs {
			c <- x
		}
		close(c)
		err = value.WriteStream(s, c)
		if s.dead && err == nil {
			return fmt.Sprintf("WriteStream to a sink that fails after %d of %d bytes returns nil", cut, total)
		}
		if s.after > 0 {
			return fmt.Sprintf("WriteStream to a sink that fails after %d of %d bytes writes %d more times", cut, total, s.after)
		}
		return ""
	})
}

var _ = sort.Ints
