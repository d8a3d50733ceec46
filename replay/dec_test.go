package value_test

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math"
	"math/big"
	"math/rand"
	"runtime"
	"sort"
	"strings"
	"testing"
	"testing/iotest"

	"github.com/codeallergy/value"
	"github.com/shopspring/decimal"
)

// ---------------------------------------------------------------- an independent MessagePack decoder

var errTrunc = errors.New("truncated")
var errBad = errors.New("bad extension")

func beInt(b []byte) uint64 {
	var x [8]byte
	copy(x[8-len(b):], b)
	return binary.BigEndian.Uint64(x[:])
}

type refDec struct {
	b     []byte
	loose bool // entries with equal keys in unsorted input: their order is not fixed
	huge  bool // a decimal with a giant exponent: the library takes forever to print it
}

func (d *refDec) take(n uint64) ([]byte, error) {
	if uint64(len(d.b)) < n {
		return nil, errTrunc
	}
	x := d.b[:n:n]
	d.b = d.b[n:]
	return append([]byte{}, x...), nil
}

func (d *refDec) num(k uint64) (uint64, error) {
	x, err := d.take(k)
	return beInt(x), err
}

func (d *refDec) ext(n uint64) (value.Value, error) {
	x, err := d.take(n + 1)
	if err != nil {
		return nil, err
	}
	switch x[0] {
	case 1:
		n := new(big.Int)
		if n.GobDecode(x[1:]) != nil {
			return nil, errBad
		}
		return value.BigInt(n), nil
	case 2:
		n := decimal.Decimal{}
		if n.UnmarshalBinary(x[1:]) != nil {
			return nil, errBad
		}
		if n.Exponent() > 1000 || n.Exponent() < -1000 {
			d.huge = true
			return value.Null, nil
		}
		return value.Decimal(n), nil
	}
	return value.Unknown(x), nil
}

func (d *refDec) list(n uint64) (value.Value, error) {
	var l []value.Value
	for i := uint64(0); i < n; i++ {
		x, err := d.value()
		if err != nil {
			return nil, err
		}
		l = append(l, x)
	}
	return value.ImmutableList(l), nil
}

func (d *refDec) dict(n uint64) (value.Value, error) {
	type kv struct{ k, v value.Value }
	var l []kv
	nums := true
	for i := uint64(0); i < n; i++ {
		k, err := d.value()
		if err != nil {
			return nil, err
		}
		v, err := d.value()
		if err != nil {
			return nil, err
		}
		nums = nums && k.Kind() == value.NUMBER
		l = append(l, kv{k, v})
	}
	if n > 0 && nums {
		var items []value.ListItem
		seen := map[int]bool{}
		for _, e := range l {
			k := int(e.k.(value.Number).Long())
			d.loose = d.loose || seen[k] && n > 12
			seen[k] = true
			items = append(items, value.ImmutableItem(k, e.v))
		}
		sort.SliceStable(items, func(i, j int) bool { return items[i].Key() < items[j].Key() })
		return value.SparseList(items, true), nil
	}
	var es []value.MapEntry
	seen := map[string]bool{}
	lead := true
	for _, e := range l {
		// numbers up to the first other key count as indices
		lead = lead && e.k.Kind() == value.NUMBER
		var k string
		if lead {
			k = fmt.Sprint(e.k.(value.Number).Long())
		} else {
			k = e.k.String()
		}
		d.loose = d.loose || seen[k] && n > 12
		seen[k] = true
		es = append(es, value.ImmutableEntry(k, e.v))
	}
	sort.SliceStable(es, func(i, j int) bool { return es[i].Key() < es[j].Key() })
	return value.ImmutableMap(es, true), nil
}

func (d *refDec) value() (value.Value, error) {
	h, err := d.take(1)
	if err != nil {
		return nil, err
	}
	c := h[0]
	sized := func(k uint64, f func(n uint64) (value.Value, error)) (value.Value, error) {
		n, err := d.num(k)
		if err != nil {
			return nil, err
		}
		return f(n)
	}
	str := func(n uint64) (value.Value, error) {
		x, err := d.take(n)
		if err != nil {
			return nil, err
		}
		return value.Utf8(string(x)), nil
	}
	bin := func(n uint64) (value.Value, error) {
		x, err := d.take(n)
		if err != nil {
			return nil, err
		}
		return value.Raw(x, false), nil
	}
	switch {
	case c <= 0x7f:
		return value.Long(int64(c)), nil
	case c <= 0x8f:
		return d.dict(uint64(c & 15))
	case c <= 0x9f:
		return d.list(uint64(c & 15))
	case c <= 0xbf:
		return str(uint64(c & 31))
	case c >= 0xe0:
		return value.Long(int64(int8(c))), nil
	}
	switch c {
	case 0xc0, 0xc1:
		return value.Null, nil
	case 0xc2, 0xc3:
		return value.Boolean(c == 0xc3), nil
	case 0xc4, 0xc5, 0xc6:
		return sized(1<<(c-0xc4), bin)
	case 0xc7, 0xc8, 0xc9:
		return sized(1<<(c-0xc7), d.ext)
	case 0xca:
		n, err := d.num(4)
		if err != nil {
			return nil, err
		}
		return value.Double(float64(math.Float32frombits(uint32(n)))), nil
	case 0xcb:
		n, err := d.num(8)
		if err != nil {
			return nil, err
		}
		return value.Double(math.Float64frombits(n)), nil
	case 0xcc, 0xcd, 0xce, 0xcf:
		n, err := d.num(1 << (c - 0xcc))
		if err != nil {
			return nil, err
		}
		return value.Long(int64(n)), nil
	case 0xd0:
		n, err := d.num(1)
		if err != nil {
			return nil, err
		}
		return value.Long(int64(int8(n))), nil
	case 0xd1:
		n, err := d.num(2)
		if err != nil {
			return nil, err
		}
		return value.Long(int64(int16(n))), nil
	case 0xd2:
		n, err := d.num(4)
		if err != nil {
			return nil, err
		}
		return value.Long(int64(int32(n))), nil
	case 0xd3:
		n, err := d.num(8)
		if err != nil {
			return nil, err
		}
		return value.Long(int64(n)), nil
	case 0xd4, 0xd5, 0xd6, 0xd7, 0xd8:
		return d.ext(1 << (c - 0xd4))
	case 0xd9, 0xda, 0xdb:
		return sized(1<<(c-0xd9), str)
	case 0xdc:
		return sized(2, d.list)
	case 0xdd:
		return sized(4, d.list)
	case 0xde:
		return sized(2, d.dict)
	}
	return sized(4, d.dict)
}

// ---------------------------------------------------------------- input generators

// an encoding of some value, not always the shortest one
func genWire(r *rand.Rand, depth int) []byte {
	rb := func(n int) []byte {
		b := make([]byte, n)
		r.Read(b)
		return b
	}
	n := r.Intn(5)
	if r.Intn(12) == 0 {
		n = 10 + r.Intn(30)
	}
	if r.Intn(60) == 0 {
		n = 250 + r.Intn(20)
	}
	sz := func(c8, c16, c32 byte) []byte {
		switch k := r.Intn(3); {
		case k == 0 && c8 != 0 && n < 256:
			return []byte{c8, byte(n)}
		case k <= 1:
			return append([]byte{c16}, be(uint64(n), 2)...)
		}
		return append([]byte{c32}, be(uint64(n), 4)...)
	}
	k := r.Intn(17)
	if depth == 0 {
		k = r.Intn(13)
	}
	switch k {
	case 0:
		return []byte{[]byte{0xc0, 0xc1, 0xc2, 0xc3}[r.Intn(4)]}
	case 1:
		return []byte{byte(r.Intn(128))}
	case 2:
		return []byte{byte(0xe0 + r.Intn(32))}
	case 3, 4:
		c := r.Intn(8)
		x := rb(1 << (c & 3))
		if r.Intn(3) == 0 {
			x = be(uint64(genLong(r)), len(x))
		}
		return append([]byte{byte(0xcc + c)}, x...)
	case 5:
		return append([]byte{0xca}, rb(4)...)
	case 6:
		return append([]byte{0xcb}, rb(8)...)
	case 7:
		return append(sz(0xc4, 0xc5, 0xc6), rb(n)...)
	case 8:
		return append(sz(0xd9, 0xda, 0xdb), rb(n)...)
	case 9:
		n = r.Intn(32)
		return append([]byte{0xa0 | byte(n)}, rb(n)...)
	case 10:
		i := r.Intn(5)
		x := rb(1 + 1<<i)
		x[0] = byte(r.Intn(5))
		if x[0] == 2 && len(x) > 4 {
			copy(x[1:], []byte{0, 0, 0})
		}
		return append([]byte{byte(0xd4 + i)}, x...)
	case 11:
		x := append(sz(0xc7, 0xc8, 0xc9), byte(3+r.Intn(250)))
		return append(x, rb(n)...)
	case 12:
		var d []byte
		if r.Intn(2) == 0 {
			d, _ = genBig(r).GobEncode()
			n = len(d)
			return append(append(sz(0xc7, 0xc8, 0xc9), 1), d...)
		}
		d, _ = genDecimal(r).MarshalBinary()
		n = len(d)
		return append(append(sz(0xc7, 0xc8, 0xc9), 2), d...)
	}
	if n > 20 {
		depth = 1
	}
	var out []byte
	if k <= 14 {
		if n < 16 && r.Intn(2) == 0 {
			out = []byte{0x90 | byte(n)}
		} else {
			out = sz(0, 0xdc, 0xdd)
		}
		for i := 0; i < n; i++ {
			out = append(out, genWire(r, depth-1)...)
		}
		return out
	}
	if n < 16 && r.Intn(2) == 0 {
		out = []byte{0x80 | byte(n)}
	} else {
		out = sz(0, 0xde, 0xdf)
	}
	mode := r.Intn(4)
	if r.Intn(3) == 0 {
		mode += 4
	}
	for i := 0; i < n; i++ {
		switch {
		case mode&3 == 0:
			out = append(out, genWire(r, 0)...)
		case mode&3 == 1:
			if mode >= 4 {
				out = append(out, byte(i))
			} else {
				out = append(out, refLong(int64(r.Intn(40)-10))...)
			}
		case mode&3 == 2:
			if mode >= 4 {
				out = append(out, refStr(fmt.Sprintf("k%03d", i))...)
			} else {
				out = append(out, refStr(genKey(r))...)
			}
		default: // numbers, then something else
			if i < n-1-r.Intn(2) {
				out = append(out, byte(i*7%128))
			} else {
				out = append(out, refStr(fmt.Sprint(r.Intn(20)))...)
			}
		}
		out = append(out, genWire(r, depth-1)...)
	}
	return out
}

func genInput(r *rand.Rand) []byte {
	var b []byte
	switch r.Intn(5) {
	case 0:
		b = refEncode(anyValue(r))
	case 1, 2, 3:
		b = genWire(r, 3)
	default:
		b = make([]byte, r.Intn(12))
		r.Read(b)
		return b
	}
	switch r.Intn(5) {
	case 0:
		if len(b) > 0 {
			b = b[:r.Intn(len(b))]
		}
	case 1:
		b = append([]byte{}, b...)
		b[r.Intn(len(b))] = byte(r.Intn(256))
	case 2:
		b = append(append([]byte{}, b...), genWire(r, 1)...)
	}
	return b
}

func sameDecode(what string, in []byte, v value.Value, err error, want value.Value, wantErr error, loose bool) string {
	if (err == nil) != (v != nil) {
		return fmt.Sprintf("%s of %s returns value %.100s with error %v", what, short(in), dump(v), err)
	}
	if (err == nil) != (wantErr == nil) {
		return fmt.Sprintf("%s of %s gives error %v; by the grammar: %v", what, short(in), err, wantErr)
	}
	if err == nil && !loose && dump(v) != dump(want) {
		return fmt.Sprintf("%s of %s gives %.300s; the bytes say %.300s", what, short(in), dump(v), dump(want))
	}
	return ""
}

func TestVerif_C03(t *testing.T) {
	// announced sizes
	for _, h := range []byte{0xdc, 0xdd, 0xde, 0xdf, 0xc4, 0xc5, 0xc6, 0xc7, 0xc8, 0xc9, 0xd9, 0xda, 0xdb} {
		for _, tail := range [][]byte{nil, {1}, {0xa1, 'k'}, {1, 1, 0xa1, 'k'}} {
			in := append([]byte{h, 0xff, 0xff, 0xff, 0xff}, tail...)
			vCheck(t, func() string {
				for k := 0; k < 2; k++ {
					var m0, m1 runtime.MemStats
					runtime.ReadMemStats(&m0)
					var err error
					if k == 0 {
						_, err = value.Unpack(in, true)
					} else {
						_, err = value.Read(bytes.NewReader(in))
					}
					runtime.ReadMemStats(&m1)
					if err == nil && h != 0xc4 && h != 0xc7 && h != 0xd9 {
						return fmt.Sprintf("decoding %x succeeds", in)
					}
					if n := m1.TotalAlloc - m0.TotalAlloc; n > 400000 {
						return fmt.Sprintf("decoding the %d bytes %x allocates %d bytes", len(in), in, n)
					}
				}
				return ""
			})
		}
	}
	vLoop(t, func(r *rand.Rand) string {
		in := genInput(r)
		d := &refDec{b: in}
		want, wantErr := d.value()
		if d.huge {
			return ""
		}
		v, err := value.Unpack(append([]byte{}, in...), r.Intn(2) == 0)
		if m := sameDecode("Unpack", in, v, err, want, wantErr, d.loose); m != "" {
			return m
		}
		v, err = value.Read(bytes.NewReader(in))
		if m := sameDecode("Read", in, v, err, want, wantErr, d.loose); m != "" {
			return m
		}
		// every proper prefix is incomplete
		if wantErr == nil {
			full := in[:len(in)-len(d.b)]
			for i := 0; i < 6; i++ {
				p := append([]byte{}, full[:r.Intn(len(full))]...)
				if v, err := value.Unpack(p, true); err == nil || v != nil {
					return fmt.Sprintf("Unpack of %s, the first %d of %d bytes, gives %.100s, %v", short(p), len(p), len(full), dump(v), err)
				}
				if v, err := value.Read(bytes.NewReader(p)); err == nil || v != nil {
					return fmt.Sprintf("Read of %s, the first %d of %d bytes, gives %.100s, %v", short(p), len(p), len(full), dump(v), err)
				}
			}
		}
		return ""
	})
}

// ---------------------------------------------------------------- readers

// hides every method but Read
type onlyReader struct{ io.Reader }

// ReadByte is there, reads come in random pieces
type pieceReader struct {
	b   []byte
	r   *rand.Rand
	eof bool // end of input comes with the last bytes
}

func (p *pieceReader) Read(b []byte) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	if len(p.b) == 0 {
		return 0, io.EOF
	}
	if p.r.Intn(8) == 0 {
		return 0, nil
	}
	n := 1 + p.r.Intn(len(b))
	n = copy(b[:n], p.b)
	p.b = p.b[n:]
	if p.eof && len(p.b) == 0 {
		return n, io.EOF
	}
	return n, nil
}

type pieceByteReader struct{ *pieceReader }

func (p *pieceByteReader) ReadByte() (byte, error) {
	if len(p.b) == 0 {
		return 0, io.EOF
	}
	c := p.b[0]
	p.b = p.b[1:]
	return c, nil
}

func readers(r *rand.Rand, in []byte) (string, io.Reader) {
	switch r.Intn(6) {
	case 0:
		return "one byte at a time", iotest.OneByteReader(bytes.NewReader(in))
	case 1:
		return "end of input with the last bytes", iotest.DataErrReader(bytes.NewReader(in))
	case 2:
		return "plain", onlyReader{bytes.NewReader(in)}
	case 3:
		return "pieces", &pieceReader{in, r, false}
	case 4:
		return "pieces, end of input with the last bytes", &pieceReader{in, r, true}
	}
	return "pieces with ReadByte", &pieceByteReader{&pieceReader{in, r, r.Intn(2) == 0}}
}

func TestVerif_C04(t *testing.T) {
	vLoop(t, func(r *rand.Rand) string {
		in := genInput(r)
		if d := (&refDec{b: in}); true {
			if d.value(); d.huge {
				return ""
			}
		}
		want, wantErr := value.Unpack(append([]byte{}, in...), true)
		n, rd := readers(r, in)
		v, err := value.Read(rd)
		if m := sameDecode("Read ("+n+")", in, v, err, want, wantErr, false); m != "" {
			return m
		}
		// consecutive values
		var all []byte
		var vs []string
		for i := 0; i < 4; i++ {
			w := genWire(r, 2)
			v, err := value.Unpack(w, true)
			if err != nil {
				continue
			}
			vs = append(vs, dump(v))
			all = append(all, w...)
		}
		n, rd = readers(r, all)
		for i, w := range vs {
			v, err := value.Read(rd)
			if err != nil || dump(v) != w {
				return fmt.Sprintf("value %d of the stream %s (%s): %.200s, %v; want %.200s", i, short(all), n, dump(v), err, w)
			}
		}
		if v, err := value.Read(rd); err != io.EOF || v != nil {
			return fmt.Sprintf("at the end of the stream %s (%s): %.200s, %v", short(all), n, dump(v), err)
		}
		return ""
	})
}

func TestVerif_C01(t *testing.T) {
	vLoop(t, func(r *rand.Rand) string {
		v := anyValue(r)
		if d := dump(v); strings.Contains(d, "ext(01") || strings.Contains(d, "ext(02") {
			return "" // reserved tags are outside the claim
		}
		b, err := value.Pack(v)
		if err != nil {
			return fmt.Sprintf("Pack(%.200s): %v", dump(v), err)
		}
		w, err := value.Unpack(b, r.Intn(2) == 0)
		if err != nil || dumpWire(w) != dumpWire(v) {
			return fmt.Sprintf("%.300s packs to %s, which unpacks to %.300s, %v", dumpWire(v), short(b), dumpWire(w), err)
		}
		_, rd := readers(r, b)
		w, err = value.Read(rd)
		if err != nil || dumpWire(w) != dumpWire(v) {
			return fmt.Sprintf("%.300s packs to %s, which reads as %.300s, %v", dumpWire(v), short(b), dumpWire(w), err)
		}
		return ""
	})
}

// ---------------------------------------------------------------- aliasing

func TestVerif_C17(t *testing.T) {
	vLoop(t, func(r *rand.Rand) string {
		var in []byte
		for i := 0; i < 3; i++ {
			in = append(in, genWire(r, 2)...)
		}
		buf := append([]byte{}, in...)
		u := value.MessageUnpacker(buf, true)
		var vs []value.Value
		var before []string
		for {
			v, err := value.Parse(u, value.MessageParser())
			if err != nil {
				break
			}
			vs = append(vs, v)
			before = append(before, dump(v))
		}
		for i := range buf {
			buf[i] ^= 0x5a
		}
		for i, v := range vs {
			if g := dump(v); g != before[i] {
				return fmt.Sprintf("value %d decoded with copy from %s was %.200s and is %.200s after the input was overwritten", i, short(in), before[i], g)
			}
		}
		n, rd := readers(r, in)
		ur := value.MessageReader(rd)
		vs, before = nil, nil
		for {
			v, err := value.Parse(ur, value.MessageParser())
			if err != nil {
				break
			}
			vs = append(vs, v)
			before = append(before, dump(v))
		}
		for i, v := range vs {
			if g := dump(v); g != before[i] {
				return fmt.Sprintf("value %d read (%s) from %s was %.200s and is %.200s after further reading", i, n, short(in), before[i], g)
			}
		}
		return ""
	})
}

// ---------------------------------------------------------------- streams

func TestVerif_C18(t *testing.T) {
	vLoop(t, func(r *rand.Rand) string {
		c := make(chan value.Value, 8)
		var want []byte
		for i := r.Intn(6); i > 0; i-- {
			v := anyValue(r)
			c <- v
			want = append(want, refEncode(v)...)
		}
		close(c)
		var w bytes.Buffer
		if err := value.WriteStream(&w, c); err != nil || !bytes.Equal(w.Bytes(), want) {
			return fmt.Sprintf("WriteStream writes %s, %v; want %s", short(w.Bytes()), err, short(want))
		}
		var all []byte
		var vs []string
		for i := r.Intn(5); i > 0; i-- {
			x := genWire(r, 2)
			d := &refDec{b: x}
			v, err := d.value()
			if err != nil || d.loose {
				continue
			}
			vs = append(vs, dump(v))
			all = append(all, x...)
		}
		clean := r.Intn(3) != 0
		if !clean {
			x := genWire(r, 2)
			all = append(all, x[:len(x)-1]...)
			clean = len(x) == 1
		}
		n, rd := readers(r, all)
		out := make(chan value.Value, 64)
		var got []string
		err := value.ReadStream(rd, out)
		for v := range out {
			got = append(got, dump(v))
		}
		if clean != (err == io.EOF) || err == nil {
			return fmt.Sprintf("ReadStream of %s (%s) returns %v; the stream ends between two values: %v", short(all), n, err, clean)
		}
		if fmt.Sprint(got) != fmt.Sprint(vs) {
			return fmt.Sprintf("ReadStream of %s (%s) delivers %.300v; want %.300v", short(all), n, got, vs)
		}
		return ""
	})
}
