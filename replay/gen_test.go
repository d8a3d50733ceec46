package value_test

import (
	"bytes"
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"os"
	"reflect"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/codeallergy/value"
	"github.com/shopspring/decimal"
)

// Oracles for the properties in /verif/properties.jsonl, written against the exported API only. A check runs its
// property's oracle after the verifier rejected an obligation, to look for a concrete failing input.

func vSeed() int64 {
	n, err := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if err != nil {
		return 1
	}
	return int64(n)
}

// run f on fresh random sources until the time is up or it reports a failure; a panic is a failure too
func vLoop(t *testing.T, f func(r *rand.Rand) string) { vLoopFor(t, 25*time.Second, f) }

func vLoopFor(t *testing.T, d time.Duration, f func(r *rand.Rand) string) {
	t.Helper()
	end := time.Now().Add(d)
	for n := int64(0); time.Now().Before(end); n++ {
		seed := vSeed()*1000003 + n
		msg := vGuard(func() string { return f(rand.New(rand.NewSource(seed))) })
		if msg != "" {
			t.Fatalf("WITNESS (case %d): %s", n, msg)
		}
	}
}

func vGuard(f func() string) (msg string) {
	defer func() {
		if e := recover(); e != nil {
			msg = fmt.Sprintf("panic: %v", e)
			if os.Getenv("VERIF_STACK") != "" {
				debug.PrintStack()
			}
		}
	}()
	return f()
}

func vCheck(t *testing.T, f func() string) {
	t.Helper()
	if msg := vGuard(f); msg != "" {
		t.Fatalf("WITNESS: %s", msg)
	}
}

var vLongs = []int64{0, 1, -1, 31, 32, -32, -33, 127, 128, -127, -128, -129, 255, 256, 32767, 32768, -32768, -32769, 65535, 65536,
	2147483647, 2147483648, -2147483648, -2147483649, 4294967295, 4294967296, math.MaxInt64, math.MinInt64, math.MinInt64 + 1}

func genLong(r *rand.Rand) int64 {
	switch r.Intn(3) {
	case 0:
		return vLongs[r.Intn(len(vLongs))]
	case 1:
		return int64(r.Intn(20) - 10)
	}
	return int64(r.Uint64()) >> uint(r.Intn(64))
}

var vDoubles = []float64{0, math.Copysign(0, -1), 1, -1, 0.5, 1e-300, 5e-324, 1e300, math.MaxFloat64, -math.MaxFloat64, math.Inf(1), math.Inf(-1), math.NaN(), 123456789.125, 9007199254740993, 1e18, 1e19, 1e20, -1e19, 0.1, 3}

func genDouble(r *rand.Rand) float64 {
	switch r.Intn(3) {
	case 0:
		return vDoubles[r.Intn(len(vDoubles))]
	case 1:
		return float64(r.Intn(200)-100) / 8
	}
	return math.Float64frombits(r.Uint64())
}

func genBig(r *rand.Rand) *big.Int {
	z := new(big.Int)
	switch r.Intn(3) {
	case 0:
		z.SetInt64(genLong(r))
	default:
		b := make([]byte, r.Intn(24))
		r.Read(b)
		z.SetBytes(b)
		if r.Intn(2) == 0 {
			z.Neg(z)
		}
	}
	return z
}

func genDecimal(r *rand.Rand) decimal.Decimal {
	return decimal.NewFromBigInt(genBig(r), int32(r.Intn(41)-20))
}

var vStrLens = []int{0, 1, 2, 5, 31, 32, 33, 255, 256, 257, 300, 65535, 65536}

func genStrLen(r *rand.Rand) int {
	if r.Intn(6) > 0 {
		return r.Intn(8)
	}
	n := len(vStrLens)
	if r.Intn(8) > 0 {
		n -= 2
	}
	return vStrLens[r.Intn(n)]
}

func genStr(r *rand.Rand) string {
	n := genStrLen(r)
	b := make([]byte, n)
	switch r.Intn(3) {
	case 0:
		for i := range b {
			b[i] = byte('a' + r.Intn(4))
		}
	case 1:
		for i := range b {
			b[i] = "\"\\/<>&\x00\x01\n\t\x7f 0x.\u00e9\u2028"[r.Intn(18)]
		}
	default:
		r.Read(b)
	}
	return string(b)
}

func genKey(r *rand.Rand) string {
	if r.Intn(4) > 0 {
		return string(rune('a' + r.Intn(5)))
	}
	s := genStr(r)
	if len(s) > 40 {
		s = s[:40]
	}
	return s
}

func genScalar(r *rand.Rand) value.Value {
	switch r.Intn(9) {
	case 0:
		return value.Null
	case 1:
		return value.Boolean(r.Intn(2) == 0)
	case 2:
		return value.Long(genLong(r))
	case 3:
		return value.Double(genDouble(r))
	case 4:
		return value.BigInt(genBig(r))
	case 5:
		return value.Decimal(genDecimal(r))
	case 6:
		return value.Utf8(genStr(r))
	case 7:
		return value.Raw([]byte(genStr(r)), false)
	}
	return value.Unknown(append([]byte{byte(2 + r.Intn(250))}, genStr(r)...))
}

func genElem(r *rand.Rand, depth int) value.Value {
	if r.Intn(8) == 0 {
		return nil
	}
	return genValue(r, depth)
}

var vCnts = []int{0, 1, 2, 3, 15, 16, 17, 255, 256, 257, 300}

func genCnt(r *rand.Rand) int {
	if r.Intn(10) > 0 {
		return r.Intn(5)
	}
	return vCnts[r.Intn(len(vCnts))]
}

func genElems(r *rand.Rand, depth int) []value.Value {
	n := genCnt(r)
	if n > 8 {
		depth = 0
	}
	l := make([]value.Value, n)
	for i := range l {
		l[i] = genElem(r, depth)
	}
	return l
}

// depth 0: scalars only
func genValue(r *rand.Rand, depth int) value.Value {
	if depth <= 0 || r.Intn(3) == 0 {
		return genScalar(r)
	}
	switch r.Intn(5) {
	case 0:
		return value.ImmutableList(genElems(r, depth-1))
	case 1:
		return value.MutableList(genElems(r, depth-1))
	case 2:
		return genSparse(r, depth-1)
	case 3:
		return value.ImmutableMap(genEntries(r, depth-1, false), false)
	}
	return value.SortedMap(genEntries(r, depth-1, true), false)
}

func genSparse(r *rand.Rand, depth int) value.List {
	var items []value.ListItem
	n := genCnt(r)
	if n > 8 {
		depth = 0
	}
	for i := 0; i < n; i++ {
		k := r.Intn(12)
		if r.Intn(10) == 0 {
			k = -r.Intn(5)
		}
		if r.Intn(12) == 0 {
			k = r.Intn(2000)
		}
		if r.Intn(2) == 0 {
			items = append(items, value.MutableItem(k, genElem(r, depth)))
		} else {
			items = append(items, value.ImmutableItem(k, genElem(r, depth)))
		}
	}
	return value.SparseList(items, false)
}

func genEntries(r *rand.Rand, depth int, mutable bool) []value.MapEntry {
	var es []value.MapEntry
	n := genCnt(r)
	if n > 8 {
		depth = 0
	}
	for i := 0; i < n; i++ {
		k := genKey(r)
		if mutable {
			es = append(es, value.MutableEntry(k, genElem(r, depth)))
		} else {
			es = append(es, value.ImmutableEntry(k, genElem(r, depth)))
		}
	}
	return es
}

// the content of a value, independent of the library's own comparison
func dump(v value.Value) string {
	var b strings.Builder
	dumpTo(&b, v, 0)
	return b.String()
}

func dumpTo(b *strings.Builder, v value.Value, d int) {
	if v == nil {
		b.WriteString("nil")
		return
	}
	switch v.Kind() {
	case value.NULL:
		b.WriteString("null")
	case value.BOOL:
		fmt.Fprintf(b, "%v", v.(value.Bool).Boolean())
	case value.NUMBER:
		n := v.(value.Number)
		switch n.Type() {
		case value.LONG:
			fmt.Fprintf(b, "long(%d)", n.Long())
		case value.DOUBLE:
			fmt.Fprintf(b, "double(%016x)", math.Float64bits(n.Double()))
		case value.BIGINT:
			fmt.Fprintf(b, "big(%s)", n.Object().(*big.Int).String())
		case value.DECIMAL:
			d := n.Object().(decimal.Decimal)
			fmt.Fprintf(b, "dec(%s e%d)", d.Coefficient().String(), d.Exponent())
		}
	case value.STRING:
		s := v.(value.String)
		if s.Type() == value.UTF8 {
			fmt.Fprintf(b, "str(%q)", v.Object().(string))
		} else {
			fmt.Fprintf(b, "raw(%x)", v.Object().([]byte))
		}
	case value.UNKNOWN:
		fmt.Fprintf(b, "ext(%x)", v.Object().([]byte))
	case value.LIST:
		switch o := v.Object().(type) {
		case []value.Value:
			b.WriteByte('[')
			for i, e := range o {
				if i > 0 {
					b.WriteByte(' ')
				}
				dumpTo(b, e, d+1)
			}
			b.WriteByte(']')
		case []value.ListItem:
			b.WriteByte('<')
			for i, e := range o {
				if i > 0 {
					b.WriteByte(' ')
				}
				fmt.Fprintf(b, "%d:", e.Key())
				dumpTo(b, e.Value(), d+1)
			}
			b.WriteByte('>')
		}
	case value.MAP:
		b.WriteByte('{')
		for i, e := range v.Object().([]value.MapEntry) {
			if i > 0 {
				b.WriteByte(' ')
			}
			fmt.Fprintf(b, "%q:", e.Key())
			dumpTo(b, e.Value(), d+1)
		}
		b.WriteByte('}')
	default:
		fmt.Fprintf(b, "?%T", v)
	}
}

// the content with absent elements read as Null and empty sparse lists as empty maps: what the wire format keeps
func dumpWire(v value.Value) string {
	return strings.ReplaceAll(strings.ReplaceAll(dump(v), "nil", "null"), "<>", "{}")
}

type ev struct {
	k string
	v value.Value
}
type iv struct {
	k int
	v value.Value
}

func mapEvs(m value.Map) []ev {
	var out []ev
	for _, e := range m.Entries() {
		out = append(out, ev{e.Key(), e.Value()})
	}
	return out
}

func evString(l []ev) string {
	var b strings.Builder
	for _, e := range l {
		fmt.Fprintf(&b, "%q:%s ", e.k, dump(e.v))
	}
	return b.String()
}

func ivString(l []iv) string {
	var b strings.Builder
	for _, e := range l {
		fmt.Fprintf(&b, "%d:%s ", e.k, dump(e.v))
	}
	return b.String()
}

func valsString(l []value.Value) string {
	var b strings.Builder
	for _, e := range l {
		b.WriteString(dump(e) + " ")
	}
	return b.String()
}

func nn(v value.Value) value.Value {
	if v == nil {
		return value.Null
	}
	return v
}

type updFunc struct {
	calls int
	got   value.Value
	ret   value.Value
}

func (u *updFunc) Update(old value.Value) value.Value {
	u.calls++
	u.got = old
	return u.ret
}

var _ = bytes.Equal
var _ = reflect.DeepEqual
var _ = sort.Ints

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}
