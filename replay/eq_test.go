package value_test

import (
	"math"
	"math/big"
	"math/rand"
	"testing"

	"github.com/codeallergy/value"
	"github.com/shopspring/decimal"
)

// ---------------------------------------------------------------- equality (C13)

func refSparse(v value.Value) ([]value.ListItem, bool) {
	l, ok := v.Object().([]value.ListItem)
	return l, ok
}

func refSparseLen(l []value.ListItem) int {
	if len(l) == 0 || l[len(l)-1].Key() < 0 {
		return 0
	}
	return l[len(l)-1].Key() + 1
}

func refSparseAt(l []value.ListItem, i int) value.Value {
	for _, e := range l {
		if e.Key() == i {
			return e.Value()
		}
	}
	return value.Null
}

func refExact(n value.Number) *big.Rat {
	switch o := n.Object().(type) {
	case int64:
		return new(big.Rat).SetInt64(o)
	case *big.Int:
		return new(big.Rat).SetInt(o)
	case decimal.Decimal:
		return refRat(o)
	}
	return nil
}

func refEq(a, b value.Value) bool {
	if a == nil {
		a = value.Null
	}
	if b == nil {
		b = value.Null
	}
	if a.Kind() != b.Kind() {
		return false
	}
	switch a.Kind() {
	case value.NULL:
		return true
	case value.BOOL:
		return a.Object().(bool) == b.Object().(bool)
	case value.NUMBER:
		x, y := a.(value.Number), b.(value.Number)
		if x.Type() == value.DOUBLE || y.Type() == value.DOUBLE {
			l, r := x.Double(), y.Double()
			if math.IsNaN(l) || math.IsNaN(r) {
				return false
			}
			return l == r || math.Abs(l-r) < value.PrecisionLevel
		}
		return refExact(x).Cmp(refExact(y)) == 0
	case value.STRING, value.UNKNOWN:
		by := func(v value.Value) string {
			if x, ok := v.(value.Extension); ok {
				return string(x.Native())
			}
			switch o := v.Object().(type) {
			case string:
				return o
			case []byte:
				return string(o)
			}
			return "?"
		}
		return by(a) == by(b)
	case value.LIST:
		sa, isA := refSparse(a)
		sb, isB := refSparse(b)
		if isA && isB {
			if len(sa) != len(sb) {
				return false
			}
			for i := range sa {
				if sa[i].Key() != sb[i].Key() || !refEq(sa[i].Value(), sb[i].Value()) {
					return false
				}
			}
			return true
		}
		at := func(v value.Value, s []value.ListItem, sp bool) (int, func(int) value.Value) {
			if sp {
				return refSparseLen(s), func(i int) value.Value { return refSparseAt(s, i) }
			}
			d := v.Object().([]value.Value)
			return len(d), func(i int) value.Value { return d[i] }
		}
		na, ga := at(a, sa, isA)
		nb, gb := at(b, sb, isB)
		if na != nb {
			return false
		}
		for i := 0; i < na; i++ {
			if !refEq(ga(i), gb(i)) {
				return false
			}
		}
		return true
	case value.MAP:
		x, y := a.Object().([]value.MapEntry), b.Object().([]value.MapEntry)
		if len(x) != len(y) {
			return false
		}
		for i := range x {
			if x[i].Key() != y[i].Key() || !refEq(x[i].Value(), y[i].Value()) {
				return false
			}
		}
		return true
	}
	return false
}

// a value of much the same content in another flavour, now and then with a small change
func variant(r *rand.Rand, v value.Value) value.Value {
	if r.Intn(25) == 0 {
		return genElem(r, 1)
	}
	if v == nil {
		return value.Null
	}
	switch v.Kind() {
	case value.NULL:
		if r.Intn(2) == 0 {
			return nil
		}
	case value.NUMBER:
		n := v.(value.Number)
		switch r.Intn(8) {
		case 0:
			return value.BigInt(n.BigInt())
		case 1:
			if !n.IsNaN() && !math.IsInf(n.Double(), 0) {
				return value.Decimal(n.Decimal())
			}
		case 2:
			return value.Double(n.Double())
		case 3:
			return value.Double(n.Double() + 0.000007)
		case 4:
			return value.Long(n.Long())
		case 5:
			return n.Add(value.Long(int64(r.Intn(3) - 1)))
		}
	case value.STRING:
		if r.Intn(2) == 0 {
			switch o := v.Object().(type) {
			case string:
				return value.Raw([]byte(o), true)
			case []byte:
				return value.Utf8(string(o))
			}
		}
		switch o := v.Object().(type) {
		case string:
			if len(o) > 0 && r.Intn(4) == 0 {
				b := []byte(o)
				b[r.Intn(len(b))] ^= byte(1 << uint(r.Intn(8)))
				return value.Utf8(string(b))
			}
		case []byte:
			if len(o) > 0 && r.Intn(4) == 0 {
				b := append([]byte(nil), o...)
				b[r.Intn(len(b))] ^= byte(1 << uint(r.Intn(8)))
				return value.Raw(b, false)
			}
		}
	case value.UNKNOWN:
		if o, ok := v.(value.Extension); ok && len(o.Native()) > 0 && r.Intn(2) == 0 {
			b := append([]byte(nil), o.Native()...)
			switch r.Intn(3) {
			case 0:
				b[r.Intn(len(b))] ^= byte(1 << uint(r.Intn(8)))
			case 1:
				b = b[:len(b)-1]
			case 2:
				b[0]++
			}
			return value.Unknown(b)
		}
	case value.LIST:
		if s, ok := refSparse(v); ok {
			var items []value.ListItem
			for _, e := range s {
				if r.Intn(40) == 0 {
					continue
				}
				items = append(items, value.MutableItem(e.Key(), variant(r, e.Value())))
			}
			if n := refSparseLen(s); r.Intn(3) == 0 && n < 40 {
				l := make([]value.Value, n)
				for i := range l {
					l[i] = variant(r, refSparseAt(s, i))
				}
				return value.ImmutableList(l)
			}
			return value.SparseList(items, false)
		}
		var l []value.Value
		var items []value.ListItem
		for i, e := range v.Object().([]value.Value) {
			x := variant(r, e)
			l = append(l, x)
			if x != nil && x != value.Null || r.Intn(3) == 0 {
				items = append(items, value.ImmutableItem(i, x))
			}
		}
		switch r.Intn(3) {
		case 0:
			return value.ImmutableList(l)
		case 1:
			return value.MutableList(l)
		}
		return value.SparseList(items, false)
	case value.MAP:
		mut := r.Intn(2) == 0
		var es []value.MapEntry
		for _, e := range v.Object().([]value.MapEntry) {
			if mut {
				es = append(es, value.MutableEntry(e.Key(), variant(r, e.Value())))
			} else {
				es = append(es, value.ImmutableEntry(e.Key(), variant(r, e.Value())))
			}
		}
		if mut {
			return value.SortedMap(es, true)
		}
		return value.ImmutableMap(es, true)
	}
	return v
}

func TestVerif_C13(t *testing.T) {
	vCheck(t, func() string {
		var all []value.Value
		for _, n := range []float64{0, math.Copysign(0, -1), 1, 1.000005, 1.00001, 1.00002, math.NaN(), math.Inf(1), math.Inf(-1), 1e300, math.MaxFloat64, 9007199254740993, 4.9e-324} {
			all = append(all, value.Double(n))
		}
		for _, n := range vLongs {
			all = append(all, value.Long(n), value.BigInt(big.NewInt(n)), value.Decimal(decimal.New(n, 0)), value.Decimal(decimal.New(n, -1)), value.BigInt(new(big.Int).Lsh(big.NewInt(n), 64)))
		}
		all = append(all, nil, value.Null, value.Boolean(true), value.Boolean(false), value.Utf8(""), value.Raw(nil, false), value.Unknown([]byte{5, 1}), value.Unknown([]byte{6, 1}), value.Unknown([]byte{5}), value.Nan, value.MutableList([]value.Value{value.Nan}), value.ImmutableList([]value.Value{value.Nan}), value.SparseList([]value.ListItem{value.MutableItem(0, value.Nan)}, true), value.ImmutableMap([]value.MapEntry{value.ImmutableEntry("a", value.Nan)}, true), value.SortedMap([]value.MapEntry{value.MutableEntry("a", value.Nan)}, true), value.EmptyImmutableList(), value.EmptyMutableList(), value.EmptySparseList(), value.EmptyImmutableMap(), value.EmptyMutableMap(),
			value.SparseList([]value.ListItem{value.MutableItem(-1, value.Long(1))}, true), value.SparseList([]value.ListItem{value.MutableItem(1, value.Long(1))}, true), value.ImmutableList([]value.Value{nil, value.Long(1)}))
		for _, a := range all {
			for _, b := range all {
				if g, w := value.Equal(a, b), refEq(a, b); g != w {
					return "Equal(" + dump(a) + ", " + dump(b) + ") is wrong"
				}
			}
		}
		return ""
	})
	vLoop(t, func(r *rand.Rand) string {
		a := genElem(r, 3)
		b := variant(r, a)
		if r.Intn(8) == 0 {
			b = a
		}
		w := refEq(a, b)
		if value.Equal(a, b) != w {
			return "Equal(" + dump(a) + ", " + dump(b) + ") is wrong"
		}
		if value.Equal(b, a) != w {
			return "Equal(" + dump(b) + ", " + dump(a) + ") is wrong"
		}
		if a != nil && a.Equal(b) != w {
			return dump(a) + ".Equal(" + dump(b) + ") is wrong"
		}
		return ""
	})
}
