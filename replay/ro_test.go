package value_test

import (
	"bytes"
	"fmt"
	"math/big"
	"math/rand"
	"strings"
	"testing"

	"github.com/codeallergy/value"
	"github.com/shopspring/decimal"
)

// ---------------------------------------------------------------- read-only operations (C11)

// everything reachable from a value, spare capacity included
func deepState(v value.Value) string {
	var b strings.Builder
	deepTo(&b, v, 0)
	return b.String()
}

func deepTo(b *strings.Builder, v value.Value, d int) {
	if v == nil {
		b.WriteString("nil ")
		return
	}
	fmt.Fprintf(b, "%T:", v)
	switch v.Kind() {
	case value.NUMBER:
		switch o := v.Object().(type) {
		case *big.Int:
			w := o.Bits()
			fmt.Fprintf(b, "%v %v ", o.Sign(), w[:cap(w)])
		case decimal.Decimal:
			fmt.Fprintf(b, "%s e%d ", o.Coefficient(), o.Exponent())
		default:
			fmt.Fprintf(b, "%v ", o)
		}
	case value.STRING, value.UNKNOWN:
		switch o := v.Object().(type) {
		case []byte:
			fmt.Fprintf(b, "%d %x ", len(o), o[:cap(o)])
		default:
			fmt.Fprintf(b, "%q ", o)
		}
	case value.LIST:
		switch o := v.Object().(type) {
		case []value.Value:
			fmt.Fprintf(b, "%d[", len(o))
			for _, e := range o[:cap(o)] {
				deepTo(b, e, d+1)
			}
		default:
			l := v.(value.List)
			b.WriteString("[")
			for _, it := range l.Items() {
				fmt.Fprintf(b, "%d=", it.Key())
				deepTo(b, it.Value(), d+1)
			}
		}
		b.WriteString("]")
	case value.MAP:
		es := v.(value.Map).Entries()
		fmt.Fprintf(b, "%d{", len(es))
		for _, e := range es[:cap(es)] {
			if e == nil {
				b.WriteString("nil ")
				continue
			}
			fmt.Fprintf(b, "%q=", e.Key())
			deepTo(b, e.Value(), d+1)
		}
		b.WriteString("}")
	default:
		b.WriteString(v.String())
	}
}

func readAll(v, other value.Value) {
	allForms(v)
	value.Equal(v, other)
	v.Equal(other)
	v.Class()
	switch x := v.(type) {
	case value.Number:
		x.Long()
		x.Double()
		x.BigInt()
		x.Decimal()
		x.IsNaN()
		if y, ok := other.(value.Number); ok {
			x.Add(y)
			x.Subtract(y)
			y.Add(x)
			y.Subtract(x)
		}
	case value.String:
		x.Len()
		x.Utf8()
		x.Raw()
	case value.Extension:
		x.Native()
	case value.List:
		n := x.Len()
		if n > 40 {
			n = 40
		}
		for i := -1; i <= n; i++ {
			x.GetAt(i)
			x.GetBoolAt(i)
			x.GetNumberAt(i)
			x.GetStringAt(i)
			x.GetListAt(i)
			x.GetMapAt(i)
			x.Select(i)
		}
		x.Items()
		x.Entries()
		x.Values()
	case value.Map:
		for _, k := range append(x.Keys(), "", "zz") {
			x.Get(k)
			x.GetBool(k)
			x.GetNumber(k)
			x.GetString(k)
			x.GetList(k)
			x.GetMap(k)
			x.Select(k)
		}
		x.Len()
		x.Entries()
		x.Values()
		x.HashMap()
	}
}

func TestVerif_C11(t *testing.T) {
	vLoop(t, func(r *rand.Rand) string {
		return vGuard(func() string {
			v := genElem(r, 3)
			switch r.Intn(8) {
			case 0:
				v = boundaryValue(r)
			case 1:
				v = value.BigInt(genBig(r))
			case 2:
				b := make([]byte, r.Intn(9), 16+r.Intn(2)*200)
				r.Read(b[:16])
				v = value.Raw(b, false)
			case 3:
				b := make([]byte, 1+r.Intn(9), 16)
				r.Read(b[:16])
				v = value.Unknown(b)
			}
			if v == nil {
				return ""
			}
			other := genElem(r, 2)
			if r.Intn(2) == 0 {
				other = variant(r, v)
			}
			if other == nil || strings.Contains(dump(other), "ext()") {
				other = value.True // an extension without a tag is not a value
			}
			a, b := deepState(v), deepState(other)
			readAll(v, other)
			if g := deepState(v); g != a {
				return fmt.Sprintf("reading a %T changed it from %s to %s", v, short([]byte(a)), short([]byte(g)))
			}
			if g := deepState(other); g != b {
				return fmt.Sprintf("reading a %T changed the other operand %T from %s to %s", v, other, short([]byte(b)), short([]byte(g)))
			}
			// returned bytes belong to the caller
			for i, f := range []func(value.Value) ([]byte, error){value.Value.MarshalBinary, value.Value.MarshalJSON} {
				x, err := f(v)
				if err != nil {
					continue
				}
				keep := append([]byte(nil), x...)
				if other != nil {
					f(other)
				}
				y, _ := f(v)
				if !bytes.Equal(x, keep) {
					return fmt.Sprintf("bytes %d of a %T changed by later calls", i, v)
				}
				for j := range x[:cap(x)] {
					x[:cap(x)][j] ^= 0x5a
				}
				if !bytes.Equal(y, keep) {
					return fmt.Sprintf("bytes %d of a %T shared between two calls", i, v)
				}
				if z, _ := f(v); !bytes.Equal(z, keep) {
					return fmt.Sprintf("writing into bytes %d of a %T changes later results: %s", i, v, short(z))
				}
			}
			if g := deepState(v); g != a {
				return fmt.Sprintf("writing into the bytes of a %T changed it", v)
			}
			return ""
		})
	})
}
