package value_test

import (
	"bytes"
	"crypto"
	_ "crypto/sha256"
	"fmt"
	"math/big"
	"math/rand"
	"strings"
	"testing"

	"github.com/codeallergy/value"
	"github.com/shopspring/decimal"
)

// ---------------------------------------------------------------- determinism (C06) and read-only operations (C11)

// all serializations of a value
func allForms(v value.Value) string {
	mp, err := value.Pack(v)
	d, h, err2 := value.Hash(v, crypto.SHA256)
	var w bytes.Buffer
	err3 := value.Write(&w, v)
	s := fmt.Sprintf("pack %s %v; hash %s %x %v; write %s %v; hex %s; json %s", short(mp), err, short(d), h, err2, short(w.Bytes()), err3, value.Hex(v), value.Jsonify(v))
	if v != nil {
		b, e1 := v.MarshalBinary()
		j, e2 := v.MarshalJSON()
		var out strings.Builder
		v.PrintJSON(&out)
		s += fmt.Sprintf("; marshal %s %v; marshal JSON %s %v; print %s; string %s", short(b), e1, j, e2, out.String(), v.String())
	}
	return s
}

// the same content built in another way
func rebuild(r *rand.Rand, v value.Value) value.Value {
	if v == nil {
		return nil
	}
	switch v.Kind() {
	case value.NUMBER:
		n := v.(value.Number)
		switch n.Type() {
		case value.BIGINT:
			z := new(big.Int).Lsh(n.Object().(*big.Int), 100)
			return value.BigInt(z.Rsh(z, 100))
		case value.DECIMAL:
			d := n.Object().(decimal.Decimal)
			return value.Decimal(decimal.NewFromBigInt(d.Coefficient(), d.Exponent()))
		}
		return v
	case value.STRING:
		if v.(value.String).Type() == value.UTF8 {
			return value.Utf8(string(append([]byte(nil), v.Object().(string)...)))
		}
		b := v.Object().([]byte)
		return value.Raw(append(make([]byte, 0, len(b)+r.Intn(9)), b...), r.Intn(2) == 0)
	case value.UNKNOWN:
		b := v.Object().([]byte)
		return value.Unknown(append(make([]byte, 0, len(b)+r.Intn(9)), b...))
	case value.LIST:
		switch o := v.Object().(type) {
		case []value.Value:
			var l value.List
			switch r.Intn(4) {
			case 0:
				l = value.EmptyMutableList()
				for i, e := range o {
					l = l.InsertAt(i, rebuild(r, e))
				}
				return l
			case 1:
				l = value.EmptyImmutableList()
				for i := len(o) - 1; i >= 0; i-- {
					l = l.InsertAt(0, rebuild(r, o[i]))
				}
				return l
			case 2:
				l = value.EmptyImmutableList()
				for _, e := range o {
					l = l.Append(rebuild(r, e))
				}
				return l.Append(value.Null).RemoveAt(len(o))
			}
			c := make([]value.Value, 0, len(o)+r.Intn(9))
			for _, e := range o {
				c = append(c, rebuild(r, e))
			}
			if r.Intn(2) == 0 {
				return value.MutableList(c)
			}
			return value.ImmutableList(c)
		case []value.ListItem:
			c := make([]value.ListItem, 0, len(o)+r.Intn(9))
			for _, e := range o {
				if r.Intn(2) == 0 {
					c = append(c, value.MutableItem(e.Key(), rebuild(r, e.Value())))
				} else {
					c = append(c, value.ImmutableItem(e.Key(), rebuild(r, e.Value())))
				}
			}
			return value.SparseList(c, true)
		}
	case value.MAP:
		es := v.Object().([]value.MapEntry)
		uniq := true
		h := map[string]value.Value{}
		for _, e := range es {
			if _, ok := h[e.Key()]; ok {
				uniq = false
			}
			h[e.Key()] = rebuild(r, e.Value())
		}
		if uniq && r.Intn(2) == 0 {
			if r.Intn(2) == 0 {
				return value.ImmutableMapOf(h)
			}
			return value.SortedMapOf(h)
		}
		c := make([]value.MapEntry, 0, len(es)+r.Intn(9))
		for _, e := range es {
			if r.Intn(2) == 0 {
				c = append(c, value.MutableEntry(e.Key(), rebuild(r, e.Value())))
			} else {
				c = append(c, value.ImmutableEntry(e.Key(), rebuild(r, e.Value())))
			}
		}
		if uniq && r.Intn(2) == 0 {
			m := value.EmptyMap(r.Intn(2) == 0)
			for _, i := range r.Perm(len(c)) {
				m = m.Put(c[i].Key(), c[i].Value())
				if r.Intn(3) == 0 {
					m = m.Put("zz-extra", value.Null).Remove("zz-extra")
				}
			}
			for _, e := range es {
				m = m.Put(e.Key(), h[e.Key()])
			}
			return m
		}
		if r.Intn(2) == 0 {
			return value.ImmutableMap(c, true)
		}
		return value.SortedMap(c, true)
	}
	return v
}

func hasKey(v value.Value, k string) bool { return strings.Contains(dump(v), k) }

func TestVerif_C06(t *testing.T) {
	vLoop(t, func(r *rand.Rand) string {
		var v value.Value
		if r.Intn(3) == 0 {
			v = boundaryValue(r)
		} else {
			v = genValue(r, 3)
		}
		if hasKey(v, "zz-extra") {
			return ""
		}
		before, f := dump(v), allForms(v)
		if g := allForms(v); g != f {
			return fmt.Sprintf("serialized again: %s then %s", f, g)
		}
		if dump(v) != before {
			return "serializing changed the value: " + before + " to " + dump(v)
		}
		w := rebuild(r, v)
		wd := dump(w)
		// absent elements become Null on the way through most operations
		if strings.ReplaceAll(wd, "nil", "null") != strings.ReplaceAll(before, "nil", "null") {
			return ""
		}
		if g := allForms(w); g != f {
			return fmt.Sprintf("same content %s (%T and %T), different forms: %s and %s", before, v, w, f, g)
		}
		return ""
	})
}
