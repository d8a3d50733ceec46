package value_test

import (
	"bytes"
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"sort"
	"testing"

	"github.com/codeallergy/value"
	"github.com/shopspring/decimal"
)

// ---------------------------------------------------------------- constructors and copies (C22)

func entryStrings(es []value.MapEntry) []string {
	var out []string
	for _, e := range es {
		out = append(out, fmt.Sprintf("%q:%s", e.Key(), dump(e.Value())))
	}
	return out
}

func itemStrings(es []value.ListItem) []string {
	var out []string
	for _, e := range es {
		out = append(out, fmt.Sprintf("%d:%s", e.Key(), dump(e.Value())))
	}
	return out
}

func sameBag(a, b []string) bool {
	a, b = append([]string(nil), a...), append([]string(nil), b...)
	sort.Strings(a)
	sort.Strings(b)
	return fmt.Sprint(a) == fmt.Sprint(b)
}

func consLists(r *rand.Rand) string {
	src := genElems(r, 1)
	want := valsString(src)
	for _, c := range []struct {
		n string
		l value.List
		m bool
	}{{"ImmutableList", value.ImmutableList(append([]value.Value(nil), src...)), false}, {"MutableList", value.MutableList(append([]value.Value(nil), src...)), true},
		{"Tuple", value.Tuple(append([]value.Value(nil), src...)...), true}} {
		if g := valsString(c.l.Object().([]value.Value)); g != want {
			return c.n + ": " + g + " want " + want
		}
		if len(src) > 0 && c.l.UpdateAt(0, &updFunc{ret: value.Utf8("changed")}) != c.m {
			return c.n + " has the wrong mutability"
		}
	}
	if len(src) > 0 {
		if g := valsString(value.Single(src[0]).Object().([]value.Value)); g != dump(src[0])+" " {
			return "Single: " + g
		}
	}
	cp := value.CopyOf(src)
	if g := valsString(cp); g != want {
		return "CopyOf: " + g + " want " + want
	}
	for i := range src {
		src[i] = value.Utf8("changed")
	}
	if g := valsString(cp); g != want {
		return "CopyOf changed with its source: " + g + " want " + want
	}
	return ""
}

func consSparse(r *rand.Rand) string {
	src := genElems(r, 1)
	var want []string
	for i, v := range src {
		if v != nil {
			want = append(want, fmt.Sprintf("%d:%s", i, dump(v)))
		}
	}
	l := value.SparseListOf(src)
	if g := itemStrings(l.Object().([]value.ListItem)); fmt.Sprint(g) != fmt.Sprint(want) {
		return fmt.Sprintf("SparseListOf: %v want %v", g, want)
	}
	if len(want) > 0 && !l.UpdateAt(l.Object().([]value.ListItem)[0].Key(), &updFunc{ret: value.Null}) {
		return "SparseListOf is not mutable"
	}
	items := genSparse(r, 1).Object().([]value.ListItem)
	items = append([]value.ListItem(nil), items...)
	sorted := itemStrings(items)
	if g := itemStrings(value.SparseList(append([]value.ListItem(nil), items...), true).Object().([]value.ListItem)); fmt.Sprint(g) != fmt.Sprint(sorted) {
		return fmt.Sprintf("SparseList of sorted items: %v want %v", g, sorted)
	}
	r.Shuffle(len(items), func(i, j int) { items[i], items[j] = items[j], items[i] })
	o := value.SparseList(items, false).Object().([]value.ListItem)
	if !sameBag(itemStrings(o), sorted) {
		return fmt.Sprintf("SparseList: %v is no rearrangement of %v", itemStrings(o), sorted)
	}
	for i := 1; i < len(o); i++ {
		if o[i-1].Key() > o[i].Key() {
			return fmt.Sprintf("SparseList not sorted: %v", itemStrings(o))
		}
	}
	return ""
}

func consMaps(r *rand.Rand) string {
	src := map[string]value.Value{}
	for n := genCnt(r); n > 0; n-- {
		src[genKey(r)] = genElem(r, 1)
	}
	var keys []string
	for k := range src {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var want []string
	for _, k := range keys {
		want = append(want, fmt.Sprintf("%q:%s", k, dump(src[k])))
	}
	es := genEntries(r, 1, r.Intn(2) == 0)
	for _, imm := range []bool{true, false} {
		of, from, cp := value.SortedMapOf, value.SortedMap, value.SortedMapCopyOf
		if imm {
			of, from, cp = value.ImmutableMapOf, value.ImmutableMap, value.ImmutableMapCopyOf
		}
		m := of(src)
		if g := entryStrings(m.Entries()); fmt.Sprint(g) != fmt.Sprint(want) {
			return fmt.Sprintf("map of a hash map (immutable %v): %v want %v", imm, g, want)
		}
		if len(keys) > 0 && m.Update(keys[0], &updFunc{ret: value.Null}) == imm {
			return fmt.Sprintf("map of a hash map (immutable %v) has the wrong mutability", imm)
		}
		if g := entryStrings(m.Entries()); imm && fmt.Sprint(g) != fmt.Sprint(want) {
			return "update changed an immutable map"
		}
		bag := entryStrings(es)
		o := from(append([]value.MapEntry(nil), es...), false)
		g := entryStrings(o.Entries())
		if !sameBag(g, bag) {
			return fmt.Sprintf("map of entries (immutable %v): %v is no rearrangement of %v", imm, g, bag)
		}
		for i, e := range o.Entries() {
			if i > 0 && o.Entries()[i-1].Key() > e.Key() {
				return fmt.Sprintf("map of entries (immutable %v) not sorted: %v", imm, g)
			}
		}
		p := from(append([]value.MapEntry(nil), o.Entries()...), true)
		if h := entryStrings(p.Entries()); fmt.Sprint(h) != fmt.Sprint(g) {
			return fmt.Sprintf("map of sorted entries (immutable %v): %v want %v", imm, h, g)
		}
		for _, smut := range []bool{true, false} {
			var source value.Map
			var se []value.MapEntry
			for _, e := range o.Entries() {
				if smut {
					se = append(se, value.MutableEntry(e.Key(), e.Value()))
				} else {
					se = append(se, value.ImmutableEntry(e.Key(), e.Value()))
				}
			}
			if smut {
				source = value.SortedMap(se, true)
			} else {
				source = value.ImmutableMap(se, true)
			}
			c := cp(source)
			want := fmt.Sprint(g)
			if h := fmt.Sprint(entryStrings(c.Entries())); h != want {
				return fmt.Sprintf("copy (immutable %v) of a map (mutable %v): %s want %s", imm, smut, h, want)
			}
			if len(se) == 0 {
				continue
			}
			k := se[r.Intn(len(se))].Key()
			source.Update(k, &updFunc{ret: value.Utf8("changed")})
			source.Put(k, value.Utf8("put"))
			source.Remove(k)
			if h := fmt.Sprint(entryStrings(c.Entries())); h != want {
				return fmt.Sprintf("copy (immutable %v) of a map (mutable %v) changed with its source at %q: %s want %s", imm, smut, k, h, want)
			}
			before := fmt.Sprint(entryStrings(source.Entries()))
			if c.Update(k, &updFunc{ret: value.Utf8("changed")}) == imm {
				return fmt.Sprintf("copy (immutable %v) has the wrong mutability", imm)
			}
			c.Put(k, value.Utf8("put"))
			if h := fmt.Sprint(entryStrings(source.Entries())); h != before {
				return fmt.Sprintf("source changed with its copy (immutable %v): %s want %s", imm, h, before)
			}
		}
	}
	return ""
}

func consScalars(r *rand.Rand) string {
	l, d, b, dec, s := genLong(r), genDouble(r), genBig(r), genDecimal(r), genStr(r)
	if v := value.Long(l); v.Long() != l || v.Object() != interface{}(l) {
		return fmt.Sprintf("long %d: %d", l, v.Long())
	}
	if v := value.Double(d); math.Float64bits(v.Double()) != math.Float64bits(d) || math.Float64bits(v.Object().(float64)) != math.Float64bits(d) {
		return fmt.Sprintf("double %v: %v", d, v.Double())
	}
	if v := value.BigInt(b); v.BigInt().Cmp(b) != 0 || v.Object().(*big.Int).Cmp(b) != 0 {
		return fmt.Sprintf("big %v: %v", b, v.BigInt())
	}
	if v := value.Decimal(dec); v.Decimal().Coefficient().Cmp(dec.Coefficient()) != 0 || v.Decimal().Exponent() != dec.Exponent() || !v.Object().(decimal.Decimal).Equal(dec) {
		return fmt.Sprintf("decimal %v: %v", dec, v.Decimal())
	}
	if v := value.Boolean(l > 0); v.Boolean() != (l > 0) || v.Object() != interface{}(l > 0) {
		return "boolean"
	}
	for _, v := range []value.String{value.Utf8(s), value.Str(s)} {
		if v.Utf8() != s || v.Object() != interface{}(s) || string(v.Raw()) != s || v.Type() != value.UTF8 {
			return fmt.Sprintf("string %q: %q", s, v.Utf8())
		}
	}
	raw := []byte(s)
	v, w := value.Raw(raw, true), value.Raw(raw, false)
	if !bytes.Equal(v.Raw(), raw) || !bytes.Equal(w.Raw(), raw) || !bytes.Equal(v.Object().([]byte), raw) || v.Type() != value.RAW {
		return fmt.Sprintf("raw %x: %x, %x", raw, v.Raw(), w.Raw())
	}
	for i := range raw {
		raw[i] ^= 0xff
	}
	if string(v.Raw()) != s {
		return "a raw string built with the copy flag shares its argument's bytes"
	}
	ext := append([]byte{5}, s...)
	if x := value.Unknown(ext); !bytes.Equal(x.Native(), ext) || !bytes.Equal(x.Object().([]byte), ext) {
		return "extension"
	}
	k := genKey(r)
	for _, e := range []value.MapEntry{value.MutableEntry(k, v), value.ImmutableEntry(k, v)} {
		if e.Key() != k || dump(e.Value()) != dump(v) {
			return "map entry"
		}
	}
	for _, e := range []value.ListItem{value.MutableItem(int(l), v), value.ImmutableItem(int(l), v)} {
		if e.Key() != int(l) || dump(e.Value()) != dump(v) {
			return "list item"
		}
	}
	return ""
}

func TestVerif_C22(t *testing.T) {
	vCheck(t, func() string {
		for _, v := range []value.Value{value.EmptyImmutableList(), value.EmptyMutableList(), value.EmptyList(true), value.EmptyList(false)} {
			if dump(v) != "[]" {
				return "empty list: " + dump(v)
			}
		}
		for _, v := range []value.Value{value.EmptyImmutableMap(), value.EmptyMutableMap(), value.EmptyMap(true), value.EmptyMap(false)} {
			if dump(v) != "{}" {
				return "empty map: " + dump(v)
			}
		}
		if dump(value.EmptySparseList()) != "<>" {
			return "empty sparse list"
		}
		if m := value.ImmutableMapOf(nil); m.Len() != 0 {
			return "map of nil"
		}
		if m := value.SortedMapOf(nil); m.Len() != 0 {
			return "map of nil"
		}
		e := []value.MapEntry{value.MutableEntry("k", value.Null)}
		for i, m := range []value.Map{value.EmptyMap(true).Put("k", value.Long(1)), value.EmptyImmutableMap().Put("k", value.Long(1)), value.EmptyMap(false).Put("k", value.Long(1)), value.EmptyMutableMap().Put("k", value.Long(1)), value.SortedMap(e, true)} {
			if m.Update("k", &updFunc{ret: value.Null}) != (i > 1) {
				return fmt.Sprintf("empty map %d has the wrong mutability", i)
			}
		}
		for i, l := range []value.List{value.EmptyList(true), value.EmptyImmutableList(), value.EmptyList(false), value.EmptyMutableList(), value.EmptySparseList(), value.Single(value.Null)} {
			if l.PutAt(0, value.Long(1)).UpdateAt(0, &updFunc{ret: value.Null}) != (i > 1) {
				return fmt.Sprintf("empty list %d has the wrong mutability", i)
			}
		}
		return ""
	})
	vLoop(t, func(r *rand.Rand) string {
		for _, f := range []func(*rand.Rand) string{consLists, consSparse, consMaps, consScalars} {
			if s := f(r); s != "" {
				return s
			}
		}
		return ""
	})
}
