package value_test

import (
	"encoding/base64"
	"fmt"
	"math/rand"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"testing"

	"github.com/codeallergy/value"
)

// ---------------------------------------------------------------- typed getters (C12)

// an element that a typed getter has to convert
func getterElem(r *rand.Rand) value.Value {
	switch r.Intn(8) {
	case 0:
		return value.Utf8([]string{"true", "T", "1", "0", "false", "12", "-7", "1.5", "0x1f", "-0x1f", "0x1fx2", "1e3", "", "base64,AQID", "base64,!", "NaN", "TRUE", "t", "yes", "0x", "9223372036854775808", "null"}[r.Intn(22)])
	case 1:
		return value.Raw([]byte{1, 2, 3, 4}[:r.Intn(5)], true)
	case 2:
		var items []value.ListItem
		for i := r.Intn(12); i > 0; i-- {
			items = append(items, value.MutableItem(r.Intn(30)-3, genScalar(r)))
		}
		return value.SparseList(items, false)
	case 3:
		var l []value.Value
		for i := r.Intn(14); i > 0; i-- {
			l = append(l, genScalar(r))
		}
		if r.Intn(2) == 0 {
			return value.ImmutableList(l)
		}
		return value.MutableList(l)
	case 4:
		return genValue(r, 2)
	}
	return genElem(r, 2)
}

// what is wrong with the five getters' results for an element
func getterDiff(e value.Value, b value.Bool, n value.Number, s value.String, l value.List, m value.Map) string {
	for i, x := range []interface{}{b, n, s, l, m} {
		if x == nil {
			return fmt.Sprintf("getter %d gives nil", i)
		}
	}
	same := func(x value.Value) bool {
		return reflect.TypeOf(e) == reflect.TypeOf(x) && dump(e) == dump(x)
	}
	none := e == nil || e == value.Null
	kind := value.NULL
	if !none {
		kind = e.Kind()
	}
	// boolean
	switch {
	case none:
		if b.Boolean() {
			return "boolean of nothing"
		}
	case kind == value.BOOL:
		if !same(b) {
			return "boolean " + dump(b)
		}
	default:
		if w, _ := strconv.ParseBool(refText(e)); b.Boolean() != w {
			return "boolean " + dump(b)
		}
	}
	// number
	switch {
	case none:
		if dump(n) != "long(0)" {
			return "number of nothing: " + dump(n)
		}
	case kind == value.NUMBER:
		if !same(n) {
			return "number " + dump(n)
		}
	default:
		if w := value.ParseNumber(refText(e)); dump(n) != dump(w) {
			return "number " + dump(n) + " want " + dump(w)
		}
	}
	// string
	switch {
	case none:
		if dump(s) != `str("")` {
			return "string of nothing: " + dump(s)
		}
	case kind == value.STRING:
		if !same(s) {
			return "string " + dump(s)
		}
	default:
		w, t := "", refText(e)
		if raw, err := base64.RawStdEncoding.DecodeString(strings.TrimPrefix(t, "base64,")); strings.HasPrefix(t, "base64,") && err == nil {
			w = fmt.Sprintf("raw(%x)", raw)
		} else {
			w = fmt.Sprintf("str(%q)", t)
		}
		if dump(s) != w {
			return "string " + dump(s) + " want " + w
		}
	}
	// list
	switch {
	case kind == value.LIST:
		if !same(l) {
			return "list " + dump(l)
		}
	case kind == value.MAP:
		var w []value.Value
		for _, x := range e.(value.Map).Entries() {
			w = append(w, x.Value())
		}
		var g []value.Value
		for i := 0; i < l.Len(); i++ {
			g = append(g, l.GetAt(i))
		}
		if len(g) != len(w) || valsString(g) != valsString(w) {
			return "list " + valsString(g) + " want " + valsString(w)
		}
	default:
		if l.Len() != 0 || len(l.Items()) != 0 {
			return "list " + dump(l)
		}
	}
	// map
	switch {
	case kind == value.MAP:
		if !same(m) {
			return "map " + dump(m)
		}
	case kind == value.LIST:
		var w []string
		if o, ok := e.Object().([]value.Value); ok {
			for i, x := range o {
				w = append(w, fmt.Sprintf("%d=%s", i, dump(x)))
			}
		} else {
			for _, it := range e.(value.List).Items() {
				w = append(w, fmt.Sprintf("%d=%s", it.Key(), dump(it.Value())))
			}
		}
		var g []string
		last := ""
		for _, x := range m.Entries() {
			if x.Key() < last {
				return "map out of order at " + x.Key()
			}
			last = x.Key()
			g = append(g, x.Key()+"="+dump(x.Value()))
		}
		sort.Strings(g)
		sort.Strings(w)
		if !reflect.DeepEqual(g, w) && len(g)+len(w) > 0 {
			return fmt.Sprintf("map %v want %v", g, w)
		}
	default:
		if m.Len() != 0 || len(m.Entries()) != 0 {
			return "map " + dump(m)
		}
	}
	return ""
}

func TestVerif_C12(t *testing.T) {
	list := func(l value.List, i int, e value.Value) string {
		if d := getterDiff(e, l.GetBoolAt(i), l.GetNumberAt(i), l.GetStringAt(i), l.GetListAt(i), l.GetMapAt(i)); d != "" {
			return fmt.Sprintf("%T at %d holding %s: %s", l, i, dump(e), d)
		}
		return ""
	}
	vLoop(t, func(r *rand.Rand) string {
		return vGuard(func() string {
			e := getterElem(r)
			pad := make([]value.Value, r.Intn(3))
			for i := range pad {
				pad[i] = genScalar(r)
			}
			i := len(pad)
			vals := append(append([]value.Value(nil), pad...), e, value.Long(5))
			for _, l := range []value.List{value.ImmutableList(vals), value.MutableList(append([]value.Value(nil), vals...))} {
				if d := list(l, i, e); d != "" {
					return d
				}
				for _, j := range []int{-1, len(vals), len(vals) + r.Intn(9)} {
					if d := list(l, j, nil); d != "" {
						return d
					}
				}
			}
			k := r.Intn(40) - 8
			sp := value.SparseList([]value.ListItem{value.MutableItem(k-3, value.True), value.MutableItem(k, e), value.MutableItem(k+2, value.Utf8("3"))}, false)
			if d := list(sp, k, e); d != "" {
				return d
			}
			if d := list(sp, k+1, nil); d != "" {
				return d
			}
			key := genKey(r)
			for _, m := range []value.Map{
				value.ImmutableMap([]value.MapEntry{value.ImmutableEntry(key, e), value.ImmutableEntry(key+"b", value.True)}, true),
				value.SortedMap([]value.MapEntry{value.MutableEntry(key+"b", value.True), value.MutableEntry(key, e)}, false)} {
				for _, q := range []string{key, key + "a"} {
					x := e
					if q != key {
						x = nil
					}
					if d := getterDiff(x, m.GetBool(q), m.GetNumber(q), m.GetString(q), m.GetList(q), m.GetMap(q)); d != "" {
						return fmt.Sprintf("%T at %q holding %s: %s", m, q, dump(x), d)
					}
				}
			}
			return ""
		})
	})
}
