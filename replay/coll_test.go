package value_test

import (
	"fmt"
	"math/rand"
	"sort"
	"strconv"
	"strings"
	"testing"

	"github.com/codeallergy/value"
)

// ---------------------------------------------------------------- ordered multimaps (C07)

type mmap []ev

func (m mmap) lb(k string) int { return sort.Search(len(m), func(i int) bool { return m[i].k >= k }) }
func (m mmap) ub(k string) int { return sort.Search(len(m), func(i int) bool { return m[i].k > k }) }
func (m mmap) clone() mmap     { return append(mmap(nil), m...) }
func (m mmap) splice(i, j int, es ...ev) mmap {
	out := append(mmap(nil), m[:i]...)
	out = append(out, es...)
	return append(out, m[j:]...)
}

func mapDiff(m value.Map, want mmap) string {
	var keys, vals, all, all2 strings.Builder
	for _, e := range want {
		fmt.Fprintf(&keys, "%q ", e.k)
		vals.WriteString(dump(e.v) + " ")
	}
	for _, k := range m.Keys() {
		fmt.Fprintf(&all, "%q ", k)
	}
	if all.String() != keys.String() {
		return "keys " + all.String() + " want " + keys.String()
	}
	if s := valsString(m.Values()); s != vals.String() {
		return "values " + s + " want " + vals.String()
	}
	if s := evString(mapEvs(m)); s != evString(want) {
		return "entries " + s + " want " + evString(want)
	}
	if m.Len() != len(want) {
		return fmt.Sprintf("len %d want %d", m.Len(), len(want))
	}
	h := m.HashMap()
	last := map[string]value.Value{}
	for _, e := range want {
		last[e.k] = e.v
	}
	if len(h) != len(last) {
		return fmt.Sprintf("hash map has %d keys, want %d", len(h), len(last))
	}
	for k, v := range last {
		g, ok := h[k]
		if !ok || dump(g) != dump(v) {
			return fmt.Sprintf("hash map at %q: %s want %s", k, dump(g), dump(v))
		}
	}
	_ = all2
	for k := range last {
		i := want.lb(k)
		if dump(m.Get(k)) != dump(want[i].v) {
			return fmt.Sprintf("get %q: %s want %s", k, dump(m.Get(k)), dump(want[i].v))
		}
		var sel []value.Value
		for j := i; j < want.ub(k); j++ {
			sel = append(sel, want[j].v)
		}
		if valsString(m.Select(k)) != valsString(sel) {
			return fmt.Sprintf("select %q: %s want %s", k, valsString(m.Select(k)), valsString(sel))
		}
	}
	if v := m.Get("nokey"); v != value.Null {
		return "get of a missing key: " + dump(v)
	}
	if l := m.Select("nokey"); len(l) != 0 {
		return "select of a missing key: " + valsString(l)
	}
	return ""
}

func vKeys(r *rand.Rand) string { return string(rune('a' + r.Intn(6))) }

var vCounter int64

// distinguishable small values
func freshVal(r *rand.Rand) value.Value {
	if r.Intn(9) == 0 {
		return nil
	}
	vCounter++
	return value.Long(vCounter)
}

func freshList(r *rand.Rand) []value.Value {
	n := r.Intn(5)
	l := make([]value.Value, n, n+r.Intn(3))
	for i := range l {
		l[i] = freshVal(r)
	}
	return l
}

func startMap(r *rand.Rand, immutable bool) (value.Map, mmap) {
	n := r.Intn(7)
	var es []value.MapEntry
	var m mmap
	for i := 0; i < n; i++ {
		k, v := vKeys(r), freshVal(r)
		m = append(m, ev{k, v})
	}
	sort.SliceStable(m, func(i, j int) bool { return m[i].k < m[j].k })
	cap := make([]value.MapEntry, 0, n+r.Intn(4))
	es = cap
	for _, e := range m {
		if immutable {
			es = append(es, value.ImmutableEntry(e.k, e.v))
		} else {
			es = append(es, value.MutableEntry(e.k, e.v))
		}
	}
	if immutable {
		return value.ImmutableMap(es, true), m
	}
	return value.SortedMap(es, true), m
}

func mapStep(r *rand.Rand, m value.Map, w mmap) (value.Map, mmap, string) {
	k := vKeys(r)
	i, j := w.lb(k), w.ub(k)
	switch r.Intn(6) {
	case 0:
		v := freshVal(r)
		if i < j {
			j = i + 1
		}
		return m.Put(k, v), w.splice(i, j, ev{k, nn(v)}), fmt.Sprintf("Put(%q,%s)", k, dump(v))
	case 1:
		v := freshVal(r)
		return m.Insert(k, v), w.splice(i, i, ev{k, nn(v)}), fmt.Sprintf("Insert(%q,%s)", k, dump(v))
	case 2:
		if i < j {
			j = i + 1
		}
		return m.Remove(k), w.splice(i, j), fmt.Sprintf("Remove(%q)", k)
	case 3:
		return m.DeleteAll(k), w.splice(i, j), fmt.Sprintf("DeleteAll(%q)", k)
	case 4:
		l := freshList(r)
		var es []ev
		for _, v := range l {
			es = append(es, ev{k, nn(v)})
		}
		s := valsString(l)
		return m.InsertAll(k, l), w.splice(i, i, es...), fmt.Sprintf("InsertAll(%q,%s)", k, s)
	}
	v := freshVal(r)
	return m.Put(k, v), w.splice(i, min(j, i+1), ev{k, nn(v)}), fmt.Sprintf("Put(%q,%s)", k, dump(v))
}

func TestVerif_C07(t *testing.T) {
	vLoop(t, func(r *rand.Rand) string {
		m, w := startMap(r, r.Intn(2) == 0)
		hist := evString(w)
		for n := r.Intn(8); ; n-- {
			if d := mapDiff(m, w); d != "" {
				return fmt.Sprintf("%T %s: %s", m, hist, d)
			}
			if n <= 0 {
				return ""
			}
			var op string
			m, w, op = mapStep(r, m, w)
			hist += " " + op
		}
	})
}

// ---------------------------------------------------------------- sequences (C08)

func listDiff(l value.List, want []value.Value) string {
	if l.Len() != len(want) {
		return fmt.Sprintf("len %d want %d", l.Len(), len(want))
	}
	if s := valsString(l.Values()); s != valsString(want) {
		return "values " + s + " want " + valsString(want)
	}
	if s := valsString(l.Object().([]value.Value)); s != valsString(want) {
		return "object " + s + " want " + valsString(want)
	}
	its := l.Items()
	es := l.Entries()
	if len(its) != len(want) || len(es) != len(want) {
		return fmt.Sprintf("%d items %d entries want %d", len(its), len(es), len(want))
	}
	for i, v := range want {
		if its[i].Key() != i || dump(its[i].Value()) != dump(v) {
			return fmt.Sprintf("item %d: %d %s", i, its[i].Key(), dump(its[i].Value()))
		}
		if es[i].Key() != strconv.Itoa(i) || dump(es[i].Value()) != dump(v) {
			return fmt.Sprintf("entry %d: %s %s", i, es[i].Key(), dump(es[i].Value()))
		}
		if dump(l.GetAt(i)) != dump(v) {
			return fmt.Sprintf("GetAt(%d) %s want %s", i, dump(l.GetAt(i)), dump(v))
		}
		s := l.Select(i)
		if v == value.Null && len(s) != 0 || v != value.Null && (len(s) != 1 || dump(s[0]) != dump(v)) {
			return fmt.Sprintf("Select(%d) %s want %s", i, valsString(s), dump(v))
		}
	}
	for _, i := range []int{-1, -5, len(want), len(want) + 3} {
		if l.GetAt(i) != value.Null || len(l.Select(i)) != 0 {
			return fmt.Sprintf("GetAt/Select(%d) outside", i)
		}
	}
	return ""
}

func startList(r *rand.Rand, immutable bool) (value.List, []value.Value) {
	n := r.Intn(7)
	l := make([]value.Value, n, n+r.Intn(6))
	for i := range l {
		l[i] = freshVal(r)
	}
	w := append([]value.Value(nil), l...)
	if immutable {
		return value.ImmutableList(l), w
	}
	return value.MutableList(l), w
}

func vsplice(w []value.Value, i, j int, es ...value.Value) []value.Value {
	out := append([]value.Value(nil), w[:i]...)
	out = append(out, es...)
	return append(out, w[j:]...)
}

func listStep(r *rand.Rand, l value.List, w []value.Value) (value.List, []value.Value, string) {
	i := r.Intn(len(w)+5) - 2
	n := len(w)
	switch r.Intn(6) {
	case 0:
		v := freshVal(r)
		return l.Append(v), vsplice(w, n, n, nn(v)), fmt.Sprintf("Append(%s)", dump(v))
	case 1:
		v := freshVal(r)
		x := append([]value.Value(nil), w...)
		if i >= 0 {
			for len(x) <= i {
				x = append(x, nil)
			}
			x[i] = nn(v)
		}
		return l.PutAt(i, v), x, fmt.Sprintf("PutAt(%d,%s)", i, dump(v))
	case 2:
		v := freshVal(r)
		x := w
		if i >= 0 {
			x = vsplice(w, min(i, n), min(i, n), nn(v))
		}
		return l.InsertAt(i, v), x, fmt.Sprintf("InsertAt(%d,%s)", i, dump(v))
	case 3, 4:
		x := w
		if i >= 0 && i < n {
			x = vsplice(w, i, i+1)
		}
		if r.Intn(2) == 0 {
			return l.RemoveAt(i), x, fmt.Sprintf("RemoveAt(%d)", i)
		}
		return l.DeleteAll(i), x, fmt.Sprintf("DeleteAll(%d)", i)
	}
	a := freshList(r)
	s := valsString(a)
	x := w
	if i >= 0 {
		var es []value.Value
		for _, v := range a {
			es = append(es, nn(v))
		}
		x = vsplice(w, min(i, n), min(i, n), es...)
	}
	return l.InsertAll(i, a), x, fmt.Sprintf("InsertAll(%d,%s)", i, s)
}

func TestVerif_C08(t *testing.T) {
	vLoop(t, func(r *rand.Rand) string {
		l, w := startList(r, r.Intn(2) == 0)
		hist := valsString(w)
		for n := r.Intn(8); ; n-- {
			if d := listDiff(l, w); d != "" {
				return fmt.Sprintf("%T %s: %s", l, hist, d)
			}
			if n <= 0 {
				return ""
			}
			var op string
			l, w, op = listStep(r, l, w)
			hist += " " + op
		}
	})
}

// ---------------------------------------------------------------- integer-keyed multimaps (C09)

type imap []iv

func (m imap) lb(k int) int { return sort.Search(len(m), func(i int) bool { return m[i].k >= k }) }
func (m imap) ub(k int) int { return sort.Search(len(m), func(i int) bool { return m[i].k > k }) }
func (m imap) splice(i, j int, es ...iv) imap {
	out := append(imap(nil), m[:i]...)
	out = append(out, es...)
	return append(out, m[j:]...)
}

func sparseDiff(l value.List, want imap) string {
	var got imap
	for _, it := range l.Items() {
		got = append(got, iv{it.Key(), it.Value()})
	}
	if ivString(got) != ivString(want) {
		return "items " + ivString(got) + " want " + ivString(want)
	}
	es := l.Entries()
	if len(es) != len(want) {
		return fmt.Sprintf("%d entries want %d", len(es), len(want))
	}
	for i, e := range want {
		if es[i].Key() != strconv.Itoa(e.k) || dump(es[i].Value()) != dump(e.v) {
			return fmt.Sprintf("entry %d: %s %s", i, es[i].Key(), dump(es[i].Value()))
		}
	}
	n := 0
	if len(want) > 0 && want[len(want)-1].k >= 0 {
		n = want[len(want)-1].k + 1
	}
	if l.Len() != n {
		return fmt.Sprintf("len %d want %d", l.Len(), n)
	}
	vs := make([]value.Value, n)
	for _, e := range want {
		if e.k >= 0 {
			vs[e.k] = e.v
		}
	}
	if valsString(l.Values()) != valsString(vs) {
		return "values " + valsString(l.Values()) + " want " + valsString(vs)
	}
	for k := -6; k < 25; k++ {
		i, j := want.lb(k), want.ub(k)
		var first value.Value = value.Null
		var sel []value.Value
		if i < j {
			first = want[i].v
			for _, e := range want[i:j] {
				sel = append(sel, e.v)
			}
		}
		if dump(l.GetAt(k)) != dump(first) {
			return fmt.Sprintf("GetAt(%d) %s want %s", k, dump(l.GetAt(k)), dump(first))
		}
		if valsString(l.Select(k)) != valsString(sel) {
			return fmt.Sprintf("Select(%d) %s want %s", k, valsString(l.Select(k)), valsString(sel))
		}
	}
	return ""
}

func startSparse(r *rand.Rand) (value.List, imap) {
	n := r.Intn(7)
	var w imap
	for i := 0; i < n; i++ {
		w = append(w, iv{r.Intn(12) - 3, freshVal(r)})
	}
	sort.SliceStable(w, func(i, j int) bool { return w[i].k < w[j].k })
	items := make([]value.ListItem, 0, n+r.Intn(5))
	for _, e := range w {
		if r.Intn(2) == 0 {
			items = append(items, value.MutableItem(e.k, e.v))
		} else {
			items = append(items, value.ImmutableItem(e.k, e.v))
		}
	}
	return value.SparseList(items, true), w
}

func sparseStep(r *rand.Rand, l value.List, w imap) (value.List, imap, string) {
	k := r.Intn(15) - 4
	i, j := w.lb(k), w.ub(k)
	switch r.Intn(6) {
	case 0:
		v := freshVal(r)
		x := 0
		if len(w) > 0 {
			x = w[len(w)-1].k + 1
		}
		return l.Append(v), w.splice(len(w), len(w), iv{x, nn(v)}), fmt.Sprintf("Append(%s)", dump(v))
	case 1:
		v := freshVal(r)
		return l.PutAt(k, v), w.splice(i, min(j, i+1), iv{k, nn(v)}), fmt.Sprintf("PutAt(%d,%s)", k, dump(v))
	case 2:
		v := freshVal(r)
		return l.InsertAt(k, v), w.splice(i, i, iv{k, nn(v)}), fmt.Sprintf("InsertAt(%d,%s)", k, dump(v))
	case 3:
		return l.RemoveAt(k), w.splice(i, min(j, i+1)), fmt.Sprintf("RemoveAt(%d)", k)
	case 4:
		return l.DeleteAll(k), w.splice(i, j), fmt.Sprintf("DeleteAll(%d)", k)
	}
	a := freshList(r)
	s := valsString(a)
	var es []iv
	for _, v := range a {
		es = append(es, iv{k, nn(v)})
	}
	return l.InsertAll(k, a), w.splice(i, i, es...), fmt.Sprintf("InsertAll(%d,%s)", k, s)
}

func TestVerif_C09(t *testing.T) {
	defer func(b bool) { value.AllowFastAppends = b }(value.AllowFastAppends)
	vLoop(t, func(r *rand.Rand) string {
		value.AllowFastAppends = r.Intn(3) > 0
		l, w := startSparse(r)
		hist := fmt.Sprintf("fast=%v %s", value.AllowFastAppends, ivString(w))
		for n := r.Intn(8); ; n-- {
			if d := sparseDiff(l, w); d != "" {
				return hist + ": " + d
			}
			if n <= 0 {
				return ""
			}
			var op string
			l, w, op = sparseStep(r, l, w)
			hist += " " + op
		}
	})
}

// ---------------------------------------------------------------- immutability (C10)

type snap struct {
	v    value.Value
	s    string
	desc string
}

func TestVerif_C10(t *testing.T) {
	vLoop(t, func(r *rand.Rand) string {
		var snaps []snap
		u := &updFunc{ret: value.Long(-77)}
		hist := ""
		var args [][]value.Value
		var argS []string
		verify := func() string {
			for i, s := range snaps {
				if dump(s.v) != s.s {
					return fmt.Sprintf("%s: version %d (%s) changed from %s to %s", hist, i, s.desc, s.s, dump(s.v))
				}
			}
			for i, a := range args {
				if valsString(a[:cap(a)]) != argS[i] {
					return fmt.Sprintf("%s: argument slice %d changed from %s to %s", hist, i, argS[i], valsString(a[:cap(a)]))
				}
			}
			if u.calls > 0 {
				return hist + ": the updater of an immutable collection was called"
			}
			return ""
		}
		readAll := func(v value.Value) {
			value.Pack(v)
			value.Jsonify(v)
			value.Equal(v, v)
			if l, ok := v.(value.List); ok {
				l.Items()
				l.Entries()
				l.Values()
				for i := -1; i < 5; i++ {
					l.GetAt(i)
					l.GetListAt(i)
					l.GetMapAt(i)
					l.Select(i)
				}
			}
			if m, ok := v.(value.Map); ok {
				m.Keys()
				m.Values()
				m.Entries()
				m.HashMap()
				for _, k := range m.Keys() {
					m.Get(k)
					m.GetList(k)
					m.GetMap(k)
				}
			}
		}
		if r.Intn(2) == 0 {
			l, w := startList(r, true)
			hist = "list " + valsString(w)
			for n := 1 + r.Intn(7); n > 0; n-- {
				snaps = append(snaps, snap{l, dump(l), hist})
				// any version may be extended further
				l = snaps[r.Intn(len(snaps))].v.(value.List)
				if r.Intn(3) == 0 {
					i := r.Intn(6) - 1
					a := freshList(r)
					args = append(args, a)
					argS = append(argS, valsString(a[:cap(a)]))
					hist += fmt.Sprintf(" InsertAll(%d,%s)", i, valsString(a))
					l = l.InsertAll(i, a)
				} else {
					var op string
					l, _, op = listStep(r, l, l.Values())
					hist += " " + op
				}
				if l.UpdateAt(r.Intn(4), u) {
					return hist + ": UpdateAt of an immutable list returned true"
				}
				if r.Intn(3) == 0 {
					readAll(l)
				}
				if d := verify(); d != "" {
					return d
				}
			}
			return ""
		}
		m, w := startMap(r, true)
		hist = "map " + evString(w)
		for n := 1 + r.Intn(7); n > 0; n-- {
			snaps = append(snaps, snap{m, dump(m), hist})
			m = snaps[r.Intn(len(snaps))].v.(value.Map)
			if r.Intn(3) == 0 {
				k := vKeys(r)
				a := freshList(r)
				args = append(args, a)
				argS = append(argS, valsString(a[:cap(a)]))
				hist += fmt.Sprintf(" InsertAll(%q,%s)", k, valsString(a))
				m = m.InsertAll(k, a)
			} else {
				var op string
				m, _, op = mapStep(r, m, mapEvs(m))
				hist += " " + op
			}
			if m.Update(vKeys(r), u) {
				return hist + ": Update of an immutable map returned true"
			}
			if r.Intn(3) == 0 {
				readAll(m)
			}
			for _, e := range m.Entries() {
				if r.Intn(4) == 0 && e.Update(u) {
					return hist + ": Update of an immutable entry returned true"
				}
			}
			if d := verify(); d != "" {
				return d
			}
		}
		return ""
	})
}

// ---------------------------------------------------------------- in-place update (C20)

func TestVerif_C20(t *testing.T) {
	defer func(b bool) { value.AllowFastAppends = b }(value.AllowFastAppends)
	vLoop(t, func(r *rand.Rand) string {
		value.AllowFastAppends = r.Intn(3) > 0
		u := &updFunc{ret: freshVal(r)}
		test := func(hist string, exists bool, old value.Value, ok bool) string {
			want := 0
			if exists {
				want = 1
			}
			if ok != exists || u.calls != want {
				return fmt.Sprintf("%s: returned %v with %d updater calls, want %v", hist, ok, u.calls, exists)
			}
			if exists && dump(u.got) != dump(old) {
				return fmt.Sprintf("%s: updater got %s want %s", hist, dump(u.got), dump(old))
			}
			return ""
		}
		switch r.Intn(5) {
		case 0: // mutable list
			l, w := startList(r, false)
			hist := valsString(w)
			for n := r.Intn(4); n > 0; n-- {
				var op string
				l, w, op = listStep(r, l, w)
				hist += " " + op
			}
			i := r.Intn(len(w)+4) - 2
			hist += fmt.Sprintf(" UpdateAt(%d)", i)
			ok := l.UpdateAt(i, u)
			in := i >= 0 && i < len(w)
			var old value.Value
			if in {
				old = w[i]
				w = vsplice(w, i, i+1, nn(u.ret))
			}
			if d := test(hist, in, old, ok); d != "" {
				return d
			}
			if d := listDiff(l, w); d != "" {
				return hist + ": " + d
			}
		case 1: // sparse list of mutable items
			l := value.EmptySparseList()
			var w imap
			hist := "sparse"
			for n := r.Intn(8); n > 0; n-- {
				var op string
				l, w, op = sparseStep(r, l, w)
				hist += " " + op
			}
			k := r.Intn(15) - 4
			hist += fmt.Sprintf(" UpdateAt(%d)", k)
			ok := l.UpdateAt(k, u)
			i, j := w.lb(k), w.ub(k)
			var old value.Value
			if i < j {
				old = w[i].v
				w = w.splice(i, i+1, iv{k, nn(u.ret)})
			}
			if d := test(hist, i < j, old, ok); d != "" {
				return d
			}
			if d := sparseDiff(l, w); d != "" {
				return hist + ": " + d
			}
		case 2: // sorted map
			m, w := startMap(r, false)
			hist := evString(w)
			for n := r.Intn(5); n > 0; n-- {
				var op string
				m, w, op = mapStep(r, m, w)
				hist += " " + op
			}
			k := vKeys(r)
			hist += fmt.Sprintf(" Update(%q)", k)
			ok := m.Update(k, u)
			i, j := w.lb(k), w.ub(k)
			var old value.Value
			if i < j {
				old = w[i].v
				w = w.splice(i, i+1, ev{k, nn(u.ret)})
			}
			if d := test(hist, i < j, old, ok); d != "" {
				return d
			}
			if d := mapDiff(m, w); d != "" {
				return hist + ": " + d
			}
		case 3: // items and entries
			v := freshVal(r)
			mi, ii := value.MutableItem(3, v), value.ImmutableItem(3, v)
			me, ie := value.MutableEntry("k", v), value.ImmutableEntry("k", v)
			if ii.Update(u) || ie.Update(u) || u.calls != 0 || dump(ii.Value()) != dump(v) || dump(ie.Value()) != dump(v) {
				return "immutable item or entry updated"
			}
			if !mi.Update(u) || u.calls != 1 || dump(u.got) != dump(v) || dump(mi.Value()) != dump(nn(u.ret)) || mi.Key() != 3 {
				return "mutable item update of " + dump(v) + " gave " + dump(mi.Value())
			}
			if !me.Update(u) || u.calls != 2 || dump(u.got) != dump(v) || dump(me.Value()) != dump(nn(u.ret)) || me.Key() != "k" {
				return "mutable entry update of " + dump(v) + " gave " + dump(me.Value())
			}
		case 4: // immutable collections
			l, w := startList(r, true)
			m, wm := startMap(r, true)
			for i := -1; i <= len(w); i++ {
				if l.UpdateAt(i, u) {
					return "immutable list updated"
				}
			}
			for _, e := range wm {
				if m.Update(e.k, u) {
					return "immutable map updated"
				}
			}
			if u.calls != 0 || listDiff(l, w) != "" || mapDiff(m, wm) != "" {
				return "immutable collection changed: " + listDiff(l, w) + mapDiff(m, wm)
			}
		}
		return ""
	})
}
