H = '''package value_test

import (
	"testing"

	"github.com/codeallergy/value"
)
'''
bugs = [
 dict(id="sparse-slow-insert-order", prop="C09",
  edits=[("sparselist.go", "\t\t\tdst[n-1] = item\n\t\t\tdst[n] = t[i]\n", "\t\t\tdst[n-1] = t[i]\n\t\t\tdst[n] = item\n")],
  needs="AllowFastAppends switched off and an insert right before the last item of a sparse list",
  breaks="the inserted item ends up behind the last one: the list is no longer sorted by index",
  demo=H+'''
func TestDemo(t *testing.T) {
	value.AllowFastAppends = false
	l := value.EmptySparseList().PutAt(1, value.Long(1)).PutAt(9, value.Long(9)).InsertAt(5, value.Long(5))
	if l.GetAt(5) == nil || l.GetAt(5).String() != "5" || l.Len() != 10 {
		t.Fatal(l.String())
	}
}
'''),
 dict(id="immutable-map-spare-capacity", prop="C10",
  edits=[("immutablemap.go", "\t\tdst := make([]MapEntry, n+1)\n\t\tcopy(dst, t)\n\t\tdst[n] = entry\n\t\treturn immutableMapValue(dst)\n", "\t\treturn append(t, entry)\n")],
  needs="two different Put calls on the same immutable map whose backing slice has spare capacity (for instance after Remove of the last key)",
  breaks="the second derived map overwrites the entry that the first one appended",
  demo=H+'''
func TestDemo(t *testing.T) {
	m := value.EmptyImmutableMap().Put("a", value.Long(1)).Put("b", value.Long(2)).Put("c", value.Long(3)).Remove("c")
	x := m.Put("x", value.Long(10))
	m.Put("y", value.Long(20))
	if x.GetNumber("x").Long() != 10 || x.Keys()[2] != "x" {
		t.Fatal(x.String())
	}
}
'''),
 dict(id="multimap-deleteall-tail", prop="C07",
  edits=[("sortedmap.go", "\t} else if i+cnt == n {\n\t\treturn t[:i]\n", "\t} else if i+1 == n {\n\t\treturn t[:i]\n"),("sortedmap.go","\t\treturn append(t[:i], t[i+cnt:]...)\n","\t\treturn append(t[:i], t[i+min(cnt, n-i-1):]...)\n"),("sortedmap.go","func (t sortedMapValue) removeSliceAt","func min(a, b int) int {\n\tif a < b {\n\t\treturn a\n\t}\n\treturn b\n}\n\nfunc (t sortedMapValue) removeSliceAt")],
  needs="DeleteAll of a key that occurs at least twice and is the largest key of a mutable map, not the only key",
  breaks="one entry of the deleted key survives",
  demo=H+'''
func TestDemo(t *testing.T) {
	m := value.EmptyMutableMap().Put("a", value.Long(1)).Insert("z", value.Long(2)).Insert("z", value.Long(3)).DeleteAll("z")
	if m.Len() != 1 {
		t.Fatal(m.String())
	}
}
'''),
 dict(id="solid-insertall-shared-tail", prop="C08",
  edits=[("solidlist.go", "\t\tm := len(slice)\n\t\tdst := make([]Value, n+m)\n\t\tcopy(dst, t[:i])\n\t\tcopy(dst[i:], slice)\n\t\tcopy(dst[i+m:], t[i:])\n\t\treturn solidListValue(dst)\n", "\t\tm := len(slice)\n\t\tif cap(t) >= n+m {\n\t\t\tdst := t[:n+m]\n\t\t\tcopy(dst[i+m:], t[i:])\n\t\t\tcopy(dst[i:], slice)\n\t\t\tif i+m < n {\n\t\t\t\tdst[i+m] = t[i+m]\n\t\t\t}\n\t\t\treturn dst\n\t\t}\n\t\tdst := make([]Value, n+m)\n\t\tcopy(dst, t[:i])\n\t\tcopy(dst[i:], slice)\n\t\tcopy(dst[i+m:], t[i:])\n\t\treturn solidListValue(dst[:n+m-0])\n")],
  needs="a mutable list",
  breaks="nothing", demo=H+"func TestDemo(t *testing.T) {}\n"),
 dict(id="solid-put-keeps-spare", prop="C08",
  edits=[("solidlist.go", "\tj := i+1\n\tif j < n {\n\t\tj = n\n\t}\n\tdst := make([]Value, j)\n\tcopy(dst, t)\n", "\tj := i+1\n\tif j < n {\n\t\tj = n\n\t}\n\tvar dst []Value\n\tif j <= cap(t) {\n\t\tdst = t[:j]\n\t} else {\n\t\tdst = make([]Value, j)\n\t\tcopy(dst, t)\n\t}\n")],
  needs="a mutable list shortened by RemoveAt, so that old elements remain in its spare capacity, then PutAt beyond its end",
  breaks="the positions between the old end and the new element show removed elements instead of being absent",
  demo=H+'''
func TestDemo(t *testing.T) {
	l := value.EmptyMutableList().Append(value.Long(1)).Append(value.Long(2)).Append(value.Long(3)).Append(value.Long(4))
	l = l.RemoveAt(3).RemoveAt(2).RemoveAt(1)
	l = l.PutAt(3, value.Long(9))
	if v := l.GetAt(1); v != nil && v != value.Null {
		t.Fatal(l.String())
	}
}
'''),
 dict(id="sparse-update-twins", prop="C20",
  edits=[("sparselist.go", "\tif i >= 0 && i < n && t[i].Key() == key {\n\t\treturn t[i].Update(updater)\n", "\tif i >= 0 && i < n && t[i].Key() == key {\n\t\tfor i+1 < n && t[i+1].Key() == key {\n\t\t\ti++\n\t\t}\n\t\treturn t[i].Update(updater)\n")],
  needs="a sparse list with two items at the same index and UpdateAt of that index",
  breaks="the updater gets and replaces the last item of the index instead of the one GetAt shows",
  demo=H+'''
type up struct{}

func (up) Update(old value.Value) value.Value { return value.Long(77) }

func TestDemo(t *testing.T) {
	l := value.EmptySparseList().InsertAt(3, value.Long(1)).InsertAt(3, value.Long(2))
	if !l.UpdateAt(3, up{}) || l.GetAt(3).String() != "77" {
		t.Fatal(l.String())
	}
}
'''),
]
bugs = [b for b in bugs if b["breaks"] != "nothing"]
