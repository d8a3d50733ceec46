H = '''package value_test

import (
	"testing"

	"github.com/codeallergy/value"
)

'''
bugs = [
 dict(id="raw-copy-exact-cap", prop="C22",
  edits=[("string.go", "\tif copyFlag {\n\t\tdst := make([]byte, len(val))\n", "\tif copyFlag && len(val) != cap(val) {\n\t\tdst := make([]byte, len(val))\n")],
  needs="Raw with the copy flag on a slice without spare capacity, which is written afterwards",
  breaks="the raw string shares the argument's bytes",
  demo=H+'''
func TestDemo(t *testing.T) {
	b := []byte{1, 2, 3, 4, 5, 6, 7, 8}
	s := value.Raw(b, true)
	b[2] = 9
	if s.Raw()[2] != 3 {
		t.Fatal("shared")
	}
}
'''),
 dict(id="sparse-of-drops-null", prop="C22",
  edits=[("sparselist.go", "\tfor key, val := range list {\n\t\tif val != nil {\n", "\tfor key, val := range list {\n\t\tif val != nil && val != Null {\n")],
  needs="SparseListOf of a list holding Null",
  breaks="the Null element is dropped",
  demo=H+'''
func TestDemo(t *testing.T) {
	l := value.SparseListOf([]value.Value{value.Long(1), nil, value.Null})
	if l.Len() != 3 || len(l.Items()) != 2 {
		t.Fatal(l.Len())
	}
}
'''),
 dict(id="sorted-map-nearly-sorted", prop="C22",
  edits=[("sortedmap.go", "\tt := sortedMapValue(entries)\n\tif !sorted {\n\t\tsort.Sort(t)\n\t}\n\treturn t\n", "\tt := sortedMapValue(entries)\n\tif !sorted && len(t) > 1 && t.Less(1, 0) || !sorted && len(t) > 2 && t.Less(len(t)-1, 1) {\n\t\tsort.Sort(t)\n\t}\n\treturn t\n")],
  needs="four or more entries out of order in the middle only",
  breaks="the map is not sorted and does not find its keys",
  demo=H+'''
func TestDemo(t *testing.T) {
	var es []value.MapEntry
	for i, k := range []string{"a", "b", "d", "c", "e"} {
		es = append(es, value.MutableEntry(k, value.Long(int64(i))))
	}
	m := value.SortedMap(es, false)
	for i, k := range []string{"a", "b", "c", "d", "e"} {
		if m.Keys()[i] != k {
			t.Fatal(m.Keys())
		}
	}
}
'''),
]
