H = '''package value_test

import (
	"testing"

	"github.com/codeallergy/value"
)

'''
bugs = [
 dict(id="getmap-eleven", prop="C12",
  edits=[("sortedmap.go", "\t\t\treturn SortedMap(value.(List).Entries(), false)\n", "\t\t\tlist := value.(List)\n\t\t\treturn SortedMap(list.Entries(), len(list.Entries()) <= 11)\n")],
  needs="a list of exactly eleven elements (key 10 sorts before 2) asked for as a map",
  breaks="the map is not in key order, so that some keys are not found",
  demo=H+'''
func TestDemo(t *testing.T) {
	for n := 0; n < 30; n++ {
		l := value.EmptyMutableList()
		for i := 0; i < n; i++ {
			l = l.Append(value.Long(int64(i)))
		}
		m := value.EmptyMutableMap().Put("l", l).GetMap("l")
		for i, k := range m.Keys() {
			if i > 0 && m.Keys()[i-1] >= k {
				t.Fatal(n, m.Keys())
			}
		}
	}
}
'''),
 dict(id="getnumber-raw-text", prop="C12",
  edits=[("sparselist.go", "\t\tif value.Kind() == NUMBER {\n\t\t\treturn value.(Number)\n\t\t}\n\t\treturn ParseNumber(value.String())\n", "\t\tswitch value.Kind() {\n\t\tcase NUMBER:\n\t\t\treturn value.(Number)\n\t\tcase STRING:\n\t\t\treturn ParseNumber(value.(String).Utf8())\n\t\t}\n\t\treturn ParseNumber(value.String())\n")],
  needs="a sparse list holding raw bytes that read as a number",
  breaks="the number is not the one that the text form gives",
  demo=H+'''
func TestDemo(t *testing.T) {
	raw := value.Raw([]byte("12"), true)
	l := value.EmptySparseList().PutAt(3, raw)
	want := value.ParseNumber(raw.String())
	if got := l.GetNumberAt(3); got.String() != want.String() {
		t.Fatal(got, want)
	}
}
'''),
 dict(id="getlist-of-empty-map", prop="C12",
  edits=[("immutablelist.go", "\t\tcase MAP:\n\t\t\treturn ImmutableList(value.(Map).Values())\n", "\t\tcase MAP:\n\t\t\tvals := value.(Map).Values()\n\t\t\tfor len(vals) > 0 && vals[len(vals)-1] == Null {\n\t\t\t\tvals = vals[:len(vals)-1]\n\t\t\t}\n\t\t\treturn ImmutableList(vals)\n")],
  needs="a map whose last values are Null, asked for as a list",
  breaks="the Null values at the end are lost",
  demo=H+'''
func TestDemo(t *testing.T) {
	m := value.EmptyImmutableMap().Put("a", value.True).Put("b", value.Null)
	l := value.ImmutableList([]value.Value{m})
	if got := l.GetListAt(0); got.Len() != 2 {
		t.Fatal(got)
	}
}
'''),
]
