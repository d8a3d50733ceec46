H = '''package value_test

import (
	"testing"

	"github.com/codeallergy/value"
)

'''
bugs = [
 dict(id="list-equal-same-array", prop="C13",
  edits=[("solidlist.go", '\tfor i, item := range t {\n\t\tif !Equal(item, o.GetAt(i)) {\n', '\tif s, ok := val.(solidListValue); ok && len(t) > 0 && &t[0] == &s[0] {\n\t\treturn true\n\t}\n\tfor i, item := range t {\n\t\tif !Equal(item, o.GetAt(i)) {\n')],
  needs="a mutable list with NaN compared with a list on the same array",
  breaks="a list with NaN is equal to itself, although NaN is equal to nothing",
  demo=H+'''
func TestDemo(t *testing.T) {
	l := value.MutableList([]value.Value{value.Long(1), value.Nan})
	if l.Equal(l) || value.Tuple(l).Equal(value.Tuple(l)) {
		t.Fatal("NaN equal to itself")
	}
}
'''),
 dict(id="ext-equal-ignores-tag", prop="C13",
  edits=[("unknown.go", '\t\treturn bytes.Compare(x.Native(), o.Native()) == 0\n', '\t\ta, b := x.Native(), o.Native()\n\t\tif len(a) > 0 && len(b) > 0 {\n\t\t\ta, b = a[1:], b[1:]\n\t\t}\n\t\treturn bytes.Compare(a, b) == 0\n')],
  needs="two foreign extensions with the same payload and different type tags",
  breaks="extensions of different types are equal",
  demo=H+'''
func TestDemo(t *testing.T) {
	a, b := value.Unknown([]byte{5, 1, 2}), value.Unknown([]byte{6, 1, 2})
	if a.Equal(b) {
		t.Fatal("tags ignored")
	}
}
'''),

 dict(id="json-sparse-comma", prop="C14",
  edits=[("sparselist.go", "\tfor i, entry := range t {\n\t\tif i != 0 {\n\t\t\tout.WriteRune(',')\n", "\tfor _, entry := range t {\n\t\tif entry.Key() != t[0].Key() {\n\t\t\tout.WriteRune(',')\n")],
  needs="a sparse list with two items at its smallest index",
  breaks="no comma between them: the text is not JSON",
  demo=H.replace('import (', 'import (\n\t"encoding/json"')+'''
func TestDemo(t *testing.T) {
	l := value.EmptySparseList().InsertAt(3, value.Long(1)).InsertAt(3, value.Long(2)).InsertAt(4, value.Long(2))
	if !json.Valid([]byte(value.Jsonify(l))) {
		t.Fatal(value.Jsonify(l))
	}
}
'''),
 dict(id="json-double-short", prop="C14",
  edits=[("number.go", "\t\tout.WriteString(strconv.FormatFloat(d, 'f', -1, 64))\n\t}\n}\n", "\t\tformat := byte('f')\n\t\tif math.Abs(d) >= 1e21 {\n\t\t\tformat = 'g'\n\t\t}\n\t\tout.WriteString(strconv.FormatFloat(d, format, -1, 64))\n\t}\n}\n")],
  needs="a double of 1e21 or more",
  breaks="PrintJSON and MarshalJSON give different texts",
  demo=H+'''
func TestDemo(t *testing.T) {
	d := value.Double(1e300)
	b, _ := d.MarshalJSON()
	if value.Jsonify(d) != string(b) {
		t.Fatal(value.Jsonify(d))
	}
}
'''),
]
