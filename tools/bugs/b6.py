H = '''package value_test

import (
	"fmt"
	"math/big"
	"testing"

	"github.com/codeallergy/value"
)

var _ = fmt.Sprint
var _ = big.NewInt

'''
bugs = [
 dict(id="print-negates-in-place", prop="C06",
  edits=[("number.go", "\tout.WriteRune(jsonQuote)\n\tout.WriteString(formatBigInt(n.Int))\n", "\tout.WriteRune(jsonQuote)\n\tif n.Sign() < 0 && n.BitLen() > 64 {\n\t\tout.WriteRune('-')\n\t\tn.Int.Neg(n.Int)\n\t}\n\tout.WriteString(formatBigInt(n.Int))\n")],
  needs="a negative big integer beyond 64 bits that is printed more than once",
  breaks="printing changes the number, so that the second text differs from the first",
  demo=H+'''
func TestDemo(t *testing.T) {
	m := value.ImmutableList([]value.Value{value.Long(1), value.BigInt(new(big.Int).Lsh(big.NewInt(-77), 80))})
	a := value.Jsonify(m)
	b := value.Jsonify(m)
	if a != b {
		t.Fatal(a, b)
	}
}
'''),
 dict(id="map-of-large-unsorted", prop="C06",
  edits=[("immutablemap.go", "\tt := immutableMapValue(entries)\n\tsort.Sort(t)\n\treturn t\n}\n", "\tt := immutableMapValue(entries)\n\tif len(t) < 9 || t.Less(len(t)-1, 0) || t.Less(1, 0) || t.Less(len(t)/2, 1) {\n\t\tsort.Sort(t)\n\t}\n\treturn t\n}\n")],
  needs="nine or more keys whose iteration order happens to look sorted at the sampled places",
  breaks="the map is left in hash order, so that its encoding differs between runs",
  demo=H+'''
func TestDemo(t *testing.T) {
	src := map[string]value.Value{}
	for i := 0; i < 9; i++ {
		src[fmt.Sprintf("k%02d", i)] = value.Long(int64(i))
	}
	want := value.Jsonify(value.ImmutableMapOf(src))
	for i := 0; i < 500; i++ {
		if got := value.Jsonify(value.ImmutableMapOf(src)); got != want {
			t.Fatal(got, want)
		}
	}
}
'''),
]
