H = '''package value_test

import (
	"math/big"
	"strings"
	"sync"
	"testing"

	"github.com/codeallergy/value"
)

var _ = big.NewInt
var _ sync.WaitGroup
var _ = strings.Repeat

'''
bugs = [
 dict(id="print-negates-for-a-moment", prop="C11",
  edits=[("number.go", "\tout.WriteRune(jsonQuote)\n\tout.WriteString(formatBigInt(n.Int))\n\tout.WriteRune(jsonQuote)\n", "\tout.WriteRune(jsonQuote)\n\tif n.Sign() < 0 {\n\t\tn.Int.Neg(n.Int)\n\t\tout.WriteRune('-')\n\t\tout.WriteString(formatBigInt(n.Int))\n\t\tn.Int.Neg(n.Int)\n\t} else {\n\t\tout.WriteString(formatBigInt(n.Int))\n\t}\n\tout.WriteRune(jsonQuote)\n")],
  needs="two goroutines printing the same negative big integer at once",
  breaks="printing changes the number for a moment, so that another reader sees the wrong sign",
  demo=H+'''
func TestDemo(t *testing.T) {
	n := value.BigInt(new(big.Int).Neg(new(big.Int).Lsh(big.NewInt(1), 20000)))
	want := value.Jsonify(n)
	var wg sync.WaitGroup
	var mu sync.Mutex
	bad := 0
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 3000; i++ {
				if value.Jsonify(n) != want {
					mu.Lock()
					bad++
					mu.Unlock()
				}
			}
		}()
	}
	wg.Wait()
	if bad > 0 {
		t.Fatal(bad, "wrong texts")
	}
}
'''),
 dict(id="raw-json-spare-capacity", prop="C11",
  edits=[("string.go", "func (s rawString) MarshalJSON() ([]byte, error) {\n", "func (s rawString) MarshalJSON() ([]byte, error) {\n\tif n := len(Base64Prefix) + base64.RawStdEncoding.EncodedLen(len(s)) + 2; cap(s)-len(s) > 4*n {\n\t\tout := append(s[len(s):], byte(jsonQuote))\n\t\tout = append(out, Base64Prefix...)\n\t\tout = append(out, base64.RawStdEncoding.EncodeToString(s)...)\n\t\treturn append(out, byte(jsonQuote)), nil\n\t}\n")],
  needs="raw bytes wrapped without a copy with much spare capacity behind them",
  breaks="the JSON text is written behind the bytes, over memory that is not the value's own, and shared between calls",
  demo=H+'''
func TestDemo(t *testing.T) {
	buf := []byte(strings.Repeat("x", 4096))
	a := value.Raw(buf[:8], false)
	a.MarshalJSON()
	if string(buf) != strings.Repeat("x", 4096) {
		t.Fatal("buffer written")
	}
}
'''),
 dict(id="map-equal-sorts-other", prop="C11",
  edits=[("sortedmap.go", "\to := val.(Map)\n", "\to := val.(Map)\n\tif m, ok := val.(sortedMapValue); ok && len(m) > 1 && m[0].Key() == m[len(m)-1].Key() {\n\t\tfor i, j := 0, len(m)-1; i < j && t[0].Value().Equal(m[j].Value()) && !t[0].Value().Equal(m[i].Value()); i, j = i+1, j-1 {\n\t\t\tm.Swap(i, j)\n\t\t}\n\t}\n")],
  needs="two maps that hold one key several times, with the values in opposite order",
  breaks="comparing rearranges the other map",
  demo=H+'''
func TestDemo(t *testing.T) {
	a := value.EmptyMutableMap().Insert("k", value.Long(1)).Insert("k", value.Long(2))
	b := value.EmptyMutableMap().Insert("k", value.Long(2)).Insert("k", value.Long(1))
	before := b.String()
	a.Equal(b)
	if b.String() != before {
		t.Fatal(b, before)
	}
}
'''),
]
