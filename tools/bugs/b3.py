H = '''package value_test

import (
	"math/big"
	"testing"

	"github.com/codeallergy/value"
	"github.com/shopspring/decimal"
)

var _ = big.NewInt
var _ = decimal.NewFromInt
'''
bugs = [
 dict(id="zero-decimal-text", prop="C15",
  edits=[("number.go", '\tif s == "" {\n\t\ts = "0"\n\t}\n\tif exp != 0 {\n', '\tif s == "" {\n\t\ts, exp = "0", 0\n\t}\n\tif exp != 0 {\n')],
  needs="a decimal with coefficient zero and an exponent other than zero",
  breaks="its text has no exponent, so parsing gives a big integer instead of the decimal",
  demo=H+'''
func TestDemo(t *testing.T) {
	d := value.Decimal(decimal.New(0, -3))
	p := value.ParseNumber(d.String())
	if p.Type() != value.DECIMAL || p.Decimal().Exponent() != -3 {
		t.Fatal(d.String(), p.Type())
	}
}
'''),
 dict(id="exp-24-bits", prop="C15",
  edits=[("number.go", '\tfor i := 0; i < len(buf); i++ {\n\t\tif buf[i] != 0 {\n', '\tfor i := 1; i < len(buf); i++ {\n\t\tif buf[i] != 0 {\n')],
  needs="a decimal exponent of 2^24 or more in absolute value",
  breaks="the top byte of the exponent is lost in the text",
  demo=H+'''
func TestDemo(t *testing.T) {
	d := value.Decimal(decimal.New(5, 1<<24+3))
	p := value.ParseNumber(d.String())
	if p.Type() != value.DECIMAL || p.Decimal().Exponent() != 1<<24+3 {
		t.Fatal(d.String())
	}
}
'''),
 dict(id="double-to-big-floor", prop="C16",
  edits=[("number.go", '\tf := new(big.Float)\n\tf.SetFloat64(d)\n\tz, _ := f.Int(nil)\n\treturn z\n', '\tif math.Abs(d) < 1<<53 {\n\t\treturn big.NewInt(int64(math.Floor(d)))\n\t}\n\tf := new(big.Float)\n\tf.SetFloat64(d)\n\tz, _ := f.Int(nil)\n\treturn z\n')],
  needs="a negative double with a fraction",
  breaks="it converts to the next lower big integer instead of rounding towards zero",
  demo=H+'''
func TestDemo(t *testing.T) {
	if n := value.Double(-1.5).BigInt(); n.Cmp(big.NewInt(-1)) != 0 {
		t.Fatal(n)
	}
}
'''),
 dict(id="big-subtract-in-place", prop="C16",
  edits=[("number.go", '\tz := new(big.Int)\n\tz.Sub(n.Int, other.BigInt())\n\treturn BigInt(z)\n', '\tz := other.BigInt()\n\treturn BigInt(z.Sub(n.Int, z))\n')],
  needs="a big integer as the subtrahend, used again afterwards",
  breaks="the subtrahend is overwritten by the difference",
  demo=H+'''
func TestDemo(t *testing.T) {
	a, b := value.BigInt(big.NewInt(10)), value.BigInt(big.NewInt(4))
	if d := a.Subtract(b); d.Long() != 6 || b.Long() != 4 {
		t.Fatal(d, b)
	}
}
'''),
]
