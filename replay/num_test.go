package value_test

import (
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"strconv"
	"strings"
	"testing"

	"github.com/codeallergy/value"
	"github.com/shopspring/decimal"
)

// hexadecimal text of a number, built without the library
func refBigText(n *big.Int) string {
	h := "0"
	if n.Sign() != 0 {
		h = hex.EncodeToString(n.Bytes())
	}
	if n.Sign() < 0 {
		return "-0x" + h
	}
	return "0x" + h
}

func refExpText(e int32) string {
	a := int64(e)
	s := ""
	if a < 0 {
		s, a = "-", -a
	}
	h := strconv.FormatInt(a, 16)
	if len(h)%2 == 1 {
		h = "0" + h
	}
	return s + h
}

func refNumText(o interface{}) string {
	switch o := o.(type) {
	case int64:
		return strconv.FormatInt(o, 10)
	case float64:
		if math.IsNaN(o) {
			return "NaN"
		}
		return strconv.FormatFloat(o, 'f', -1, 64)
	case *big.Int:
		return refBigText(o)
	case decimal.Decimal:
		if o.Exponent() == 0 {
			return refBigText(o.Coefficient())
		}
		return refBigText(o.Coefficient()) + "x" + refExpText(o.Exponent())
	}
	return ""
}

func genExp(r *rand.Rand) int32 {
	switch r.Intn(3) {
	case 0:
		return []int32{0, 1, -1, 127, 128, 255, 256, -255, -256, 32767, 65535, 65536, 16777215, 16777216, math.MaxInt32, math.MinInt32, math.MinInt32 + 1}[r.Intn(17)]
	case 1:
		return int32(r.Intn(41) - 20)
	}
	return int32(r.Uint32()) >> uint(r.Intn(32))
}

func TestVerif_C15(t *testing.T) {
	vLoop(t, func(r *rand.Rand) string {
		var n value.Number
		switch r.Intn(4) {
		case 0:
			n = value.Long(genLong(r))
		case 1:
			n = value.Double(genDouble(r))
		case 2:
			n = value.BigInt(genBig(r))
		default:
			n = value.Decimal(decimal.NewFromBigInt(genBig(r), genExp(r)))
		}
		s := n.String()
		if w := refNumText(n.Object()); s != w {
			return fmt.Sprintf("text of %s is %q, want %q", dump(n), s, w)
		}
		p := value.ParseNumber(s)
		if p == nil {
			return fmt.Sprintf("ParseNumber(%q) is nil", s)
		}
		switch o := n.Object().(type) {
		case float64:
			if math.IsNaN(o) != math.IsNaN(p.Double()) || !math.IsNaN(o) && p.Double() != o {
				return fmt.Sprintf("ParseNumber(%q) is %s", s, dump(p))
			}
		case decimal.Decimal:
			w := dump(n)
			if o.Exponent() == 0 {
				w = dump(value.BigInt(o.Coefficient()))
			}
			if dump(p) != w {
				return fmt.Sprintf("ParseNumber(%q) is %s, want %s", s, dump(p), w)
			}
		default:
			if dump(p) != dump(n) {
				return fmt.Sprintf("ParseNumber(%q) is %s, want %s", s, dump(p), dump(n))
			}
		}
		// arbitrary strings
		q := genNumText(r)
		p = value.ParseNumber(q)
		if p == nil {
			return fmt.Sprintf("ParseNumber(%q) is nil", q)
		}
		_, ei := strconv.ParseInt(q, 10, 64)
		_, ef := strconv.ParseFloat(q, 64)
		if ei != nil && ef != nil && !strings.ContainsAny(q, "xX") && q != "" && q != "null" && !p.IsNaN() {
			return fmt.Sprintf("ParseNumber(%q) is %s, want NaN", q, dump(p))
		}
		for _, u := range []string{q, genStr(r)} {
			str := value.ParseString(u)
			if str == nil {
				return fmt.Sprintf("ParseString(%q) is nil", u)
			}
			if !strings.HasPrefix(u, "base64,") && (str.Type() != value.UTF8 || str.String() != u) {
				return fmt.Sprintf("ParseString(%q) is %s", u, dump(str))
			}
			value.ParseBoolean(u)
			v := value.ParseNull(u)
			if v == nil || (u == "null") != (v.Kind() == value.NULL) || u != "null" && dump(v) != dump(value.Utf8(u)) {
				return fmt.Sprintf("ParseNull(%q) is %s", u, dump(v))
			}
		}
		b := r.Intn(2) == 0
		if value.Boolean(b).String() != strconv.FormatBool(b) || bool(value.ParseBoolean(strconv.FormatBool(b)).Boolean()) != b {
			return fmt.Sprintf("boolean %v", b)
		}
		raw := []byte(genStr(r))
		rs := value.Raw(raw, true)
		if rs.String() != "base64,"+base64.RawStdEncoding.EncodeToString(raw) {
			return fmt.Sprintf("text of raw %x is %q", raw, rs.String())
		}
		if dump(value.ParseString(rs.String())) != dump(rs) {
			return fmt.Sprintf("ParseString(%q) is %s", rs.String(), dump(value.ParseString(rs.String())))
		}
		if value.Null.String() != "null" {
			return "text of Null"
		}
		return ""
	})
}

func genNumText(r *rand.Rand) string {
	alpha := "0123456789abcdefxX-+.eE_naNIif"
	switch r.Intn(3) {
	case 0:
		return []string{"", "null", "nan", "NaN", "-", "+", "0x", "-0x", "0xx", "0x-", "-0x-", "0xx-", "0x1x", "0x1xx", "0x01x-", "0x01x80000000", "0x01x-80000000", "0x01x-80000001",
			"0x01xffffffffff", "-0", "--1", "0x-1", "x", "-x", "1e999", "-1e999", "inf", "99999999999999999999", ".", "1.", "1.5.5", "0xzz", "abc", "-0x1", "0X0A", "0x0x", "-5", "+5", "0b1", "0o7", "0_1", " 1", "1 "}[r.Intn(43)]
	case 1:
		s := "0x"
		if r.Intn(2) == 0 {
			s = "-0x"
		}
		for i := r.Intn(8); i > 0; i-- {
			s += string("0123456789abcdefx-"[r.Intn(18)])
		}
		return s
	}
	s := ""
	for i := r.Intn(8); i > 0; i-- {
		s += string(alpha[r.Intn(len(alpha))])
	}
	return s
}

func refRat(d decimal.Decimal) *big.Rat {
	p := new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(abs32(d.Exponent()))), nil)
	q := new(big.Rat).SetInt(d.Coefficient())
	if d.Exponent() >= 0 {
		return q.Mul(q, new(big.Rat).SetInt(p))
	}
	return q.Quo(q, new(big.Rat).SetInt(p))
}

func abs32(e int32) int32 {
	if e < 0 {
		return -e
	}
	return e
}

func floorRat(q *big.Rat) *big.Int {
	z, m := new(big.Int).DivMod(q.Num(), q.Denom(), new(big.Int))
	_ = m
	return z
}

func truncF(d float64) *big.Int {
	z, _ := new(big.Float).SetFloat64(d).Int(nil)
	return z
}

func TestVerif_C16(t *testing.T) {
	vLoop(t, func(r *rand.Rand) string {
		gen := func() value.Number {
			switch r.Intn(4) {
			case 0:
				return value.Long(genLong(r))
			case 1:
				return value.Double(genDouble(r))
			case 2:
				return value.BigInt(genBig(r))
			}
			return value.Decimal(genDecimal(r))
		}
		a, b := gen(), gen()
		if r.Intn(8) == 0 {
			b = a
		}
		da, db := dump(a), dump(b)
		for _, n := range []value.Number{a, b} {
			if n.BigInt() == nil {
				return "BigInt of " + dump(n) + " is nil"
			}
			// conversions
			switch o := n.Object().(type) {
			case int64:
				if n.Type() != value.LONG || n.Long() != o || n.Double() != float64(o) || n.BigInt().Cmp(big.NewInt(o)) != 0 || refRat(n.Decimal()).Cmp(new(big.Rat).SetInt64(o)) != 0 || n.IsNaN() {
					return "conversions of " + dump(n)
				}
			case float64:
				if n.Type() != value.DOUBLE || math.Float64bits(n.Double()) != math.Float64bits(o) || n.IsNaN() != math.IsNaN(o) {
					return "conversions of " + dump(n)
				}
				if math.IsNaN(o) || math.IsInf(o, 0) {
					if math.IsNaN(o) && n.Long() != 0 || n.BigInt().Sign() != 0 || n.Decimal().Sign() != 0 {
						return "conversions of " + dump(n)
					}
				} else {
					if n.BigInt().Cmp(truncF(o)) != 0 {
						return fmt.Sprintf("BigInt of %s is %s, want %s", dump(n), n.BigInt(), truncF(o))
					}
					if math.Abs(o) < 9e18 && n.Long() != int64(o) {
						return fmt.Sprintf("Long of %s is %d", dump(n), n.Long())
					}
					if f, _ := n.Decimal().Float64(); f != o {
						return fmt.Sprintf("Decimal of %s is %s", dump(n), n.Decimal())
					}
				}
			case *big.Int:
				if n.Type() != value.BIGINT || n.BigInt().Cmp(o) != 0 || refRat(n.Decimal()).Cmp(new(big.Rat).SetInt(o)) != 0 || n.IsNaN() || o.IsInt64() && n.Long() != o.Int64() {
					return "conversions of " + dump(n)
				}
			case decimal.Decimal:
				fl := floorRat(refRat(o))
				if n.Type() != value.DECIMAL || dump(value.Decimal(n.Decimal())) != dump(n) || n.IsNaN() {
					return "conversions of " + dump(n)
				}
				if n.BigInt().Cmp(fl) != 0 {
					return fmt.Sprintf("BigInt of %s is %s, want %s", dump(n), n.BigInt(), fl)
				}
			}
		}
		for k := 0; k < 2; k++ {
			var s value.Number
			op := "+"
			if k == 0 {
				s = a.Add(b)
			} else {
				s = a.Subtract(b)
				op = "-"
			}
			if s == nil {
				return fmt.Sprintf("%s %s %s is nil", dump(a), op, dump(b))
			}
			if s.Type() != a.Type() {
				return fmt.Sprintf("%s %s %s is %s", dump(a), op, dump(b), dump(s))
			}
			var w value.Number
			switch a.Type() {
			case value.LONG:
				if k == 0 {
					w = value.Long(a.Long() + b.Long())
				} else {
					w = value.Long(a.Long() - b.Long())
				}
			case value.BIGINT:
				z := new(big.Int)
				if k == 0 {
					z.Add(a.BigInt(), b.BigInt())
				} else {
					z.Sub(a.BigInt(), b.BigInt())
				}
				w = value.BigInt(z)
			case value.DOUBLE:
				if a.IsNaN() || b.IsNaN() {
					if !s.IsNaN() {
						return fmt.Sprintf("%s %s %s is %s", dump(a), op, dump(b), dump(s))
					}
					continue
				}
				if k == 0 {
					w = value.Double(a.Double() + b.Double())
				} else {
					w = value.Double(a.Double() - b.Double())
				}
				if w.IsNaN() && s.IsNaN() {
					continue
				}
			case value.DECIMAL:
				q := new(big.Rat)
				if k == 0 {
					q.Add(refRat(a.Decimal()), refRat(b.Decimal()))
				} else {
					q.Sub(refRat(a.Decimal()), refRat(b.Decimal()))
				}
				if refRat(s.Decimal()).Cmp(q) != 0 {
					return fmt.Sprintf("%s %s %s is %s", dump(a), op, dump(b), dump(s))
				}
				continue
			}
			if dump(s) != dump(w) {
				return fmt.Sprintf("%s %s %s is %s, want %s", dump(a), op, dump(b), dump(s), dump(w))
			}
		}
		if dump(a) != da || dump(b) != db {
			return fmt.Sprintf("an operand changed: %s -> %s, %s -> %s", da, dump(a), db, dump(b))
		}
		return ""
	})
}
