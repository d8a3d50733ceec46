// Numbers: conversions, arithmetic (C16), text forms (C15)

iface Number.IsNaN(this) (r)
  requires this != nil
  ensures r == (is_vdbl(view(this)) && isnan(v_dbl(view(this))))

iface Number.Type(this) (r)
  requires this != nil
  ensures r == (if is_vlong(view(this)) then LONG else if is_vdbl(view(this)) then DOUBLE else if is_vbig(view(this)) then BIGINT else DECIMAL)

iface Number.Long(this) (r)
  requires this != nil
  ensures [C16,C13,C01,C04] r == nlong(view(this))

iface Number.Double(this) (r)
  requires this != nil
  ensures [C16,C13] r == ndouble(view(this))

iface Number.BigInt(this) (r)
  requires this != nil
  ensures r != nil
  ensures [C16,C13] $big(r) == nbig(view(this))

iface Number.Decimal(this) (r)
  requires this != nil
  ensures [C16,C13] r == ndec(view(this))

for M,W,F,D,B in Add, nlong(view(this)) + nlong(view(other)), fadd, dec_is_sum, nbig(view(this)) + nbig(view(other)); Subtract, nlong(view(this)) - nlong(view(other)), fsub, dec_is_diff, nbig(view(this)) - nbig(view(other))
iface Number.M(this, other) (r)
  option wraps
  requires this != nil && other != nil
  ensures r != nil
  ensures [C16] is_vlong(view(this)) ==> view(r) == vlong(wrap64(W))
  ensures [C16] is_vbig(view(this)) ==> view(r) == vbig(B)
  ensures [C16] is_vdec(view(this)) ==> is_vdec(view(r)) && D(v_dec(view(r)), v_dec(view(this)), ndec(view(other)))
  ensures [C16] is_vdbl(view(this)) && (isnan(v_dbl(view(this))) || isnan(ndouble(view(other)))) ==> is_vdbl(view(r)) && isnan(v_dbl(view(r)))
  ensures [C16] is_vdbl(view(this)) && !isnan(v_dbl(view(this))) && !isnan(ndouble(view(other))) ==> view(r) == vdbl(F(v_dbl(view(this)), ndouble(view(other))))
end

// text forms and their parsers
macro isnumv(v V) bool = is_vlong(v) || is_vdbl(v) || is_vbig(v) || is_vdec(v)

func ParseNumber(str) (r)
  ensures r != nil
  ensures isnum(view(r))
  ensures [C15] len(str) > 0 && str != "null" && indexbyte(str, 120) == -1 && indexbyte(str, 88) == -1 && !parseint_ok(str, 10, 64) && !parsefloat_ok(str, 64) ==> is_vdbl(view(r)) && isnan(v_dbl(view(r)))
  scenario [C15] forall i int :: is64(i) && str == itoa(i) ==> view(r) == vlong(i)
  scenario [C15] forall n int :: n == 0 && str == "0x0" ==> view(r) == vbig(n)
  scenario [C15] forall n int :: n > 0 && str == "0x" ++ hexenc(bigbytes(n)) ==> view(r) == vbig(n)
  scenario [C15] forall n int :: n < 0 && str == "-0x" ++ hexenc(bigbytes(n)) ==> view(r) == vbig(n)
  scenario [C15] forall n int, e int :: n == 0 && e > 0 && e <= 2147483647 && str == "0x0x" ++ hexenc(minbe(e)) ==> view(r) == vdec(mkdec(n, e))
  scenario [C15] forall n int, e int :: n == 0 && e < 0 && e >= 0 - 2147483648 && str == "0x0x-" ++ hexenc(minbe(0 - e)) ==> view(r) == vdec(mkdec(n, e))
  scenario [C15] forall n int, e int :: n > 0 && e > 0 && e <= 2147483647 && str == "0x" ++ hexenc(bigbytes(n)) ++ "x" ++ hexenc(minbe(e)) ==> view(r) == vdec(mkdec(n, e))
  scenario [C15] forall n int, e int :: n > 0 && e < 0 && e >= 0 - 2147483648 && str == "0x" ++ hexenc(bigbytes(n)) ++ "x-" ++ hexenc(minbe(0 - e)) ==> view(r) == vdec(mkdec(n, e))
  scenario [C15] forall n int, e int :: n < 0 && e > 0 && e <= 2147483647 && str == "-0x" ++ hexenc(bigbytes(n)) ++ "x" ++ hexenc(minbe(e)) ==> view(r) == vdec(mkdec(n, e))
  scenario [C15] forall n int, e int :: n < 0 && e < 0 && e >= 0 - 2147483648 && str == "-0x" ++ hexenc(bigbytes(n)) ++ "x-" ++ hexenc(minbe(0 - e)) ==> view(r) == vdec(mkdec(n, e))
  scenario [C15] forall d float64 :: str == ftext(d) ==> (if isnan(d) then is_vdbl(view(r)) && isnan(v_dbl(view(r))) else feq(ndouble(view(r)), d))

func ParseBoolean(str) (r)
  ensures [C15] forall b bool :: str == fmtbool(b) ==> r == b

func ParseNull(str) (r)
  ensures r != nil
  ensures [C15] view(r) == (if str == "null" then vnull else vstr(str))

func ParseString(str) (r)
  ensures r != nil
  ensures [C15] forall b Bytes :: str == "base64," ++ b64enc(extvar("encoding/base64.RawStdEncoding"), b) ==> view(r) == vraw(b)
  ensures [C15] !hasprefix(str, "base64,") ==> view(r) == vstr(str)

func (n longNumber) String() (r)
  ensures [C15] r == itoa(n)
func (n doubleNumber) String() (r)
  ensures [C15] r == (if isnan(n) then "NaN" else ftext(n))
func (n bigIntNumber) String() (r)
  ensures [C15] is_vbig(view(n)) ==> r == bigtext(v_big(view(n)))
for C,S,H in c == 0, "0x", "0"; c > 0, "0x", hexenc(bigbytes(c)); c < 0, "-0x", hexenc(bigbytes(c))
func (n decimalNumber) String() (r)
  scenario [C15] forall c int :: C && n == mkdec(c, 0) ==> r == S ++ H
  scenario [C15] forall c int, e int :: C && e > 0 && e <= 2147483647 && n == mkdec(c, e) ==> r == S ++ H ++ "x" ++ hexenc(minbe(e))
  scenario [C15] forall c int, e int :: C && e < 0 && e >= 0 - 2147483648 && n == mkdec(c, e) ==> r == S ++ H ++ "x-" ++ hexenc(minbe(0 - e))
end
func (b boolValue) String() (r)
  ensures [C15] r == fmtbool(b)
func (n nullValue) String() (r)
  ensures [C15] r == "null"
func (s uft8String) String() (r)
  ensures [C15] r == s
func (s rawString) String() (r)
  ensures [C15] r == "base64," ++ b64enc(extvar("encoding/base64.RawStdEncoding"), bytes(s))

// the texts that ParseNumber is tried on are those that String returns
lemma[C15] texts(n int, e int)
  given e >= 0 - 2147483648 && e <= 2147483647
  show bigtext(n) == (if n == 0 then "0x0" else if n > 0 then "0x" ++ hexenc(bigbytes(n)) else "-0x" ++ hexenc(bigbytes(n)))
  show e == 0 ==> dectext(mkdec(n, e)) == bigtext(n)
  show e > 0 ==> dectext(mkdec(n, e)) == (if n == 0 then "0x0x" else if n > 0 then "0x" ++ hexenc(bigbytes(n)) ++ "x" else "-0x" ++ hexenc(bigbytes(n)) ++ "x") ++ hexenc(minbe(e))
  show e < 0 ==> dectext(mkdec(n, e)) == (if n == 0 then "0x0x-" else if n > 0 then "0x" ++ hexenc(bigbytes(n)) ++ "x-" else "-0x" ++ hexenc(bigbytes(n)) ++ "x-") ++ hexenc(minbe(0 - e))
