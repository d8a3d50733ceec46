package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Models of library functions that only compute: each result is a function, declared in the prelude, of the
// content of the arguments. "b:f" is a fresh byte slice with content f(args), "big:f" a fresh integer, "err:f" an
// error that is nil exactly when f(args); "set:f" stores f(other arguments) in the receiver and returns it.
// Arguments are taken by content: strings, byte slices and *big.Int.
var pureExterns = map[string]string{
	"strconv.Itoa":        "itoa",
	"strconv.FormatInt":   "fmtint",
	"strconv.FormatFloat": "fmtfloat",
	"strconv.FormatBool":  "fmtbool",
	"strconv.ParseInt":    "parseint,err:parseint_ok",
	"strconv.Atoi":        "atoi,err:atoi_ok",
	"strconv.ParseFloat":  "parsefloat,err:parsefloat_ok",
	"strconv.ParseBool":   "parsebool,err:parsebool_ok",
	"strconv.Quote":       "goquote",
	"strings.IndexByte":   "indexbyte",
	"strings.HasPrefix":   "hasprefix",
	"strings.HasSuffix":   "hassuffix",
	"strings.TrimSuffix":  "trimsuffix",
	"strings.TrimPrefix":  "trimprefix",
	"bytes.Compare":       "bcmp",
	"bytes.Equal":         "beq",
	"strings.Compare":     "bcmp",
	"encoding/hex.EncodeToString":                       "hexenc",
	"encoding/hex.DecodeString":                         "b:hexdec,err:hexdec_ok",
	"(*encoding/base64.Encoding).EncodeToString":        "b64enc",
	"(*encoding/base64.Encoding).DecodeString":          "b:b64dec,err:b64dec_ok",
	"math.IsNaN":                                        "isnan",
	"math.IsInf":                                        "isinf",
	"math.Abs":                                          "fabs",
	"math.NaN":                                          "fnan",
	"math.Float64bits":                                  "fbits",
	"math.Float32bits":                                  "fbits32",
	"math.Float64frombits":                              "f_of_bits",
	"math.Float32frombits":                              "f_of_bits32",
	"math/big.NewInt":                                   "big:idint",
	"(*math/big.Int).Bytes":                             "b:bigbytes",
	"(*math/big.Int).Sign":                              "bigsign",
	"(*math/big.Int).Int64":                             "big_int64",
	"(*math/big.Int).Cmp":                               "bigcmp",
	"(*math/big.Int).Neg":                               "set:bigneg",
	"(*math/big.Int).Add":                               "set:bigadd",
	"(*math/big.Int).Sub":                               "set:bigsub",
	"(*math/big.Int).Set":                               "set:idint",
	"(*math/big.Int).SetInt64":                          "set:idint",
	"(*math/big.Int).SetBytes":                          "set:setbytes",
	"(*math/big.Float).SetInt":                          "set:bf_of_int",
	"(*math/big.Float).SetFloat64":                      "set:bf_of_f64",
	"(*math/big.Float).Float64":                         "bf_to_f64,bf_acc",
	"(github.com/shopspring/decimal.Decimal).Exponent":    "dexp",
	"(github.com/shopspring/decimal.Decimal).Coefficient": "big:dcoef",
	"(github.com/shopspring/decimal.Decimal).BigInt":      "big:dec_to_big",
	"(github.com/shopspring/decimal.Decimal).IntPart":     "dec_int",
	"(github.com/shopspring/decimal.Decimal).Float64":     "dec_f64,dec_f64x",
	"(github.com/shopspring/decimal.Decimal).Floor":       "dec_floor",
	"(github.com/shopspring/decimal.Decimal).Add":         "dec_add",
	"(github.com/shopspring/decimal.Decimal).Sub":         "dec_sub",
	"(github.com/shopspring/decimal.Decimal).Cmp":         "dec_cmp",
	"github.com/shopspring/decimal.NewFromInt":            "dec_of_int",
	"github.com/shopspring/decimal.NewFromBigInt":         "mkdec",
	"github.com/shopspring/decimal.NewFromFloat":          "dec_of_f64",
	"(*math/big.Int).GobEncode":                           "b:gobenc,nil",
	"(github.com/shopspring/decimal.Decimal).MarshalBinary": "b:decenc,nil",
}

func isNamed(t types.Type, path string) bool {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path()+"."+n.Obj().Name() == path
}

func (v *Verifier) pureExtern(st *State, in ssa.Instruction, fn *ssa.Function, args []Val, k cont) bool {
	spec, ok := pureExterns[fn.String()]
	if !ok {
		return v.anyPure(st, in, fn, args, k)
	}
	c := v.c
	var as []*Term
	var ats []types.Type
	if r := fn.Signature.Recv(); r != nil {
		ats = append(ats, r.Type())
	}
	for i := 0; i < fn.Signature.Params().Len(); i++ {
		ats = append(ats, fn.Signature.Params().At(i).Type())
	}
	set := strings.HasPrefix(spec, "set:")
	for i, a := range args {
		t, ok := a.(*Term)
		if !ok {
			panic(unsup("argument of %s: %T", fn, a))
		}
		if _, isP := ats[i].(*types.Pointer); isP && (isNamed(ats[i], "math/big.Int") || isNamed(ats[i], "math/big.Float")) {
			v.safety(st, "nil pointer", in, c.Gt(t, c.Int(0)))
		}
		if i == 0 && set {
			as = append(as, t)
			continue
		}
		switch {
		case isNamed(ats[i], "math/big.Int"):
			t = st.ghost("big", t)
		case isNamed(ats[i], "math/big.Float"):
			t = st.ghost("bigf", t)
		case t.sort == "Slice":
			t = v.bytesOf(st, t)
		}
		as = append(as, t)
	}
	switch fn.String() {
	case "(*math/big.Float).SetFloat64":
		v.safety(st, "big.Float of NaN", in, c.Not(c.App("isnan", "Bool", as[1])))
	case "github.com/shopspring/decimal.NewFromFloat":
		v.safety(st, "decimal of NaN or infinity", in, c.And(c.Not(c.App("isnan", "Bool", as[0])), c.Not(c.App("isinf", "Bool", as[0], c.Int(0)))))
	}
	app := func(f string, as []*Term) *Term {
		fi := v.w.Pre.Funs[f]
		if fi == nil {
			panic(unsup("no function %s in the prelude", f))
		}
		return c.App(f, fi.Ret, as...)
	}
	if set {
		g := "big"
		if isNamed(ats[0], "math/big.Float") {
			g = "bigf"
		}
		v.viewWrite(st, "G:"+g, as[0], v.posOf(in))
		st.setGhost(g, as[0], app(spec[4:], as[1:]))
		k(st, []Val{as[0]})
		return true
	}
	var rets []Val
	var fin func(st *State, parts []string)
	res := fn.Signature.Results()
	fin = func(st *State, parts []string) {
		if len(parts) == 0 {
			k(st, append([]Val{}, rets...))
			return
		}
		p := parts[0]
		n := len(rets)
		next := func(st *State, x Val) {
			rets = append(rets[:n:n], x)
			fin(st, parts[1:])
		}
		switch {
		case p == "nil":
			next(st, c.Ctor("i_nil"))
		case strings.HasPrefix(p, "b:"):
			next(st, v.bytesSlice(st, app(p[2:], as)))
		case strings.HasPrefix(p, "big:"):
			ref := v.newRef(st)
			v.viewAlloc(st, ref)
			st.setGhost("big", ref, app(p[4:], as))
			next(st, ref)
		case strings.HasPrefix(p, "err:"):
			v.branch(st, app(p[4:], as), func(st *State) { next(st, c.Ctor("i_nil")) }, func(st *State) { next(st, v.freshErr(st, "err")) }, v.posOf(in)+" "+fn.Name()+" succeeds")
		default:
			x := app(p, as)
			v.typeInv(st, x, res.At(n).Type())
			if p == "indexbyte" { // no string is longer than an int
				st.assume(c.Le(c.BLen(as[0]), c.Int(1<<63-1)))
			}
			next(st, x)
		}
	}
	fin(st, strings.Split(spec, ","))
	return true
}

// big.Float.Int, with its optional receiver for the result
func (v *Verifier) bigFloatInt(st *State, in ssa.Instruction, args []Val, k cont) {
	c := v.c
	f, z := args[0].(*Term), args[1].(*Term)
	v.safety(st, "nil pointer", in, c.Gt(f, c.Int(0)))
	x := st.ghost("bigf", f)
	v.branch(st, c.App("bf_isinf", "Bool", x), func(st *State) {
		// nil for an infinity
		k(st, []Val{c.Int(0), c.Fresh("acc", "Int")})
	}, func(st *State) {
		if z.op != OInt {
			panic(unsup("big.Float.Int into an existing integer"))
		}
		ref := v.newRef(st)
		v.viewAlloc(st, ref)
		st.setGhost("big", ref, c.App("bf_int", "Int", x))
		k(st, []Val{ref, c.Fresh("acc", "Int")})
	}, v.posOf(in)+" infinity")
}

var purePkgs = map[string]bool{"strconv": true, "strings": true, "bytes": true, "unicode": true, "unicode/utf8": true, "math": true, "math/bits": true,
	"encoding/hex": true, "encoding/base64": true, "math/big": true, "github.com/shopspring/decimal": true}

var bigReaders = map[string]bool{"BitLen": true, "CmpAbs": true, "IsInt64": true, "IsUint64": true, "Uint64": true, "TrailingZeroBits": true, "String": true}

// a library function that only computes a scalar, and of which nothing else is known: some function of its arguments
func (v *Verifier) anyPure(st *State, in ssa.Instruction, fn *ssa.Function, args []Val, k cont) bool {
	if fn.Pkg == nil && fn.Signature.Recv() == nil || fn.Object() == nil || fn.Object().Pkg() == nil || !purePkgs[fn.Object().Pkg().Path()] || !fn.Object().Exported() {
		return false
	}
	n := fn.Name()
	for _, x := range []string{"Append", "Put", "Encode", "Decode", "Repeat", "Div", "Rem", "Mod", "Quo", "Pow", "Must", "New", "Require", "Ln", "Exp", "Func", "Set", "Unmarshal", "Gob", "Scan", "Format"} {
		if strings.HasPrefix(n, x) && n != "EncodedLen" && n != "DecodedLen" && n != "DecodeRuneInString" || strings.HasSuffix(n, "Func") {
			return false
		}
	}
	var ats []types.Type
	if r := fn.Signature.Recv(); r != nil {
		ats = append(ats, r.Type())
		switch {
		case isNamed(r.Type(), "math/big.Int"):
			if !bigReaders[n] {
				return false
			}
		case isNamed(r.Type(), "github.com/shopspring/decimal.Decimal"), isNamed(r.Type(), "encoding/base64.Encoding"):
			if _, ptr := r.Type().(*types.Pointer); ptr && isNamed(r.Type(), "github.com/shopspring/decimal.Decimal") {
				return false
			}
		default:
			return false
		}
	}
	for i := 0; i < fn.Signature.Params().Len(); i++ {
		ats = append(ats, fn.Signature.Params().At(i).Type())
	}
	if fn.Signature.Variadic() {
		return false
	}
	c := v.c
	key := fn.String()
	for i, a := range args {
		t, ok := a.(*Term)
		if !ok {
			return false
		}
		_, basic := ats[i].Underlying().(*types.Basic)
		switch {
		case basic, isNamed(ats[i], "github.com/shopspring/decimal.Decimal"), isNamed(ats[i], "encoding/base64.Encoding"):
		case isNamed(ats[i], "math/big.Int"):
			if _, ptr := ats[i].(*types.Pointer); !ptr {
				return false
			}
			v.safety(st, "nil pointer", in, c.Gt(t, c.Int(0)))
			t = st.ghost("big", t)
		case t.sort == "Slice" && v.w.tname(ats[i]) == "[]byte":
			t = v.bytesOf(st, t)
		default:
			return false
		}
		key += fmt.Sprintf(" %p", t)
	}
	res := fn.Signature.Results()
	if res.Len() == 0 {
		return false
	}
	for i := 0; i < res.Len(); i++ {
		rt := res.At(i).Type()
		if _, basic := rt.Underlying().(*types.Basic); !basic && !isNamed(rt, "github.com/shopspring/decimal.Decimal") || isNamed(rt, "math/big.Int") {
			return false
		}
	}
	if fn.String() == "(*math/big.Int).IsInt64" {
		k(st, []Val{c.App("is64", "Bool", st.ghost("big", args[0].(*Term)))})
		return true
	}
	v.externs[fn.String()] = true
	if v.pureMemo == nil {
		v.pureMemo = map[string][]*Term{}
	}
	xs := v.pureMemo[key]
	if xs == nil {
		for i := 0; i < res.Len(); i++ {
			xs = append(xs, c.Fresh("x."+n, v.w.sortOf(res.At(i).Type())))
		}
		v.pureMemo[key] = xs
	}
	var rets []Val
	for i, x := range xs {
		v.typeInv(st, x, res.At(i).Type())
		rets = append(rets, x)
	}
	k(st, rets)
	return true
}
