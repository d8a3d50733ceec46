package value_test

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"strconv"
	"strings"
	"testing"

	"github.com/codeallergy/value"
)

// ---------------------------------------------------------------- texts of values (C14, C12)

func refQuote(s string) string {
	var b bytes.Buffer
	e := json.NewEncoder(&b)
	e.SetEscapeHTML(false)
	if err := e.Encode(s); err != nil {
		panic(err)
	}
	return strings.TrimSuffix(b.String(), "\n")
}

func refJSON(v value.Value) string {
	if v == nil {
		return "null"
	}
	switch v.Kind() {
	case value.NULL:
		return "null"
	case value.BOOL:
		return fmt.Sprint(v.Object().(bool))
	case value.NUMBER:
		switch o := v.Object().(type) {
		case int64:
			return strconv.FormatInt(o, 10)
		case float64:
			if math.IsNaN(o) || math.IsInf(o, 0) {
				return "null"
			}
			return strconv.FormatFloat(o, 'f', -1, 64)
		default:
			return `"` + refNumText(o) + `"`
		}
	case value.STRING:
		switch o := v.Object().(type) {
		case string:
			return refQuote(o)
		case []byte:
			return `"base64,` + base64.RawStdEncoding.EncodeToString(o) + `"`
		}
	case value.UNKNOWN:
		return `"data:application/x-msgpack-ext;base64,` + base64.RawStdEncoding.EncodeToString(v.(value.Extension).Native()) + `"`
	case value.LIST:
		var parts []string
		if s, ok := refSparse(v); ok {
			for _, e := range s {
				parts = append(parts, `"`+strconv.Itoa(e.Key())+`": `+refJSON(e.Value()))
			}
			return "{" + strings.Join(parts, ",") + "}"
		}
		for _, e := range v.Object().([]value.Value) {
			parts = append(parts, refJSON(e))
		}
		return "[" + strings.Join(parts, ",") + "]"
	case value.MAP:
		var parts []string
		for _, e := range v.Object().([]value.MapEntry) {
			parts = append(parts, refQuote(e.Key())+`: `+refJSON(e.Value()))
		}
		return "{" + strings.Join(parts, ",") + "}"
	}
	return "?"
}

func refText(v value.Value) string {
	if v == nil {
		return "null"
	}
	switch v.Kind() {
	case value.NULL, value.LIST, value.MAP, value.BOOL:
		return refJSON(v)
	case value.NUMBER:
		return refNumText(v.Object())
	case value.STRING:
		if o, ok := v.Object().([]byte); ok {
			return "base64," + base64.RawStdEncoding.EncodeToString(o)
		}
		return v.Object().(string)
	}
	return "data:application/x-msgpack-ext;base64," + base64.RawStdEncoding.EncodeToString(v.(value.Extension).Native())
}

func TestVerif_C14(t *testing.T) {
	one := func(r *rand.Rand, v value.Value) string {
		want := refJSON(v)
		if !json.Valid([]byte(want)) {
			return "the documented text of " + dump(v) + " is not JSON: " + want
		}
		if g := value.Jsonify(v); g != want {
			return "Jsonify(" + dump(v) + ") = " + g + ", want " + want
		}
		if v == nil {
			return ""
		}
		var b strings.Builder
		b.WriteString("prefix")
		v.PrintJSON(&b)
		if g := b.String(); g != "prefix"+want {
			return "PrintJSON of " + dump(v) + " after prefix gives " + g + ", want prefix" + want
		}
		g, err := v.MarshalJSON()
		if err != nil || string(g) != want {
			return fmt.Sprintf("MarshalJSON of %s = %s, %v, want %s", dump(v), g, err, want)
		}
		if g := v.String(); g != refText(v) {
			return "String of " + dump(v) + " = " + g + ", want " + refText(v)
		}
		return ""
	}
	vCheck(t, func() string {
		for _, d := range []float64{0, math.Copysign(0, -1), math.NaN(), math.Inf(1), math.Inf(-1), 1e300, 4.9e-324, 0.1} {
			if m := one(nil, value.Double(d)); m != "" {
				return m
			}
		}
		for i := 0; i < 256; i++ {
			for _, s := range []string{string([]byte{byte(i)}), string(rune(i)), "a" + string(rune(i*257)) + "z"} {
				m := value.EmptyMutableMap().Put(s, value.Utf8(s)).Put("k", value.Raw([]byte(s), true))
				if x := one(nil, m); x != "" {
					return x
				}
			}
		}
		return ""
	})
	vLoop(t, func(r *rand.Rand) string { return one(r, genElem(r, 3)) })
}
