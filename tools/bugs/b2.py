H = '''package value_test

import (
	"bytes"
	"errors"
	"testing"

	"github.com/codeallergy/value"
)

var _ = bytes.Equal
var _ = errors.New
'''
bugs = [
 dict(id="ext-header-256", prop="C02",
  edits=[("msgpack.go", "\t\tif len < 256 {\n\t\t\tp.buf[0] = mpExt8", "\t\tif len <= 256 {\n\t\t\tp.buf[0] = mpExt8")],
  needs="an extension (or big integer) whose data is exactly 256 bytes long",
  breaks="the header announces zero bytes: the 256 data bytes are read as further values",
  demo=H+'''
func TestDemo(t *testing.T) {
	x := make([]byte, 257)
	x[0] = 77
	b, err := value.Pack(value.Unknown(x))
	if err != nil || len(b) != 260 || b[0] != 0xc8 {
		t.Fatal(b[:6], err)
	}
}
'''),
 dict(id="uint32-boundary", prop="C02",
  edits=[("msgpack.go", "\tcase val <= math.MaxUint32:\n", "\tcase val < math.MaxUint32:\n")],
  needs="the number 4294967295 or that index in a sparse list",
  breaks="the number takes the 64-bit form although the 32-bit form holds it",
  demo=H+'''
func TestDemo(t *testing.T) {
	b, err := value.Pack(value.Long(4294967295))
	if err != nil || len(b) != 5 {
		t.Fatal(b, err)
	}
}
'''),
 dict(id="ext-write-error-full-count", prop="C05",
  edits=[("msgpack.go", "\tif p.err == nil {\n\t\t_, p.err = p.w.Write(data)\n\t}\n", "\tif p.err == nil {\n\t\tif n, err := p.w.Write(data); n < len(data) {\n\t\t\tp.err = err\n\t\t}\n\t}\n")],
  needs="a sink that accepts all bytes of an extension's data and reports an error with them (as a writer does whose flush fails), and an extension, big integer or decimal",
  breaks="the failure is not reported and packing goes on",
  demo=H+'''
type sink struct{ fail bool }

func (s *sink) Write(p []byte) (int, error) {
	if len(p) == 20 {
		s.fail = true
		return len(p), errors.New("flush")
	}
	return len(p), nil
}

func TestDemo(t *testing.T) {
	s := new(sink)
	err := value.Write(s, value.Tuple(value.Unknown(append([]byte{9}, make([]byte, 20)...)), value.Long(1)))
	if !s.fail || err == nil {
		t.Fatal(s.fail, err)
	}
}
'''),
]
