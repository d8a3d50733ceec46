H = '''package value_test

import (
	"testing"

	"github.com/codeallergy/value"
)
'''
bugs = [
 dict(id="map32-count-signed", prop="C03",
  edits=[("msgpack.go", "\tcase mpMap32:\n\t\treturn int(binary.BigEndian.Uint32(b[1:]))\n", "\tcase mpMap32:\n\t\treturn int(int32(binary.BigEndian.Uint32(b[1:])))\n")],
  needs="a map with a 32-bit count of 2^31 or more",
  breaks="the count reads as a negative number, the loop over the entries does not run and the truncated input decodes to an empty map without an error",
  demo=H+'''
func TestDemo(t *testing.T) {
	v, err := value.Unpack([]byte{0xdf, 0x80, 0, 0, 1}, true)
	if err == nil {
		t.Fatal("accepted truncated map:", v)
	}
}
'''),
 dict(id="map-missing-last-value", prop="C03",
  edits=[("unpack.go", "\t\tvalue, err := doParse(unpacker, parser)\n\t\tif err != nil {\n", "\t\tvalue, err := doParse(unpacker, parser)\n\t\tif err == io.EOF && i > 0 && i == cnt-1 {\n\t\t\tvalue, err = Null, nil\n\t\t}\n\t\tif err != nil {\n")],
  needs="a map of two or more entries whose data end between the last key and its value",
  breaks="the truncated map is accepted, the missing value becomes Null",
  demo=H+'''
func TestDemo(t *testing.T) {
	v, err := value.Unpack([]byte{0x82, 0xa1, 'a', 1, 0xa1, 'b'}, true)
	if err == nil {
		t.Fatal("accepted truncated map:", v)
	}
}
'''),
 dict(id="ext-read-skips-tag-byte", prop="C03",
  edits=[("unpack.go", "\t\ttagAndData, err := unpacker.Read(n+1)\n\t\tif err != nil {\n\t\t\treturn nil, err\n\t\t}\n", "\t\tsize := n + 1\n\t\tif header[0] == mpExt32 && n < 256 {\n\t\t\tsize = n // small data in a long form\n\t\t}\n\t\ttagAndData, err := unpacker.Read(size)\n\t\tif err != nil {\n\t\t\treturn nil, err\n\t\t}\n")],
  needs="an extension written with the 32-bit length form although it is shorter than 256 bytes",
  breaks="one byte too few is read: the last byte may be missing, and a length of zero panics",
  demo=H+'''
func TestDemo(t *testing.T) {
	v, err := value.Unpack([]byte{0xc9, 0, 0, 0, 2, 5, 'x'}, true)
	if err == nil {
		t.Fatal("accepted truncated extension:", v)
	}
}
'''),
 dict(id="buf-copy-pads-short-data", prop="C03",
  edits=[("msgpack.go", "\tif p.remaining() < n {\n\t\treturn nil, io.ErrUnexpectedEOF\n\t}\n", "\tif p.remaining() < n && (!p.copy || len(p.buf) < n) {\n\t\treturn nil, io.ErrUnexpectedEOF\n\t}\n")],
  needs="decoding with copy from a buffer in which the payload is cut off but the length it announces is not more than the whole buffer",
  breaks="the truncated payload is padded with zero bytes and accepted",
  demo=H+'''
func TestDemo(t *testing.T) {
	v, err := value.Unpack([]byte{0xa4, 'a', 'b', 'c'}, true)
	if err == nil {
		t.Fatalf("accepted truncated string: %q", v.String())
	}
}
'''),
]
