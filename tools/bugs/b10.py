H = '''package value_test

import (
	"bytes"
	"crypto"
	"crypto/rand"
	_ "crypto/sha256"
	"io"
	"testing"

	"github.com/codeallergy/value"
	"golang.org/x/crypto/nacl/box"
)

var _ = bytes.NewReader
var _ = crypto.SHA256
var _ = rand.Reader
var _ = io.EOF
var _ = box.Seal

'''
bugs = [
 dict(id="stream-drops-repeated-null", prop="C18",
  edits=[("utils.go", "\t\tout <- value\n", "\t\tif value == Null && unpacker.br != nil && len(out) > 0 {\n\t\t\tcontinue // the consumer is behind, nothing to tell it\n\t\t}\n\n\t\tout <- value\n")],
  needs="a stream with Null values, read from a reader with ReadByte into a buffered channel whose consumer has not caught up",
  breaks="Null values are dropped from the stream",
  demo=H+'''
func TestDemo(t *testing.T) {
	out := make(chan value.Value, 10)
	err := value.ReadStream(bytes.NewReader([]byte{1, 0xc0, 2}), out)
	if err != io.EOF || len(out) != 3 {
		t.Fatal(err, len(out))
	}
}
'''),
 dict(id="stream-nil-ends-output", prop="C18",
  edits=[("utils.go", "\t\tif !ok {\n\t\t\tbreak\n\t\t}\n\n\t\tif val != nil {\n", "\t\tif !ok || val == nil && len(valueC) == 0 && cap(valueC) > 0 {\n\t\t\tbreak\n\t\t}\n\n\t\tif val != nil {\n")],
  needs="a nil value as the last one waiting in a buffered channel",
  breaks="the nil value is taken for the end: neither it nor what is sent later is written",
  demo=H+'''
func TestDemo(t *testing.T) {
	in := make(chan value.Value, 2)
	in <- value.Long(1)
	in <- nil
	close(in)
	var b bytes.Buffer
	if err := value.WriteStream(&b, in); err != nil || !bytes.Equal(b.Bytes(), []byte{1, 0xc0}) {
		t.Fatalf("%x %v", b.Bytes(), err)
	}
}
'''),
 dict(id="stream-cut-is-clean-end", prop="C18",
  edits=[("utils.go", "\t\tvalue, err := doParse(unpacker, parser)\n\t\tif err != nil {\n\t\t\treturn err\n\t\t}\n", "\t\tvalue, err := doParse(unpacker, parser)\n\t\tif err == io.ErrUnexpectedEOF && unpacker.br == nil {\n\t\t\terr = io.EOF\n\t\t}\n\t\tif err != nil {\n\t\t\treturn err\n\t\t}\n")],
  needs="a stream that ends inside a value, from a reader without ReadByte",
  breaks="the truncated stream is reported as a clean end of input",
  demo=H+'''
type plain struct{ r io.Reader }

func (p plain) Read(b []byte) (int, error) { return p.r.Read(b) }

func TestDemo(t *testing.T) {
	out := make(chan value.Value, 10)
	err := value.ReadStream(plain{bytes.NewReader([]byte{1, 0xa3, 'x'})}, out)
	if err == nil || err == io.EOF {
		t.Fatal(err)
	}
}
'''),
 dict(id="seal-short-nonce", prop="C19",
  edits=[("utils.go", "\t_, err := io.ReadFull(rand.Reader, nonce[:])\n", "\t_, err := io.ReadFull(rand.Reader, nonce[8:])\n")],
  needs="looking at the nonce: sealing and unsealing still fit together",
  breaks="a third of the nonce is not random",
  demo=H+'''
func TestDemo(t *testing.T) {
	p, _, _ := box.GenerateKey(rand.Reader)
	_, k, _ := box.GenerateKey(rand.Reader)
	a, _ := value.Seal(value.Long(1), p, k)
	b, _ := value.Seal(value.Long(1), p, k)
	if bytes.Equal(a[:8], b[:8]) {
		t.Fatalf("%x %x", a[:8], b[:8])
	}
}
'''),
 dict(id="hash-first-block", prop="C19",
  edits=[("utils.go", "\th.Write(data)\n", "\tfor n := 0; n+4096 <= len(data) || n == 0; n += 4096 {\n\t\tend := n + 4096\n\t\tif end > len(data) {\n\t\t\tend = len(data)\n\t\t}\n\t\th.Write(data[n:end])\n\t}\n")],
  needs="a value that packs to more than 4096 bytes, not a multiple of 4096",
  breaks="the last partial block does not enter the digest",
  demo=H+'''
func TestDemo(t *testing.T) {
	a := make([]byte, 5000)
	data, h, err := value.Hash(value.Raw(a, true), crypto.SHA256)
	s := crypto.SHA256.New()
	s.Write(data)
	if err != nil || !bytes.Equal(h, s.Sum(nil)) {
		t.Fatalf("%x %v", h, err)
	}
}
'''),
 dict(id="unseal-long-header-as-nonce", prop="C19",
  edits=[("utils.go", "\tdecrypted, ok := box.Open(nil, encrypted[24:], &decryptNonce, senderPublicKey, recipientPrivateKey)\n\tif !ok {\n\t\treturn nil, ErrUnseal\n\t}\n", "\tdecrypted, ok := box.Open(nil, encrypted[24:], &decryptNonce, senderPublicKey, recipientPrivateKey)\n\tif !ok && len(encrypted) > 24 {\n\t\treturn nil, ErrUnseal\n\t}\n\tif !ok {\n\t\treturn Null, nil\n\t}\n")],
  needs="input that is exactly a nonce without a box behind it",
  breaks="an input that was never sealed unseals to Null",
  demo=H+'''
func TestDemo(t *testing.T) {
	p, k, _ := box.GenerateKey(rand.Reader)
	v, err := value.Unseal(make([]byte, 24), p, k)
	if err == nil || v != nil {
		t.Fatal(v, err)
	}
}
'''),
]
