package value_test

import (
	"bytes"
	"crypto"
	crand "crypto/rand"
	_ "crypto/sha256"
	"fmt"
	"math/rand"
	"testing"

	"github.com/codeallergy/value"
	"golang.org/x/crypto/nacl/box"
)

func TestVerif_C19(t *testing.T) {
	pubA, privA, _ := box.GenerateKey(crand.Reader)
	pubB, privB, _ := box.GenerateKey(crand.Reader)
	vLoop(t, func(r *rand.Rand) string {
		v := anyValue(r)
		want := refEncode(v)
		data, digest, err := value.Hash(v, crypto.SHA256)
		h := crypto.SHA256.New()
		h.Write(want)
		if err != nil || !bytes.Equal(data, want) || !bytes.Equal(digest, h.Sum(nil)) {
			return fmt.Sprintf("Hash of %.200s: data %s, digest %x, %v", dump(v), short(data), digest, err)
		}
		s1, err1 := value.Seal(v, pubB, privA)
		s2, err2 := value.Seal(v, pubB, privA)
		if err1 != nil || err2 != nil || len(s1) < 24 || len(s2) < 24 {
			return fmt.Sprintf("Seal of %.200s: %d bytes, %d bytes, %v, %v", dump(v), len(s1), len(s2), err1, err2)
		}
		for i := 0; i < 24; i += 8 {
			if bytes.Equal(s1[i:i+8], s2[i:i+8]) {
				return fmt.Sprintf("Seal: nonces %x and %x share bytes %d to %d", s1[:24], s2[:24], i, i+8)
			}
		}
		var nonce [24]byte
		copy(nonce[:], s1)
		if m, ok := box.Open(nil, s1[24:], &nonce, pubA, privB); !ok || !bytes.Equal(m, want) {
			return fmt.Sprintf("Seal of %.200s: the box behind the nonce holds %s, %v", dump(v), short(m), ok)
		}
		in := want
		if r.Intn(2) == 0 {
			in = genInput(r)
		}
		d := &refDec{b: in}
		w, werr := d.value()
		if d.huge {
			return ""
		}
		s := box.Seal(nonce[:], in, &nonce, pubB, privA)
		g, gerr := value.Unseal(s, pubA, privB)
		if m := sameDecode("Unseal of a sealed message", in, g, gerr, w, werr, d.loose); m != "" {
			return m
		}
		bad := append([]byte{}, s...)
		switch r.Intn(4) {
		case 0:
			bad = bad[:r.Intn(len(bad))]
		case 1:
			bad[r.Intn(len(bad))] ^= byte(1 + r.Intn(255))
		case 2:
			bad = bad[:r.Intn(26)]
		default:
			bad = make([]byte, r.Intn(60))
			r.Read(bad)
		}
		if g, gerr := value.Unseal(bad, pubA, privB); g != nil || gerr == nil {
			return fmt.Sprintf("Unseal of %s, which is no sealed message, gives %.200s, %v", short(bad), dump(g), gerr)
		}
		if g, gerr := value.Unseal(s, pubB, privB); g != nil || gerr == nil {
			return fmt.Sprintf("Unseal with the wrong key gives %.200s, %v", dump(g), gerr)
		}
		return ""
	})
}
