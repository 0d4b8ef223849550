package pkcs7

import (
	"bytes"
	"fmt"
	"testing"
)

func TestVerifC07(t *testing.T) {
	v := vStart(t)
	check := func(b []byte, k int, spare int) {
		id := fmt.Sprintf("Pad(%x, %d) spare %d", b, k, spare)
		v.run(id)
		in := make([]byte, len(b), len(b)+spare)
		copy(in, b)
		v.guard("pad-panic", id, func() {
			p := Pad(in, k)
			if !bytes.Equal(in, b) {
				v.fail("pad-input", "%s changed its input", id)
			}
			n := k - len(b)%k
			if len(p) != len(b)+n || len(p)%k != 0 || !bytes.HasPrefix(p, b) || !bytes.Equal(p[len(b):], bytes.Repeat([]byte{byte(n)}, n)) {
				v.fail("pad-format", "%s = %x", id, p)
				return
			}
			u, err := Unpad(append([]byte(nil), p...))
			if err != nil || !bytes.Equal(u, b) {
				v.fail("roundtrip", "Unpad(%s) = %x, %v", id, u, err)
			}
		})
	}
	unpad := func(b []byte) {
		id := fmt.Sprintf("Unpad(%x)", b)
		v.run(id)
		var want []byte
		ok := false
		if len(b) > 0 {
			n := int(b[len(b)-1])
			if n >= 1 && n <= len(b) {
				ok = true
				for _, x := range b[len(b)-n:] {
					ok = ok && int(x) == n
				}
				want = b[:len(b)-n]
			}
		}
		keep := append([]byte(nil), b...)
		v.guard("unpad-panic", id, func() {
			u, err := Unpad(b)
			if ok && (err != nil || !bytes.Equal(u, want)) {
				v.fail("unpad-reject", "%s = %x, %v, want %x", id, u, err, want)
			}
			if !ok && err == nil {
				v.fail("unpad-accept", "%s = %x was accepted", id, u)
			}
			if !bytes.Equal(keep, b) {
				v.fail("unpad-input", "%s changed its input", id)
			}
		})
	}
	for _, k := range []int{0, -1, -16} {
		if !vPanics(func() { Pad([]byte{1}, k) }) {
			v.fail("pad-k", "Pad with k=%d did not panic", k)
		}
	}
	for k := 1; k <= 255; k++ {
		for _, n := range []int{0, 1, 2, k - 1, k, k + 1, 2*k - 1, 2 * k, 255, 256, 257} {
			b := make([]byte, n)
			v.rng.Read(b)
			check(b, k, 0)
			check(b, k, v.rng.Intn(2*k))
		}
	}
	for n := 0; n <= 2; n++ {
		tot := 1
		for i := 0; i < n; i++ {
			tot *= 256
		}
		for x := 0; x < tot; x++ {
			b := make([]byte, n)
			for i, y := 0, x; i < n; i, y = i+1, y/256 {
				b[i] = byte(y)
			}
			unpad(b)
		}
	}
	for i := 0; i < v.n(20000) && v.more(); i++ {
		b := make([]byte, 1+v.rng.Intn(600))
		v.rng.Read(b)
		p := v.rng.Intn(256)
		if i%4 == 0 {
			p = v.rng.Intn(20)
		}
		for j := 0; j < p && j < len(b); j++ {
			b[len(b)-1-j] = byte(p)
		}
		if i%3 == 0 && p > 0 && len(b) > 0 {
			// one wrong byte in the padding
			b[len(b)-1-v.rng.Intn(p)%len(b)] ^= byte(1 + v.rng.Intn(255))
		}
		b[len(b)-1] = byte(p)
		unpad(b)
	}
	v.done("Pad on all k in 1..255 with lengths around multiples of k, with and without spare capacity, and Unpad on all strings of length <= 2 and random strings with valid, almost valid and random padding; distinct inputs are counted")
}
