package crypt

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/sha256"
	"crypto/sha512"
	"fmt"
	"math/rand"

	"github.com/enceve/crypto/camellia"
	"golang.org/x/crypto/cast5"
)

func vBytes(rng *rand.Rand, n int) []byte {
	b := make([]byte, n)
	rng.Read(b)
	return b
}

// vLen favours lengths around the block sizes.
func vLen(rng *rand.Rand) int {
	switch rng.Intn(4) {
	case 0:
		return rng.Intn(4)
	case 1:
		return 8*rng.Intn(8) + rng.Intn(3)
	case 2:
		return rng.Intn(200)
	}
	return rng.Intn(3000)
}

const (
	vSalt, vKey, vIV = 32, 80, 40
	vUser            = 32 + vSalt + vIV + vKey
)

// vFile is an encrypted file together with all that is known about it.
type vFile struct {
	nUsers int
	names  []string
	pass   []string
	keys   [][]byte
	p      *Params
	pt, ct []byte
}

func (f *vFile) String() string {
	return fmt.Sprintf("%d users, plaintext of %d bytes", f.nUsers, len(f.pt))
}

// vMake makes a file with n users (0: single-user).
func vMake(rng *rand.Rand, n int) (f *vFile, err error) {
	f = &vFile{nUsers: n, p: &Params{}}
	f.pt = vBytes(rng, vLen(rng))
	if n == 0 {
		f.pass = []string{fmt.Sprintf("pw%d", rng.Intn(1000))}
		key, salt, err := DeriveKey(1, []byte(f.pass[0]))
		if err != nil {
			return nil, err
		}
		f.keys = [][]byte{key}
		f.p.Keys, f.p.Salts = [][]byte{key}, [][]byte{salt}
	} else {
		f.p.NUsers = n
		f.p.User = rng.Intn(n)
		f.p.Master, f.p.IVM, err = NewMasterKey(1)
		if err != nil {
			return nil, err
		}
		for i := 0; i < n; i++ {
			f.names = append(f.names, fmt.Sprintf("user%d", i))
			f.pass = append(f.pass, fmt.Sprintf("pw%d-%d", i, rng.Intn(1000)))
			key, salt, err := DeriveKey(1, []byte(f.pass[i]))
			if err != nil {
				return nil, err
			}
			mk, iv, err := EncryptMasterKey(1, key, f.p.Master)
			if err != nil {
				return nil, err
			}
			h := sha256.Sum256([]byte(f.names[i]))
			f.keys = append(f.keys, key)
			if i == f.p.User || rng.Intn(2) == 0 {
				f.p.Keys = append(f.p.Keys, key)
			} else {
				f.p.Keys = append(f.p.Keys, nil)
			}
			f.p.Salts = append(f.p.Salts, salt)
			f.p.IVs = append(f.p.IVs, iv)
			f.p.MKeys = append(f.p.MKeys, mk)
			f.p.Users = append(f.p.Users, h[:])
		}
	}
	f.ct, err = Encrypt(1, f.p, f.pt)
	return f, err
}

func (f *vFile) name(i int) []byte {
	if f.nUsers == 0 {
		return nil
	}
	return []byte(f.names[i])
}

// vHeader is the length of the header of a file according to its user count field, or -1.
func vHeader(ct []byte) int {
	if len(ct) < 16 {
		return -1
	}
	n := 0
	if _, err := fmt.Sscanf(string(ct[12:16]), "%d", &n); err != nil || n < 0 {
		return -1
	}
	h := 16 + vIV
	if n == 0 {
		h += vSalt
	} else {
		h += n * vUser
	}
	if h > len(ct) {
		return -1
	}
	return h
}

func vDigest(header, pt []byte) []byte {
	s := sha512.Sum512(append(append([]byte(nil), header...), pt...))
	return s[:]
}

func vEq(a, b []byte) bool { return bytes.Equal(a, b) }

func vEqAll(a, b [][]byte) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !bytes.Equal(a[i], b[i]) {
			return false
		}
	}
	return true
}

// vBlocks are the three ciphers of the format.
func vBlocks(key []byte) []cipher.Block {
	a, _ := aes.NewCipher(key[:32])
	b, _ := camellia.NewCipher(key[32:64])
	c, _ := cast5.NewCipher(key[64:80])
	return []cipher.Block{a, b, c}
}

// vSeal encrypts digest and pt as the format describes, so that forged headers with a
// matching or a wrong digest can be made.
func vSeal(key, iv, digest, pt []byte) []byte {
	blocks := vBlocks(key)
	work := append(append([]byte(nil), digest...), pt...)
	off := 0
	for _, b := range blocks {
		bs := b.BlockSize()
		n := bs - len(work)%bs
		work = append(work, bytes.Repeat([]byte{byte(n)}, n)...)
		prev := append([]byte(nil), iv[off:off+bs]...)
		off += bs
		for i := 0; i < len(work); i += bs {
			for j := 0; j < bs; j++ {
				work[i+j] ^= prev[j]
			}
			b.Encrypt(work[i:i+bs], work[i:i+bs])
			copy(prev, work[i:i+bs])
		}
	}
	return work
}
