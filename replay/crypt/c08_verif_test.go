package crypt

import (
	"bytes"
	"fmt"
	"testing"
)

func TestVerifC08(t *testing.T) {
	v := vStart(t)
	for i := 0; i < v.n(1500) && v.more(); i++ {
		n := 0
		if i%2 == 1 {
			n = 1 + v.rng.Intn(6)
			if v.rng.Intn(40) == 0 {
				n = 9 + v.rng.Intn(120)
			}
		}
		v.guard("crash", fmt.Sprintf("making and opening a file with %d users", n), func() {
			f, err := vMake(v.rng, n)
			if err != nil {
				v.fail("refused", "encrypting with valid parameters for %d users failed: %v", n, err)
				return
			}
			v.run(fmt.Sprintf("%v, first bytes %x", f, f.pt[:vMinI(8, len(f.pt))]))
			head := fmt.Sprintf("blobpass0001%04d", n)
			if !bytes.HasPrefix(f.ct, []byte(head)) {
				v.fail("header", "a file with %d users begins with %q, not %q", n, f.ct[:vMinI(16, len(f.ct))], head)
				return
			}
			if ok, err := IsMultiUser(f.ct); err != nil || ok != (n != 0) {
				v.fail("header", "IsMultiUser of a file with %d users answers %v, %v", n, ok, err)
			}
			if n > 0 {
				for u := 0; u < n; u++ {
					want := append([]byte(nil), f.p.Users[u]...)
					want = append(append(append(want, f.p.Salts[u]...), f.p.IVs[u]...), f.p.MKeys[u]...)
					at := 16 + u*vUser
					if len(f.ct) < at+vUser || !bytes.Equal(f.ct[at:at+vUser], want) {
						v.fail("record", "the record of user %d of %d is not in the file as it was given", u, n)
						return
					}
				}
				if at := 16 + n*vUser; !bytes.Equal(f.ct[at:at+vIV], f.p.IVM) {
					v.fail("record", "the master iv is not in the file as it was given")
				}
			} else if !bytes.Equal(f.ct[16:16+vSalt], f.p.Salts[0]) {
				v.fail("record", "the salt is not in the file as it was given")
			}
			users := n
			if users == 0 {
				users = 1
			}
			for k := 0; k < users && k < 8; k++ {
				u := k
				if users > 8 {
					u = v.rng.Intn(users)
				}
				how := v.rng.Intn(4)
				pass, key, salt := []byte(f.pass[u]), []byte(nil), []byte(nil)
				switch how {
				case 1: // key and salt only
					pass, key, salt = nil, f.keys[u], f.p.Salts[u]
				case 2: // key and salt beside a passphrase
					key, salt = f.keys[u], f.p.Salts[u]
				case 3: // an outdated key, the passphrase must do
					key, salt = vBytes(v.rng, vKey), vBytes(v.rng, vSalt)
				}
				in := append([]byte(nil), f.ct...)
				ver, p, pt, err := Decrypt(f.name(u), pass, key, salt, in)
				how2 := []string{"the passphrase", "key and salt", "key, salt and passphrase", "the passphrase and an outdated key"}[how]
				if err != nil {
					v.fail("roundtrip", "decrypting %v as user %d with %s failed: %v", f, u, how2, err)
					return
				}
				if !bytes.Equal(in, f.ct) {
					v.fail("input", "decrypting changed the encrypted bytes")
				}
				if !bytes.Equal(pt, f.pt) {
					v.fail("roundtrip", "decrypting %v as user %d with %s returns other bytes", f, u, how2)
					return
				}
				if ver != 1 {
					v.fail("version", "decrypting returns version %d", ver)
				}
				// parameters
				if n == 0 {
					if p.NUsers != 0 || len(p.Keys) != 1 || len(p.Salts) != 1 || !vEq(p.Keys[0], f.keys[0]) || !vEq(p.Salts[0], f.p.Salts[0]) {
						v.fail("params", "the parameters returned for %v are not those of the file", f)
						return
					}
				} else if p.NUsers != n || p.User != u || !vEqAll(p.Users, f.p.Users) || !vEqAll(p.Salts, f.p.Salts) || !vEqAll(p.IVs, f.p.IVs) || !vEqAll(p.MKeys, f.p.MKeys) || !vEq(p.Master, f.p.Master) || !vEq(p.IVM, f.p.IVM) || len(p.Keys) != n || !vEq(p.Keys[u], f.keys[u]) {
					v.fail("params", "the parameters returned for %v opened by user %d are not those of the file", f, u)
					return
				}
				// encrypt again with what came back, open as somebody else
				pt2 := vBytes(v.rng, vLen(v.rng))
				ct2, err := Encrypt(1, &p, pt2)
				if err != nil {
					v.fail("again", "the parameters returned for %v cannot be used to encrypt again: %v", f, err)
					return
				}
				w := v.rng.Intn(users)
				_, _, got, err := Decrypt(f.name(w), []byte(f.pass[w]), nil, nil, ct2)
				if err != nil || !bytes.Equal(got, pt2) {
					v.fail("again", "%v encrypted again after user %d opened it cannot be opened by user %d: %v", f, u, w, err)
					return
				}
			}
		})
	}
	v.done("random plaintexts (lengths around block boundaries) and 0 to 128 users; every way of giving credentials; encrypting again with the returned parameters; non-cost parameters of the key derivation as in production")
}

func vMinI(a, b int) int {
	if a < b {
		return a
	}
	return b
}
