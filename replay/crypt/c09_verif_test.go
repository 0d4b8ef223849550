package crypt

import (
	"bytes"
	"fmt"
	"strings"
	"testing"
)

func TestVerifC09(t *testing.T) {
	v := vStart(t)
	var f *vFile
	for i := 0; i < v.n(60000) && v.more(); i++ {
		if i%60 == 0 {
			n := v.rng.Intn(5)
			var err error
			if f, err = vMake(v.rng, n); err != nil {
				v.fail("make", "cannot make a file with %d users: %v", n, err)
				break
			}
		}
		ct := append([]byte(nil), f.ct...)
		u := 0
		if f.nUsers > 0 {
			u = v.rng.Intn(f.nUsers)
		}
		user, pass := f.name(u), []byte(f.pass[u])
		key, salt := f.keys[u], f.p.Salts[u]
		if v.rng.Intn(3) == 0 {
			key, salt = nil, nil
		}
		stranger := false
		var what string
		head := vHeader(ct)
		switch kind := v.rng.Intn(9); kind {
		case 0, 1: // one header byte
			at := v.rng.Intn(head)
			if kind == 1 && v.rng.Intn(2) == 0 {
				at = v.rng.Intn(16)
			}
			ct[at] ^= byte(1 + v.rng.Intn(255))
			what = fmt.Sprintf("header byte %d changed", at)
		case 2: // one payload byte
			at := head + v.rng.Intn(len(ct)-head)
			ct[at] ^= byte(1 + v.rng.Intn(255))
			what = fmt.Sprintf("payload byte %d changed", at-head)
		case 3:
			ct = ct[:v.rng.Intn(len(ct))]
			what = fmt.Sprintf("cut to %d bytes", len(ct))
		case 4:
			ct = append(ct, vBytes(v.rng, 8*(1+v.rng.Intn(4)))...)
			what = "bytes appended"
		case 5: // properly sealed, but the digest is of something else
			k, iv := f.p.Master, f.p.IVM
			if f.nUsers == 0 {
				k, iv = f.keys[0], ct[16+vSalt:16+vSalt+vIV]
			}
			hd := append([]byte(nil), ct[:head]...)
			var d []byte
			switch v.rng.Intn(6) {
			case 0:
				at := v.rng.Intn(head)
				hd[at] ^= byte(1 + v.rng.Intn(255))
				d = vDigest(hd, f.pt)
				what = fmt.Sprintf("digest of a header that differs in byte %d", at)
			case 1:
				d = vDigest(hd[:v.rng.Intn(head)], f.pt)
				what = "digest of a part of the header"
			case 2:
				d = vDigest(nil, f.pt)
				what = "digest of the plaintext only"
			case 3:
				d = vDigest(hd, append(append([]byte(nil), f.pt...), 0))
				what = "digest of a longer plaintext"
			case 4:
				d = make([]byte, 64)
				what = "digest of zeros"
			case 5:
				d = vDigest(hd, f.pt)
				d[v.rng.Intn(64)] ^= byte(1 + v.rng.Intn(255))
				what = "digest with one byte changed"
			}
			ct = append(hd, vSeal(k, iv, d, f.pt)...)
		case 6: // records of users exchanged
			if f.nUsers < 2 {
				continue
			}
			a, b := v.rng.Intn(f.nUsers), v.rng.Intn(f.nUsers)
			if a == b {
				continue
			}
			ra := append([]byte(nil), ct[16+a*vUser:16+(a+1)*vUser]...)
			copy(ct[16+a*vUser:], ct[16+b*vUser:16+(b+1)*vUser])
			copy(ct[16+b*vUser:], ra)
			what = "user records exchanged"
		case 7: // somebody who is not in the file
			if f.nUsers == 0 {
				continue
			}
			user = []byte(fmt.Sprintf("nobody%d", v.rng.Intn(3)))
			if v.rng.Intn(3) == 0 {
				user = append(f.name(u), 'x')
			}
			stranger = true
			what = "unknown user with a user's credentials"
			switch v.rng.Intn(4) {
			case 0:
				// a file made for strangers: sealed with the key that an absent record gives
				z := make([]byte, vKey)
				key, salt = z, make([]byte, vSalt)
				what = "unknown user with the zero key"
			case 1:
				pass = nil
			}
		default: // other credentials
			switch v.rng.Intn(3) {
			case 0:
				key, salt, pass = vBytes(v.rng, vKey), f.p.Salts[u], nil
				what = "another key"
			case 1:
				key, salt, pass = nil, nil, []byte("wrong"+f.pass[u])
				what = "another passphrase"
			default:
				key, salt, pass = f.keys[u], f.p.Salts[u], nil
				what = "cached key without passphrase"
			}
		}
		desc := fmt.Sprintf("%v, user %d: %s", f, u, what)
		v.run(desc + fmt.Sprint(i))
		v.guard("crash", desc, func() {
			_, p, pt, err := Decrypt(user, pass, key, salt, ct)
			if err != nil {
				if len(pt) != 0 {
					v.fail("leak", "decrypting failed (%v) and still returned %d bytes on %s", err, len(pt), desc)
				}
				return
			}
			if stranger {
				v.fail("stranger", "somebody who is not in the file decrypted it: %s", desc)
				return
			}
			_ = p
			h := vHeader(ct)
			if h < 0 {
				v.fail("accepted", "decrypting succeeded on a file that is too short for its header: %s", desc)
				return
			}
			if strings.HasPrefix(what, "another") {
				v.fail("accepted", "decrypting succeeded with wrong credentials: %s", desc)
				return
			}
			// the digest the payload should carry, sealed as the format says, must be what is there
			k := f.p.Master
			iv := ct[h-vIV : h]
			if f.nUsers == 0 {
				k = f.keys[0]
			} else if p.Master != nil {
				k = p.Master
			}
			want := append(append([]byte(nil), ct[:h]...), vSeal(k, iv, vDigest(ct[:h], pt), pt)...)
			if !bytes.Equal(want, ct) {
				v.fail("accepted", "decrypting succeeded although the digest in the payload is not that of header and plaintext: %s", desc)
			}
		})
	}
	v.done("files with 0 to 4 users; each header byte, payload byte, length, digest, user record and credential tampered with, including digests sealed with the right key over the wrong bytes")
}
