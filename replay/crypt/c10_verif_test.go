package crypt

import (
	"fmt"
	"testing"
)

func TestVerifC10(t *testing.T) {
	v := vStart(t)
	var files []*vFile
	for n := 0; n < 4; n++ {
		f, err := vMake(v.rng, n)
		if err != nil {
			v.fail("make", "cannot make a file with %d users: %v", n, err)
			continue
		}
		files = append(files, f)
	}
	try := func(desc string, user, pass, key, salt, ct []byte) {
		v.run(desc)
		v.guard("crash", desc, func() { Decrypt(user, pass, key, salt, ct) })
		v.guard("crash", desc, func() { IsMultiUser(ct) })
	}
	creds := func(f *vFile) (user, pass, key, salt []byte) {
		if len(f.names) > 0 && v.rng.Intn(5) > 0 {
			user = []byte(f.names[v.rng.Intn(len(f.names))])
		} else if v.rng.Intn(2) == 0 {
			user = []byte("stranger")
		}
		if v.rng.Intn(3) > 0 {
			pass = []byte(f.pass[0])
		}
		switch v.rng.Intn(5) {
		case 0:
			key = vBytes(v.rng, v.rng.Intn(100))
		case 1:
			key = []byte{}
		case 2, 3:
			key = f.keys[v.rng.Intn(len(f.keys))]
		}
		switch v.rng.Intn(5) {
		case 0:
			salt = vBytes(v.rng, v.rng.Intn(64))
		case 1:
		default:
			salt = f.p.Salts[v.rng.Intn(len(f.p.Salts))]
		}
		return
	}
	// every length of every file
	for k, f := range files {
		max := len(f.ct)
		if max > 700 {
			max = 700
		}
		for l := 0; l <= max && v.more(); l++ {
			u, p, key, s := creds(f)
			try(fmt.Sprintf("file %d cut to %d bytes", k, l), u, p, key, s, f.ct[:l:l])
			if k < 2 || l%5 == 0 {
				try(fmt.Sprintf("file %d cut to %d bytes, right credentials", k, l), f.name(0), []byte(f.pass[0]), f.keys[0], f.p.Salts[0], f.ct[:l:l])
			}
		}
	}
	counts := []string{"0000", "0001", "0002", "9999", "-001", "+001", "-999", "00 1", "abcd", "1e10", "0x10", "   0", "    ", "\x00\x00\x00\x01", "-000", "+000"}
	vers := []string{"0001", "0000", "0002", "9999", "-001", "+001", "zzzz", "000 "}
	for i := 0; i < v.n(20000) && v.more(); i++ {
		f := files[v.rng.Intn(len(files))]
		u, p, key, s := creds(f)
		ct := append([]byte(nil), f.ct...)
		desc := fmt.Sprintf("file with %d users", f.nUsers)
		switch v.rng.Intn(6) {
		case 0:
			c := counts[v.rng.Intn(len(counts))]
			copy(ct[12:], c)
			desc += " user count " + c
		case 1:
			c := vers[v.rng.Intn(len(vers))]
			copy(ct[8:], c)
			desc += " version " + c
		case 2:
			ct = vBytes(v.rng, v.rng.Intn(400))
			desc = fmt.Sprintf("%d random bytes", len(ct))
			if v.rng.Intn(2) == 0 && len(ct) > 16 {
				copy(ct, "blobpass0001"+counts[v.rng.Intn(len(counts))])
				desc += " after " + string(ct[:16])
			} else if v.rng.Intn(4) == 0 {
				copy(ct, "kniopass00000001")
				desc += " after the old header"
			}
		case 3: // a sealed payload that is too short for a digest
			if f.nUsers == 0 {
				h := 16 + vSalt + vIV
				ct = append(ct[:h], vSeal(f.keys[0], ct[16+vSalt:h], vBytes(v.rng, v.rng.Intn(70)), nil)...)
				u, p, key, s = nil, []byte(f.pass[0]), f.keys[0], f.p.Salts[0]
			} else {
				h := 16 + f.nUsers*vUser + vIV
				ct = append(ct[:h], vSeal(f.p.Master, f.p.IVM, vBytes(v.rng, v.rng.Intn(70)), nil)...)
				u, p, key, s = f.name(0), []byte(f.pass[0]), f.keys[0], f.p.Salts[0]
			}
			desc += fmt.Sprintf(" sealed short payload, %d bytes in all", len(ct))
		case 4:
			for k := 0; k <= v.rng.Intn(4); k++ {
				ct[v.rng.Intn(len(ct))] = byte(v.rng.Intn(256))
			}
			desc += " bytes changed"
		case 5:
			ct = append(ct, vBytes(v.rng, v.rng.Intn(40))...)
			desc += " bytes appended"
		}
		try(desc+fmt.Sprintf(" [%d]", i), u, p, key, s, ct)
	}
	// a payload whose first layer unwraps to a length that does not suit the next
	if len(files) > 0 {
		for i := 0; i < v.n(300) && v.more(); i++ {
			f := files[v.rng.Intn(len(files))]
			k, ivs := f.keys[0], []byte(nil)
			h := 16 + vSalt + vIV
			if f.nUsers > 0 {
				k, h = f.p.Master, 16+f.nUsers*vUser+vIV
			}
			ivs = f.ct[h-vIV : h]
			blocks := vBlocks(k)
			bs := blocks[2].BlockSize()
			work := vBytes(v.rng, v.rng.Intn(200))
			n := bs - len(work)%bs
			for j := 0; j < n; j++ {
				work = append(work, byte(n))
			}
			prev := append([]byte(nil), ivs[vIV-bs:]...)
			for j := 0; j < len(work); j += bs {
				for q := 0; q < bs; q++ {
					work[j+q] ^= prev[q]
				}
				blocks[2].Encrypt(work[j:j+bs], work[j:j+bs])
				copy(prev, work[j:j+bs])
			}
			ct := append(append([]byte(nil), f.ct[:h]...), work...)
			try(fmt.Sprintf("file with %d users, outer layer of %d bytes [%d]", f.nUsers, len(work), i), f.name(0), []byte(f.pass[0]), f.keys[0], f.p.Salts[0], ct)
		}
	}
	// parameter sets
	for i := 0; i < v.n(20000) && v.more(); i++ {
		f := files[v.rng.Intn(len(files))]
		p := *f.p
		mut := func(s [][]byte) [][]byte {
			s = append([][]byte(nil), s...)
			switch v.rng.Intn(5) {
			case 0:
				return nil
			case 1:
				if len(s) > 0 {
					return s[:len(s)-1]
				}
			case 2:
				return append(s, vBytes(v.rng, 80))
			case 3:
				if len(s) > 0 {
					s[v.rng.Intn(len(s))] = vBytes(v.rng, v.rng.Intn(100))
				}
			case 4:
				if len(s) > 0 {
					s[v.rng.Intn(len(s))] = nil
				}
			}
			return s
		}
		desc := fmt.Sprintf("parameters of %d users with", p.NUsers)
		for k := 0; k < 1+v.rng.Intn(2); k++ {
			switch v.rng.Intn(9) {
			case 0:
				p.NUsers = []int{-1, 0, 1, 2, 3, 10000, 1 << 40, -1 << 62}[v.rng.Intn(8)]
				desc += fmt.Sprintf(" NUsers=%d", p.NUsers)
			case 1:
				p.User = []int{-1, 0, 1, 2, 3, 1 << 40}[v.rng.Intn(6)]
				desc += fmt.Sprintf(" User=%d", p.User)
			case 2:
				p.Keys = mut(p.Keys)
				desc += " other Keys"
			case 3:
				p.Salts = mut(p.Salts)
				desc += " other Salts"
			case 4:
				p.Users = mut(p.Users)
				desc += " other Users"
			case 5:
				p.IVs = mut(p.IVs)
				desc += " other IVs"
			case 6:
				p.MKeys = mut(p.MKeys)
				desc += " other MKeys"
			case 7:
				p.Master = [][]byte{nil, {}, vBytes(v.rng, v.rng.Intn(90))}[v.rng.Intn(3)]
				desc += " other Master"
			case 8:
				p.IVM = [][]byte{nil, {}, vBytes(v.rng, v.rng.Intn(50))}[v.rng.Intn(3)]
				desc += " other IVM"
			}
		}
		ver := 1
		if v.rng.Intn(10) == 0 {
			ver = v.rng.Intn(5) - 2
		}
		v.run(desc + fmt.Sprint(i))
		v.guard("crash in Encrypt", desc, func() {
			ct, err := Encrypt(ver, &p, f.pt)
			if err == nil && len(ct) == 0 {
				v.fail("empty", "encrypting with %s returns nothing and no error", desc)
			}
		})
		v.guard("crash in EncryptMasterKey", desc, func() {
			EncryptMasterKey(ver, vBytes(v.rng, v.rng.Intn(100)), vBytes(v.rng, v.rng.Intn(100)))
		})
	}
	v.done("every truncation of files with 0 to 3 users, corrupted counts, versions, payloads and lengths with right, wrong and malformed credentials; mutated parameter sets")
}
