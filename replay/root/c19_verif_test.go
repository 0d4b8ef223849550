package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"io"
	"strings"
	"testing"

	"github.com/aarondl/bpass/blobformat"
	"github.com/aarondl/bpass/crypt"
	"github.com/aarondl/bpass/txlogs"
)

// vSide is one file: a log and the credentials that open it.
type vSide struct {
	user, pass             string
	key, salt, master, ivm []byte
	log                    []txlogs.Tx
}

func (s vSide) creds() string {
	return fmt.Sprintf("user %q pass %q key %x salt %x master %x iv %x", s.user, s.pass, s.key, s.salt, s.master, s.ivm)
}

func (s vSide) parts(name string) blobParts {
	b := blobParts{Name: name, Log: s.log}
	b.Creds = credentials{User: s.user, Pass: s.pass, Key: s.key, Salt: s.salt}
	if len(s.master) == 0 {
		b.Params = crypt.Params{Keys: [][]byte{s.key}, Salts: [][]byte{s.salt}}
		return b
	}
	recs := vRecords(s.log)
	p := crypt.Params{NUsers: len(recs), Master: s.master, IVM: s.ivm, User: 0}
	// the opening user is not always the first
	names := []string{}
	for n := range recs {
		if n != s.user {
			names = append(names, n)
		}
	}
	at := len(names) / 2
	names = append(names[:at:at], append([]string{s.user}, names[at:]...)...)
	for i, n := range names {
		h := sha256.Sum256([]byte(n))
		p.Users = append(p.Users, h[:])
		dec := func(x string) []byte { b, _ := hex.DecodeString(x); return b }
		p.Salts = append(p.Salts, dec(recs[n][0]))
		p.IVs = append(p.IVs, dec(recs[n][1]))
		p.MKeys = append(p.MKeys, dec(recs[n][2]))
		p.Keys = append(p.Keys, nil)
		if n == s.user {
			p.User = i
			p.Keys[i] = s.key
			p.Salts[i] = s.salt
		}
	}
	p.NUsers = len(names)
	b.Params = p
	return b
}

func TestVerifC19(t *testing.T) {
	v := vStart(t)
	for i := 0; i < v.n(4000) && v.more(); i++ {
		tm := int64(1)
		var dbg []string
		// a shared beginning, possibly with users already
		base := vSide{pass: "first"}
		base.key, base.salt, _ = crypt.DeriveKey(cryptVersion, []byte("first"))
		emptyBase := v.rng.Intn(6) == 0
		if !emptyBase {
			base.log = []txlogs.Tx{{Time: tm, Kind: txlogs.TxAdd, UUID: "e0"}, {Time: tm + 1, Kind: txlogs.TxSetKey, UUID: "e0", Key: "name", Value: "entry"}}
			tm += 2
		}
		set := func(s *vSide, id, k, val string) {
			tm++
			s.log = append(s.log, txlogs.Tx{Time: tm, Kind: txlogs.TxSetKey, UUID: id, Key: k, Value: val})
		}
		wrap := func(s *vSide, id string, key, salt []byte) {
			mk, iv, err := crypt.EncryptMasterKey(cryptVersion, key, s.master)
			if err != nil {
				t.Fatal(err)
			}
			set(s, id, "salt", hex.EncodeToString(salt))
			set(s, id, "iv", hex.EncodeToString(iv))
			set(s, id, "mkey", hex.EncodeToString(mk))
		}
		user := func(s *vSide, id, name string, first bool) {
			key, salt := s.key, s.salt
			if first {
				s.master, s.ivm, _ = crypt.NewMasterKey(cryptVersion)
				s.user = name
			} else {
				key, salt, _ = crypt.DeriveKey(cryptVersion, []byte("pw-"+name))
			}
			tm++
			s.log = append(s.log, txlogs.Tx{Time: tm, Kind: txlogs.TxAdd, UUID: id})
			set(s, id, "name", "user/"+name)
			wrap(s, id, key, salt)
		}
		change := func(s *vSide, what string, side string) string {
			did := ""
			switch what {
			case "edit":
				if !emptyBase {
					set(s, "e0", "k"+side, fmt.Sprint(tm))
					did = "edits"
				}
			case "password":
				s.pass = "pw" + side + fmt.Sprint(v.rng.Intn(99))
				s.key, s.salt, _ = crypt.DeriveKey(cryptVersion, []byte(s.pass))
				did = "changes the passphrase"
				if len(s.master) > 0 {
					wrap(s, "u-"+s.user, s.key, s.salt)
				}
			case "multi":
				if len(s.master) == 0 {
					user(s, "u-ann"+side, "ann"+side, true)
					// the entry's name tells the uuid
					did = "becomes multi-user"
				}
			case "rekey":
				if len(s.master) > 0 {
					s.master, s.ivm, _ = crypt.NewMasterKey(cryptVersion)
					for n := range vRecords(s.log) {
						key, salt, _ := crypt.DeriveKey(cryptVersion, []byte("re"+side+n))
						if n == s.user {
							s.pass, s.key, s.salt = "re"+side+n, key, salt
						}
						id := "u-" + n
						wrap(s, id, key, salt)
					}
					did = "rekeys everybody"
				}
			case "adduser":
				if len(s.master) > 0 {
					n := "bob" + side
					if _, ok := vRecords(s.log)[n]; !ok {
						user(s, "u-"+n, n, false)
						did = "adds a user"
					}
				}
			case "single":
				if len(s.master) > 0 && len(vRecords(s.log)) == 1 {
					tm++
					s.log = append(s.log, txlogs.Tx{Time: tm, Kind: txlogs.TxDelete, UUID: "u-" + s.user})
					s.master, s.ivm = nil, nil
					s.user = ""
					did = "becomes single-user"
				}
			}
			return did
		}
		if v.rng.Intn(2) == 0 && !emptyBase {
			user(&base, "u-ann", "ann", true)
			dbg = append(dbg, "shared multi-user")
			for v.rng.Intn(3) == 0 {
				if d := change(&base, "adduser", ""); d == "" {
					break
				}
			}
		}
		whats := []string{"edit", "password", "multi", "rekey", "adduser", "single", "password", "rekey"}
		n := 1 + v.rng.Intn(3)
		if v.rng.Intn(10) == 0 {
			n = 0
		}
		sides := make([]vSide, n+1)
		for k := range sides {
			sides[k] = base
			sides[k].log = vCopyTx(base.log)
		}
		for k := v.rng.Intn(5); k > 0; k-- {
			at := v.rng.Intn(len(sides))
			if d := change(&sides[at], whats[v.rng.Intn(len(whats))], fmt.Sprint(at)); d != "" {
				dbg = append(dbg, fmt.Sprintf("side %d %s", at, d))
			}
		}
		if v.rng.Intn(8) == 0 && n > 0 {
			r := &sides[1+v.rng.Intn(n)]
			if len(r.master) == 0 {
				r.log = nil
				dbg = append(dbg, "a remote with an empty log")
			}
		}
		answers := v.rng.Intn(3)
		asked := 0
		u := vUI(&vEditor{answer: func(p string, _ bool) (string, error) {
			switch {
			case strings.Contains(p, "remote credentials"):
				asked++
				if answers == 2 && v.rng.Intn(3) == 0 {
					return "", io.EOF
				}
				return []string{"y", "n", "y"}[answers], nil
			case strings.Contains(p, "anyway"):
				if answers == 2 {
					return "n", nil
				}
				return "y", nil
			case strings.Contains(p, "estore"):
				return []string{"r", "d", "r"}[answers], nil
			}
			return "", io.EOF
		}})
		l := sides[0]
		u.user, u.pass, u.key, u.salt, u.master, u.ivm = l.user, l.pass, l.key, l.salt, l.master, l.ivm
		u.store = blobformat.Blobs{DB: &txlogs.DB{Log: vCopyTx(l.log)}}
		var parts []blobParts
		for k, r := range sides[1:] {
			parts = append(parts, r.parts(fmt.Sprint("remote", k)))
		}
		desc := fmt.Sprintf("%d remotes: %s; answers %d", n, strings.Join(dbg, ", "), answers)
		v.run(desc + fmt.Sprint(i))
		v.guard("crash", desc, func() {
			m, err := mergeBlobs(u, parts)
			now := vSide{u.user, u.pass, u.key, u.salt, u.master, u.ivm, nil}
			if now.creds() != l.creds() || !vLogEq(u.store.DB.Log, l.log) {
				v.fail("session", "merging itself changed the session: %s", desc)
			}
			if err != nil {
				return
			}
			got := vSide{m.User, m.Pass, m.Key, m.Salt, m.Master, m.IVM, nil}
			from := -1
			for k, s := range sides {
				if s.creds() == got.creds() {
					from = k
					break
				}
			}
			if from < 0 {
				v.fail("mixture", "the credentials after merging are those of no side: %s: %s", got.creds(), desc)
				return
			}
			if n == 0 && from != 0 {
				v.fail("mixture", "without remotes the credentials changed: %s", desc)
			}
			if n != 1 {
				return
			}
			// with one remote it is known who should win
			r := sides[1]
			last := func(l []txlogs.Tx) int64 {
				if len(l) == 0 {
					return -1
				}
				return l[len(l)-1].Time
			}
			recs := vRecords(m.Log)
			same := func(w vSide) bool { return w.creds() == got.creds() }
			switch {
			case len(l.master) == 0 && len(r.master) == 0:
				if bytes.Equal(l.key, r.key) {
					if !same(l) {
						v.fail("winner", "the keys are equal but the credentials changed: %s", desc)
					}
					return
				}
				switch {
				case last(l.log) < last(r.log) && !same(r):
					v.fail("winner", "the remote changed later, its credentials should win: %s", desc)
				case last(l.log) > last(r.log) && !same(l):
					v.fail("winner", "the local file changed later, its credentials should win: %s", desc)
				case last(l.log) == last(r.log) && asked == 0:
					v.fail("winner", "both changed at the same time, the user was not asked: %s", desc)
				case last(l.log) == last(r.log) && same(r) != (answers != 1):
					v.fail("winner", "the user decided otherwise: %s", desc)
				}
			case len(l.master) > 0 && len(r.master) > 0:
				if bytes.Equal(l.master, r.master) {
					if !same(l) {
						v.fail("winner", "the master keys are equal but the credentials changed: %s", desc)
					}
					return
				}
				lw := vRecords(l.log)[l.user][2] == recs[l.user][2]
				if lw != same(l) || !lw && !same(r) {
					v.fail("winner", "the local record survives: %v, the local credentials win: %v: %s", lw, same(l), desc)
				}
			default:
				// the kind of file that the merged log is decides
				if (len(recs) > 0) != (len(got.master) > 0) {
					v.fail("winner", "the merged log has %d users, the credentials are those of another kind of file: %s", len(recs), desc)
				}
			}
		})
	}
	v.done("up to three remotes that diverged from a shared file by edits, changed passphrases, added users, rekeying and conversions between single- and multi-user; empty logs; questions answered in several ways")
}
