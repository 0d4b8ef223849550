package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"io"
	"sort"
	"strings"
	"testing"

	"github.com/aarondl/bpass/crypt"
)

func TestVerifC11(t *testing.T) {
	v := vStart(t)
	for i := 0; i < v.n(400) && v.more(); i++ {
		var queue []string
		ed := &vEditor{}
		ed.answer = func(string, bool) (string, error) {
			if len(queue) == 0 {
				return "", io.EOF
			}
			l := queue[0]
			queue = queue[1:]
			return l, nil
		}
		u := vUI(ed)
		known := map[string]string{} // passphrases
		key, salt, err := crypt.DeriveKey(cryptVersion, []byte("first"))
		if err != nil {
			v.fail("derive", "%v", err)
			break
		}
		u.key, u.salt, u.pass = key, salt, "first"
		single := "first"
		trace := "single-user file"
		for step := 0; step < 7 && v.more(); step++ {
			users := make([]string, 0)
			for n := range known {
				users = append(users, n)
			}
			sort.Strings(users)
			preLog := vCopyTx(u.store.DB.Log)
			pre := vRecords(preLog)
			preCreds := fmt.Sprintf("%s %s %x %x %x %x", u.user, u.pass, u.key, u.salt, u.master, u.ivm)
			name := []string{"ann", "bob", "cat", "dan"}[v.rng.Intn(4)]
			pass := fmt.Sprintf("new%d", v.rng.Intn(1000))
			badDialog := v.rng.Intn(8) == 0
			queue = []string{"m", pass, pass}
			switch {
			case badDialog && v.rng.Intn(2) == 0:
				queue, pass = []string{"m", "", ""}, ""
			case badDialog:
				queue = queue[:v.rng.Intn(3)]
			}
			var op string
			target := ""
			multi := len(u.master) > 0
			var opErr error
			expectAll := false
			ok := v.guard("crash", trace+" then a user-management operation", func() {
				switch v.rng.Intn(7) {
				case 0, 1:
					op = "adduser " + name
					opErr = u.adduser(name)
					_, had := known[name]
					if opErr == nil && !had && !(badDialog && multi) {
						if multi {
							known[name] = pass
						} else {
							known[name] = single
						}
						target = name
					}
				case 2, 3:
					arg := name
					if v.rng.Intn(3) == 0 {
						arg = ""
					}
					op = fmt.Sprintf("passwd %q", arg)
					opErr = u.passwd(arg)
					if !badDialog && opErr == nil {
						if multi {
							target = arg
							if arg == "" {
								target = u.user
							}
							if _, had := known[target]; had {
								known[target] = pass
							} else {
								target = ""
							}
						} else if arg == "" {
							single = pass
						}
					}
				case 4, 5:
					arg := name
					if v.rng.Intn(3) == 0 {
						arg = ""
					}
					op = fmt.Sprintf("rekey %q", arg)
					self := arg == "" || arg == u.user
					opErr = u.rekey(arg)
					if multi {
						if arg == "" {
							arg = u.user
						}
						_, had := known[arg]
						if had && (self || !badDialog) && opErr == nil {
							target = arg
							if !self {
								known[arg] = pass
							} else if len(queue) < 3 && !badDialog {
								// a new passphrase was asked for
								known[arg] = pass
							}
						}
					}
				case 6:
					op = "rekeyall"
					queue = []string{"y"}
					if badDialog {
						queue = []string{"n"}
					}
					vOut.Reset()
					opErr = u.rekeyAll()
					expectAll = multi && !badDialog
				}
			})
			trace += ", " + op
			if badDialog {
				trace += " (dialog aborted)"
			}
			v.run(trace + fmt.Sprint(i))
			if !ok {
				break
			}
			if opErr != nil && !badDialog {
				v.fail("error", "%s failed: %v", trace, opErr)
				break
			}
			post := vRecords(u.store.DB.Log)
			if _, _, in := v.sameRecords(pre, post, target, expectAll); !in {
				v.fail("other user", "%s changed the record of somebody else: before %v, after %v", trace, pre, post)
				break
			}
			if len(post) != len(known) {
				v.fail("users", "%s: the users are %v, not %v", trace, post, known)
				break
			}
			postCreds := fmt.Sprintf("%s %s %x %x %x %x", u.user, u.pass, u.key, u.salt, u.master, u.ivm)
			if multi && target == "" && !expectAll {
				if preCreds != postCreds || !vLogEq(preLog, u.store.DB.Log) {
					v.fail("unknown user", "%s should have changed nothing, but did", trace)
					break
				}
			}
			if !multi && len(u.master) == 0 {
				// still a single-user file, the session must know the passphrase
				if u.pass != single {
					v.fail("session", "%s: the session believes that the passphrase is %q, it is %q", trace, u.pass, single)
					break
				}
			}
			if expectAll {
				// the new passphrases are only printed, so the session's own is all that is known
				for n := range known {
					if n == u.user {
						known[n] = u.pass
					} else {
						delete(known, n)
					}
				}
				if pre[u.user] == post[u.user] {
					v.fail("rekeyall", "%s did not change the record of %s", trace, u.user)
				}
			}
			// what will be written
			params, err := u.makeParams()
			if err != nil {
				v.fail("save", "%s: the file cannot be saved any more: %v", trace, err)
				break
			}
			vParams(v, u, params, post, trace)
			pt := []byte("the content")
			ct, err := crypt.Encrypt(cryptVersion, params, pt)
			if err != nil {
				v.fail("save", "%s: the file cannot be saved any more: %v", trace, err)
				break
			}
			if len(post) == 0 {
				_, _, got, err := crypt.Decrypt(nil, []byte(single), nil, nil, ct)
				if err != nil || !bytes.Equal(got, pt) {
					v.fail("locked out", "%s: the passphrase %q no longer opens the file: %v", trace, single, err)
					break
				}
				continue
			}
			bad := false
			for n, p := range known {
				_, _, got, err := crypt.Decrypt([]byte(n), []byte(p), nil, nil, ct)
				if err != nil || !bytes.Equal(got, pt) {
					v.fail("locked out", "%s: the passphrase %q of %s no longer opens the file: %v", trace, p, n, err)
					bad = true
				}
			}
			if u.user != "" {
				_, _, got, err := crypt.Decrypt([]byte(u.user), nil, u.key, u.salt, ct)
				if err != nil || !bytes.Equal(got, pt) {
					v.fail("session", "%s: the session's cached key does not open the file as %s: %v", trace, u.user, err)
					bad = true
				}
				if p, ok := known[u.user]; ok && p != u.pass {
					v.fail("session", "%s: the session believes that its passphrase is %q, it is %q", trace, u.pass, p)
					bad = true
				}
			}
			if bad || expectAll {
				break
			}
		}
	}
	// all users are rekeyed: each one's new passphrase (as generated) opens the file
	for i := 0; i < v.n(40) && v.more(); i++ {
		u := vUI(vLines("y"))
		u.pass = "first"
		u.key, u.salt, _ = crypt.DeriveKey(cryptVersion, []byte("first"))
		u.adduser("ann")
		n := 1 + v.rng.Intn(3)
		for k := 1; k < n; k++ {
			u.in = vLines("m", "pw", "pw")
			u.adduser(fmt.Sprintf("user%d", k))
		}
		oldMaster := append([]byte(nil), u.master...)
		pre := vRecords(u.store.DB.Log)
		u.in = vLines("y")
		var printed bytes.Buffer
		desc := fmt.Sprintf("rekeyall of %d users", n)
		v.run(desc + fmt.Sprint(i))
		v.guard("crash", desc, func() {
			restore := vCapture(&printed)
			err := u.rekeyAll()
			restore()
			if err != nil {
				v.fail("rekeyall", "%s: %v", desc, err)
				return
			}
			post := vRecords(u.store.DB.Log)
			if bytes.Equal(oldMaster, u.master) {
				v.fail("rekeyall", "%s keeps the master key", desc)
			}
			params, err := u.makeParams()
			if err != nil {
				v.fail("save", "%s: %v", desc, err)
				return
			}
			vParams(v, u, params, post, desc)
			ct, err := crypt.Encrypt(cryptVersion, params, []byte("x"))
			if err != nil {
				v.fail("save", "%s: %v", desc, err)
				return
			}
			for name := range post {
				if pre[name] == post[name] {
					v.fail("rekeyall", "%s did not rekey %s", desc, name)
				}
				pass := ""
				for _, l := range strings.Split(printed.String(), "\n") {
					f := strings.Fields(l)
					if len(f) == 2 && f[0] == name+":" {
						pass = f[1]
					}
				}
				if pass == "" {
					v.fail("rekeyall", "%s does not tell the passphrase of %s: %q", desc, name, printed.String())
					continue
				}
				if _, _, _, err := crypt.Decrypt([]byte(name), []byte(pass), nil, nil, ct); err != nil {
					v.fail("locked out", "%s: the passphrase printed for %s does not open the file: %v", desc, name, err)
				}
			}
		})
	}
	v.done("random histories of adding users, changing passwords and rekeying, from a single-user file on, with aborted dialogs and unknown users; the file is encrypted and opened as every user after each step")
}

func (v *vRep) sameRecords(pre, post map[string][3]string, target string, all bool) (map[string][3]string, map[string][3]string, bool) {
	for n, r := range pre {
		if n != target && !all && post[n] != r {
			return pre, post, false
		}
	}
	for n := range post {
		if _, ok := pre[n]; !ok && n != target {
			return pre, post, false
		}
	}
	return pre, post, true
}

// vParams: the parameters line up every user's name, salt, iv, wrapped key and own key.
func vParams(v *vRep, u *uiContext, p *crypt.Params, recs map[string][3]string, trace string) {
	if len(recs) == 0 {
		if p.NUsers != 0 || len(p.Keys) != 1 || len(p.Salts) != 1 || !bytes.Equal(p.Keys[0], u.key) || !bytes.Equal(p.Salts[0], u.salt) {
			v.fail("params", "%s: the parameters of a single-user file are not its key and salt", trace)
		}
		return
	}
	if p.NUsers != len(recs) || len(p.Users) != p.NUsers || len(p.Keys) != p.NUsers || len(p.Salts) != p.NUsers || len(p.IVs) != p.NUsers || len(p.MKeys) != p.NUsers {
		v.fail("params", "%s: the parameters are not those of %d users", trace, len(recs))
		return
	}
	if !bytes.Equal(p.Master, u.master) || !bytes.Equal(p.IVM, u.ivm) {
		v.fail("params", "%s: the parameters have another master key or iv than the session", trace)
	}
	for n, r := range recs {
		h := sha256.Sum256([]byte(n))
		at := -1
		for i := range p.Users {
			if bytes.Equal(p.Users[i], h[:]) {
				at = i
			}
		}
		if at < 0 {
			v.fail("params", "%s: the parameters lack the user %s", trace, n)
			continue
		}
		if hex.EncodeToString(p.Salts[at]) != r[0] || hex.EncodeToString(p.IVs[at]) != r[1] || hex.EncodeToString(p.MKeys[at]) != r[2] {
			v.fail("params", "%s: slot %d of the parameters is not the record of %s", trace, at, n)
		}
		if n == u.user && (p.User != at || !bytes.Equal(p.Keys[at], u.key)) {
			v.fail("params", "%s: the parameters do not have the session's key in the slot of %s", trace, n)
		}
		if n != u.user && len(p.Keys[at]) != 0 {
			v.fail("params", "%s: the parameters have a key in the slot of %s", trace, n)
		}
	}
}
