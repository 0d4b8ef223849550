package main

import (
	"bytes"
	"fmt"
	"io"
	"io/ioutil"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/aarondl/bpass/blobformat"
	"github.com/aarondl/bpass/crypt"
	"github.com/aarondl/bpass/txlogs"
)

// A remote is a file in a scratch directory, in one of many states.
func TestVerifC18(t *testing.T) {
	v := vStart(t)
	scratch := os.Getenv("VERIF_SCRATCH")
	if scratch == "" {
		scratch = t.TempDir()
	}
	key, salt, err := crypt.DeriveKey(cryptVersion, []byte("pw"))
	if err != nil {
		t.Fatal(err)
	}
	key2, salt2, _ := crypt.DeriveKey(cryptVersion, []byte("other"))
	seal := func(k, s, pt []byte) []byte {
		ct, err := crypt.Encrypt(cryptVersion, &crypt.Params{Keys: [][]byte{k}, Salts: [][]byte{s}}, pt)
		if err != nil {
			t.Fatal(err)
		}
		return ct
	}
	for i := 0; i < v.n(4000) && v.more(); i++ {
		dir, err := ioutil.TempDir(scratch, "sync")
		if err != nil {
			t.Fatal(err)
		}
		type remote struct {
			path, kind string
			uuid       string
			before     []byte // nil: missing
			log        []txlogs.Tx
			fetched    bool // can be fetched, decrypted and parsed without being asked
			missing    bool
		}
		// the local log: entries, sync entries
		var log []txlogs.Tx
		add := func(id string, kv ...string) {
			log = append(log, txlogs.Tx{Time: int64(len(log) + 1), Kind: txlogs.TxAdd, UUID: id})
			for k := 0; k+1 < len(kv); k += 2 {
				log = append(log, txlogs.Tx{Time: int64(len(log) + 1), Kind: txlogs.TxSetKey, UUID: id, Key: kv[k], Value: kv[k+1]})
			}
		}
		add("e0", "name", "entry", "updated", "1", "user", "u")
		n := 1 + v.rng.Intn(3)
		var rem []*remote
		for k := 0; k < n; k++ {
			r := &remote{path: filepath.Join(dir, fmt.Sprintf("remote%d.blob", k)), uuid: fmt.Sprintf("s%d", k)}
			rem = append(rem, r)
			add(r.uuid, "name", fmt.Sprintf("sync/file%d", k), "updated", "1", "sync", "true", "url", "file://"+r.path)
		}
		shared := vCopyTx(log)
		local := vCopyTx(log)
		tm := int64(1000)
		grow := func(l []txlogs.Tx) []txlogs.Tx {
			for k := v.rng.Intn(3); k > 0; k-- {
				tm += int64(1 + v.rng.Intn(5))
				l = append(l, txlogs.Tx{Time: tm, Kind: txlogs.TxSetKey, UUID: "e0", Key: fmt.Sprintf("k%d", v.rng.Intn(3)), Value: fmt.Sprint(tm)})
			}
			return l
		}
		local = grow(local)
		var desc []string
		conflict, fork := false, false
		moved := -1
		for k, r := range rem {
			kinds := []string{"good", "good", "good", "same", "missing", "truncated", "corrupt", "password", "not json", "json null", "empty log", "empty file", "empty plaintext", "conflict", "fork", "directory", "moved", "sameends", "badlog"}
			r.kind = kinds[v.rng.Intn(len(kinds))]
			r.log = grow(vCopyTx(shared))
			db := func(l []txlogs.Tx) []byte {
				pt, err := (&txlogs.DB{Log: l}).Save()
				if err != nil {
					t.Fatal(err)
				}
				return pt
			}
			switch r.kind {
			case "good":
				r.before, r.fetched = seal(key, salt, db(r.log)), true
			case "same":
				r.log = vCopyTx(local)
				r.before, r.fetched = seal(key, salt, db(r.log)), true
			case "sameends":
				// as long as the local log, with the same first and last transaction
				if len(local) < len(shared)+2 {
					r.log = vCopyTx(local)
				} else {
					r.log = vCopyTx(local)
					x := &r.log[len(r.log)-2]
					x.Time--
					if x.Time <= r.log[len(r.log)-3].Time {
						x.Time++
					} else {
						x.Value = "elsewhere"
					}
				}
				r.before, r.fetched = seal(key, salt, db(r.log)), true
			case "missing":
				r.missing = true
				r.log = nil
			case "truncated":
				r.before = seal(key, salt, db(r.log))
				r.before = r.before[:v.rng.Intn(len(r.before))]
			case "corrupt":
				r.before = seal(key, salt, db(r.log))
				r.before[16+v.rng.Intn(len(r.before)-16)] ^= 0x40
			case "password":
				r.before = seal(key2, salt2, db(r.log))
			case "not json":
				r.before = seal(key, salt, []byte(`{"log": [`+fmt.Sprint(v.rng.Intn(9))))
			case "badlog":
				r.before = seal(key, salt, []byte(`{"version":0,"log":[1,2,"x"]}`))
			case "json null":
				r.before, r.log, r.fetched = seal(key, salt, []byte(`null`)), nil, true
			case "empty log":
				r.before, r.log, r.fetched = seal(key, salt, []byte(`{"version":0,"log":[]}`)), nil, true
			case "empty file":
				r.before = []byte{}
			case "empty plaintext":
				r.before = seal(key, salt, nil)
			case "conflict":
				// the remote deleted the entry, later it changed here
				tm += 2
				r.log = append(vCopyTx(shared), txlogs.Tx{Time: tm, Kind: txlogs.TxDelete, UUID: "e0"})
				tm += 2
				local = append(local, txlogs.Tx{Time: tm, Kind: txlogs.TxSetKey, UUID: "e0", Key: "late", Value: "x"})
				r.before, r.fetched = seal(key, salt, db(r.log)), true
				conflict = true
			case "fork":
				r.log = nil
				for _, x := range shared {
					x.Time += int64(500 + 100*k)
					x.UUID = fmt.Sprintf("f%d", k) + x.UUID
					r.log = append(r.log, x)
				}
				r.before, r.fetched = seal(key, salt, db(r.log)), true
				fork = true
			case "directory":
			case "moved":
				// the remote's log says that another remote is somewhere else
				tm += 3
				moved = v.rng.Intn(n)
				r.log = append(r.log, txlogs.Tx{Time: tm, Kind: txlogs.TxSetKey, UUID: rem[moved].uuid, Key: "url", Value: "file://" + filepath.Join(dir, "elsewhere.blob")})
				r.before, r.fetched = seal(key, salt, db(r.log)), true
			}
			desc = append(desc, fmt.Sprintf("%d:%s", k, r.kind))
		}
		for _, r := range rem {
			if r.kind == "directory" {
				os.Mkdir(r.path, 0o700)
			} else if !r.missing {
				ioutil.WriteFile(r.path, r.before, 0o600)
			}
		}
		elsewhere := filepath.Join(dir, "elsewhere.blob")
		ioutil.WriteFile(elsewhere, []byte("not to be overwritten"), 0o600)
		// how questions are answered
		mode := v.rng.Intn(3)
		typed := 0
		u := vUI(&vEditor{})
		aborted := false
		u.in = &vEditor{answer: func(p string, hidden bool) (string, error) {
			switch {
			case strings.Contains(p, "passphrase"):
				typed++
				if mode == 0 && typed%2 == 1 {
					return "other", nil
				}
				return "", nil
			case strings.Contains(p, "anyway"):
				if mode == 2 {
					aborted = true
					return "n", nil
				}
				return "y", nil
			case strings.Contains(p, "estore"):
				if mode == 2 {
					aborted = true
					return "", io.EOF
				}
				return []string{"r", "d"}[mode], nil
			case strings.Contains(p, "credentials"):
				return "n", nil
			}
			return "", io.EOF
		}}
		u.key, u.salt, u.pass = append([]byte(nil), key...), append([]byte(nil), salt...), "pw"
		u.store = blobformat.Blobs{DB: &txlogs.DB{Log: vCopyTx(local)}}
		push := v.rng.Intn(5) > 0
		d := fmt.Sprintf("remotes %v, %d local transactions after the shared ones, answers of kind %d, push %v", desc, len(local)-len(shared), mode, push)
		v.run(d + fmt.Sprint(i))
		var syncErr error
		ok := v.guard("crash", d, func() { syncErr = u.sync("", true, push) })
		if !ok {
			os.RemoveAll(dir)
			continue
		}
		if b, _ := ioutil.ReadFile(elsewhere); string(b) != "not to be overwritten" {
			v.fail("unpulled location", "a location that was never fetched was overwritten: %s", d)
		}
		merged := u.store.DB.Log
		if aborted || syncErr != nil {
			if aborted && !vLogEq(merged, local) {
				v.fail("aborted", "the local log changed although merging was aborted: %s", d)
			}
		}
		for k, r := range rem {
			after, err := ioutil.ReadFile(r.path)
			if r.kind == "directory" {
				continue
			}
			written := err == nil && (r.missing || !bytes.Equal(after, r.before))
			if !r.missing && err != nil {
				v.fail("vanished", "remote %d is gone: %s", k, d)
				continue
			}
			if !written {
				continue
			}
			switch {
			case !push:
				v.fail("no push", "remote %d was written although nothing should be pushed: %s", k, d)
			case aborted || syncErr != nil:
				v.fail("aborted", "remote %d was written although the merge failed: %s", k, d)
			case r.missing || r.fetched || r.kind == "password" && mode == 0:
			default:
				v.fail("unmerged", "remote %d could not be fetched, decrypted or parsed, and was overwritten: %s", k, d)
			}
			k2, s2 := u.key, u.salt
			_, _, pt, err := crypt.Decrypt(nil, []byte(u.pass), k2, s2, after)
			if err != nil {
				v.fail("content", "what was written to remote %d cannot be decrypted: %v: %s", k, err, d)
				continue
			}
			got, err := txlogs.NewLog(pt)
			if err != nil {
				v.fail("content", "what was written to remote %d cannot be parsed: %v: %s", k, err, d)
				continue
			}
			if !vLogEq(got, merged) {
				v.fail("content", "what was written to remote %d is not the merged store: %s", k, d)
			}
			// nothing that was at the remote is lost, unless a conflict was resolved
			if !conflict {
				have := map[txlogs.Tx]bool{}
				for _, x := range got {
					have[x] = true
				}
				for _, x := range r.log {
					if !have[x] {
						v.fail("lost", "a transaction of remote %d was overwritten without having been merged: %v: %s", k, x, d)
						break
					}
				}
			}
		}
		_ = fork
		// every remote that took part is in the local store
		if !aborted && syncErr == nil && !conflict {
			have := map[txlogs.Tx]bool{}
			for _, x := range merged {
				have[x] = true
			}
			for k, r := range rem {
				if !r.fetched {
					continue
				}
				for _, x := range r.log {
					if !have[x] {
						v.fail("not merged", "a transaction of remote %d is not in the merged store: %v: %s", k, x, d)
						break
					}
				}
			}
		}
		os.RemoveAll(dir)
	}
	v.done("one to three file remotes, each current, older, newer, missing, unreadable, corrupt, encrypted otherwise, malformed, conflicting, unrelated or pointing elsewhere; questions answered in several ways")
}
