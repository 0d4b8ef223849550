package main

import (
	"bytes"
	"fmt"
	"io"
	"io/ioutil"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/aarondl/bpass/blobformat"
	"github.com/aarondl/bpass/crypt"
	"github.com/aarondl/bpass/txlogs"
)

func vSameState(a map[string]txlogs.Entry, b map[string]map[string]string) bool {
	if len(a) != len(b) {
		return false
	}
	for u, e := range b {
		g, ok := a[u]
		if !ok || len(g) != len(e) {
			return false
		}
		for k, v := range e {
			if w, ok := g[k]; !ok || w != v {
				return false
			}
		}
	}
	return true
}

func TestVerifC20(t *testing.T) {
	v := vStart(t)
	dir := t.TempDir()
	// nothing is launched
	os.Setenv("PATH", dir)
	os.Setenv("EDITOR", filepath.Join(dir, "none"))
	os.Setenv("VISUAL", filepath.Join(dir, "none"))
	stdout := os.Stdout
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = null
		defer func() { os.Stdout = stdout; null.Close() }()
	}
	oldFile, oldTime := flagFile, historyTime
	defer func() { flagFile, historyTime = oldFile, oldTime }()
	flagFile = filepath.Join(dir, "store.blob")
	remote := filepath.Join(dir, "remote.blob")
	key, salt, err := crypt.DeriveKey(cryptVersion, []byte("pw"))
	if err != nil {
		t.Fatal(err)
	}
	var names []string
	for c := range replCmds {
		if c != "exit" && c != "quit" {
			names = append(names, c)
		}
	}
	sort.Strings(names)
	safe := []string{}
	for _, c := range names {
		if replCmds[c].ReadOnly {
			safe = append(safe, c)
		}
	}

	for i := 0; i < v.n(1500) && v.more(); i++ {
		// a log with increasing, equal and stepping-back times
		db := &txlogs.DB{}
		now := int64(1000000000 * (1 + v.rng.Intn(5)))
		together := false // an entry and its name appear at the same instant
		put := func(x txlogs.Tx) {
			if together {
				x.Time = now
				db.Log = append(db.Log, x)
				return
			}
			now += int64(v.rng.Intn(4)-1) * 1000000007
			if v.rng.Intn(4) == 0 {
				now += int64(v.rng.Intn(3))
			}
			x.Time = now
			db.Log = append(db.Log, x)
		}
		live := []string{}
		for k := 0; k < v.rng.Intn(4); k++ {
			u := fmt.Sprintf("00000000-0000-4000-8000-00000000000%d", k)
			live = append(live, u)
			put(txlogs.Tx{Kind: txlogs.TxAdd, UUID: u})
			together = true
			put(txlogs.Tx{Kind: txlogs.TxSetKey, UUID: u, Key: "updated", Value: "1600000000000000000"})
			if k == 2 {
				put(txlogs.Tx{Kind: txlogs.TxSetKey, UUID: u, Key: "name", Value: "sync/file"})
				put(txlogs.Tx{Kind: txlogs.TxSetKey, UUID: u, Key: "sync", Value: "true"})
				put(txlogs.Tx{Kind: txlogs.TxSetKey, UUID: u, Key: "url", Value: "file://" + remote})
			} else {
				put(txlogs.Tx{Kind: txlogs.TxSetKey, UUID: u, Key: "name", Value: fmt.Sprintf("n%d", k)})
			}
			together = false
		}
		for k := 0; k < v.rng.Intn(8) && len(live) > 0; k++ {
			u := live[v.rng.Intn(len(live))]
			f := []string{"pass", "user", "labels", "notes", "email", "url2", "totp"}[v.rng.Intn(7)]
			if v.rng.Intn(4) == 0 {
				put(txlogs.Tx{Kind: txlogs.TxDeleteKey, UUID: u, Key: f})
			} else {
				put(txlogs.Tx{Kind: txlogs.TxSetKey, UUID: u, Key: f, Value: fmt.Sprintf("a,b%d", k)})
			}
		}
		if v.rng.Intn(2) == 0 {
			if err := db.UpdateSnapshot(); err != nil {
				t.Fatal(err)
			}
		}
		pt, err := db.Save()
		if err != nil {
			t.Fatal(err)
		}
		ct, err := crypt.Encrypt(cryptVersion, &crypt.Params{Keys: [][]byte{key}, Salts: [][]byte{salt}}, pt)
		if err != nil {
			t.Fatal(err)
		}
		if err := ioutil.WriteFile(flagFile, ct, 0600); err != nil {
			t.Fatal(err)
		}
		os.Remove(remote)
		remoteWas := []byte(nil)
		if v.rng.Intn(2) == 0 {
			remoteWas = ct
			if err := ioutil.WriteFile(remote, ct, 0600); err != nil {
				t.Fatal(err)
			}
		}

		when := now + int64(v.rng.Intn(7)-3)*1000000007
		if len(db.Log) > 0 && v.rng.Intn(2) == 0 {
			when = db.Log[v.rng.Intn(len(db.Log))].Time + int64(v.rng.Intn(3)-1)
		}
		historyTime = time.Unix(0, when)
		want := vCopyTx(db.Log)
		for k, x := range want {
			if x.Time > when {
				want = want[:k]
				break
			}
		}
		trace := fmt.Sprintf("file %s opened at %d", vLogFmt(db.Log), when)

		v.run(trace)
		// the past is read-only
		ed := &vEditor{}
		u := vUI(ed)
		u.store = blobformat.Blobs{}
		u.readOnly = true
		ed.answer = func(string, bool) (string, error) { return "pw", nil }
		ok := v.guard("crash opening", trace, func() {
			err = u.loadBlob()
		})
		if !ok {
			continue
		}
		if err != nil {
			v.fail("opening", "%s: %v", trace, err)
			continue
		}
		if !vLogEq(u.store.DB.Log, want) {
			v.fail("history", "%s shows %s", trace, vLogFmt(u.store.DB.Log))
			continue
		}
		if err := u.store.UpdateSnapshot(); err != nil || !vSameState(u.store.DB.Snapshot, vReplayLog(want)) {
			v.fail("history state", "%s shows the state %v (%v)", trace, u.store.DB.Snapshot, err)
			continue
		}
		lines := []string{}
		for k := 0; k < 6; k++ {
			lines = append(lines, vCommand(v, names))
		}
		said := strings.Join(lines, "; ")
		ed.answer = func(p string, hidden bool) (string, error) {
			if len(lines) > 0 && strings.Contains(p, u.shortFilename) && !strings.Contains(p, "passphrase") && !hidden {
				l := lines[0]
				lines = lines[1:]
				return l, nil
			}
			if len(lines) == 0 {
				return "", ErrEnd
			}
			return []string{"y", "n", "pw", "", "1"}[v.rng.Intn(5)], nil
		}
		ed.asked = 0
		r := &repl{ctx: u}
		ok = v.guard("crash in read-only mode", trace+", then: "+said, func() {
			for len(lines) > 0 {
				if err := r.run(); err != nil && err == ErrEnd {
					break
				}
			}
			if err := u.saveBlob(); err != nil {
				v.fail("saving", "%s, then %s, then saving fails: %v", trace, said, err)
			}
		})
		if !ok {
			continue
		}
		if !vLogEq(u.store.DB.Log, want) {
			v.fail("read-only change", "%s, then %s, left %s", trace, said, vLogFmt(u.store.DB.Log))
		}
		if got, _ := ioutil.ReadFile(flagFile); !bytes.Equal(got, ct) {
			v.fail("file written", "%s, then %s, then saving: the file has changed", trace, said)
		}
		if got, err := ioutil.ReadFile(remote); !bytes.Equal(got, remoteWas) || os.IsNotExist(err) != (remoteWas == nil) {
			v.fail("remote written", "%s, then %s: the remote file has changed", trace, said)
		}

		// a command that is marked as safe changes nothing in any mode
		u2 := vUI(&vEditor{})
		u2.store = blobformat.Blobs{DB: &txlogs.DB{Log: vCopyTx(db.Log)}}
		u2.user, u2.pass, u2.key, u2.salt = "", "pw", key, salt
		u2.in.(*vEditor).answer = func(string, bool) (string, error) {
			if v.rng.Intn(12) == 0 {
				return "", ErrEnd
			}
			return []string{"y", "n", "pw", "", "1", "x"}[v.rng.Intn(6)], nil
		}
		r2 := &repl{ctx: u2}
		if v.rng.Intn(3) == 0 {
			r2.ctxEntry = []string{"n0", "n1"}[v.rng.Intn(2)]
		}
		for k := 0; k < 10; k++ {
			line := vCommand(v, safe)
			f := strings.Fields(line)
			c := replCmds[f[0]]
			if !c.ReadOnly {
				continue
			}
			u2.in.(*vEditor).asked = 0
			if !v.guard("crash in "+f[0], vLogFmt(u2.store.DB.Log)+" then "+line, func() {
				if err := c.Run(r2, f[0], f[1:]); err != nil && err != io.EOF && err != ErrEnd && err != errExit {
					_ = err
				}
			}) {
				break
			}
			if !vLogEq(u2.store.DB.Log, db.Log) {
				v.fail("safe command changes "+f[0], "%q, marked as safe in read-only mode, changed the log from %s to %s", line, vLogFmt(db.Log), vLogFmt(u2.store.DB.Log))
				break
			}
		}
	}
	os.Stdout = stdout
	v.done("random files with logs whose times rise, repeat and step back, opened at random instants around them; random command sequences in read-only mode and every command marked as safe")
}

func vCommand(v *vRep, names []string) string {
	words := []string{names[v.rng.Intn(len(names))]}
	if v.rng.Intn(3) == 0 {
		// an entry, one of its fields or labels, and a value
		words = append(words, []string{"n0", "n0", "n1", "sync/file"}[v.rng.Intn(4)])
		if n := v.rng.Intn(4); n > 0 {
			words = append(words, []string{"a", "a", "b1", "pass", "user", "labels", "notes", "email", "totp", "fresh"}[v.rng.Intn(10)])
			if n > 1 {
				words = append(words, []string{"v", "a", "1", "https://a.b/c"}[v.rng.Intn(4)])
			}
		}
		return strings.Join(words, " ")
	}
	pool := []string{"n0", "n1", "n", "sync/file", "pass", "user", "labels", "notes", "1", "0", "-1", "99", "zz", "updated", "help", "new"}
	for k := 0; k < v.rng.Intn(4); k++ {
		words = append(words, pool[v.rng.Intn(len(pool))])
	}
	return strings.Join(words, " ")
}
