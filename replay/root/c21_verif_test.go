package main

import (
	"bytes"
	"fmt"
	"io"
	"io/ioutil"
	"os"
	"os/signal"
	"path/filepath"
	"syscall"
	"testing"

	"github.com/aarondl/bpass/blobformat"
	"github.com/aarondl/bpass/crypt"
	"github.com/aarondl/bpass/txlogs"
)

func TestVerifC21(t *testing.T) {
	v := vStart(t)
	dir := t.TempDir()
	oldFile := flagFile
	defer func() { flagFile = oldFile }()
	signal.Ignore(syscall.SIGXFSZ)
	defer syscall.Umask(syscall.Umask(0))
	key, salt, err := crypt.DeriveKey(cryptVersion, []byte("pw"))
	if err != nil {
		t.Fatal(err)
	}
	cwd, _ := os.Getwd()
	defer os.Chdir(cwd)
	decode := func(b []byte) (string, error) {
		_, _, pt, err := crypt.Decrypt(nil, []byte("pw"), key, salt, b)
		return string(pt), err
	}
	for i := 0; i < v.n(250) && v.more(); i++ {
		sub, err := ioutil.TempDir(dir, "d")
		if err != nil {
			t.Fatal(err)
		}
		u := vUI(vLines())
		u.pass, u.key, u.salt = "pw", key, salt
		db := &txlogs.DB{}
		u.store = blobformat.Blobs{DB: db}
		grow := func() {
			id, _ := db.Add()
			db.Set(id, "name", fmt.Sprint("n", len(db.Log)))
			db.Set(id, "notes", string(bytes.Repeat([]byte("x"), v.rng.Intn(4000))))
		}
		real := filepath.Join(sub, "store.blob")
		flagFile = real
		how := "plain file"
		mode := []os.FileMode{0600, 0644, 0666, 0400}[v.rng.Intn(4)]
		switch v.rng.Intn(4) {
		case 0:
			how = "relative name"
			os.Chdir(sub)
			flagFile = "store.blob"
		case 1:
			how = "symbolic link"
			flagFile = filepath.Join(sub, "link")
			if v.rng.Intn(2) == 0 {
				os.Symlink("store.blob", flagFile)
			} else {
				os.Symlink(real, flagFile)
			}
			if err := ioutil.WriteFile(real, nil, mode); err != nil {
				t.Fatal(err)
			}
		case 2:
			how = "existing file"
			if err := ioutil.WriteFile(real, []byte("something else"), mode); err != nil {
				t.Fatal(err)
			}
			os.Chmod(real, mode)
		}
		grow()
		trace := fmt.Sprintf("%s (mode %o)", how, mode)
		for step := 0; step < 4 && v.more(); step++ {
			before, beforeErr := ioutil.ReadFile(real)
			hold, holdErr := os.Open(real)
			want, err := db.Save()
			if err != nil {
				t.Fatal(err)
			}
			fault := step > 0 && v.rng.Intn(2) == 0
			limit := uint64(v.rng.Intn(len(before) + 1))
			var was syscall.Rlimit
			if fault {
				if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &was); err != nil {
					t.Fatal(err)
				}
				low := was
				low.Cur = limit
				if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &low); err != nil {
					t.Fatal(err)
				}
			}
			ok := v.guard("crash", trace, func() { err = u.saveBlob() })
			if fault {
				syscall.Setrlimit(syscall.RLIMIT_FSIZE, &was)
				trace += fmt.Sprintf(", a save with the disk full after %d bytes", limit)
			} else {
				trace += ", a save"
			}
			v.run(trace)
			if !ok {
				break
			}
			after, afterErr := ioutil.ReadFile(real)
			// a process that had the old file open still sees all of it: the save replaced
			// the file instead of rewriting it in place
			if holdErr == nil {
				seen, _ := io.ReadAll(hold)
				hold.Close()
				if !bytes.Equal(seen, before) {
					v.fail("rewritten in place", "%s: the old content was changed in place (%d bytes became %d), a crash in between loses it", trace, len(before), len(seen))
					break
				}
			}
			if err != nil {
				if !fault {
					v.fail("error", "%s: %v", trace, err)
					break
				}
				if !bytes.Equal(after, before) || (beforeErr == nil) != (afterErr == nil) {
					v.fail("failed save", "%s failed with %v and left %d bytes instead of the previous %d", trace, err, len(after), len(before))
					break
				}
				continue
			}
			if pt, derr := decode(after); afterErr != nil || derr != nil || pt != string(want) {
				v.fail("content", "%s reported success, but the file does not hold the store (%v, %v)", trace, afterErr, derr)
				break
			}
			if st, err := os.Stat(real); err != nil || st.Mode().Perm() != 0600 {
				v.fail("mode", "%s left the file with mode %v", trace, st.Mode())
				break
			}
			if flagFile != real {
				if b, err := ioutil.ReadFile(flagFile); err != nil || !bytes.Equal(b, after) {
					v.fail("name", "%s: the file under the name that was given was not replaced (%v)", trace, err)
					break
				}
			}
			grow()
		}
		os.Chdir(cwd)
	}
	v.done("files reached by plain name, relative name and symbolic link, with any mode, saved repeatedly, with the disk filling up at every offset")
}
