package main

import (
	"bytes"
	"encoding/csv"
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"testing"

	"github.com/aarondl/bpass/blobformat"
	"github.com/aarondl/bpass/txlogs"
)

func TestVerifC22(t *testing.T) {
	v := vStart(t)
	dir := t.TempDir()
	oldF, oldN := flagExportFormat, flagExportFilename
	defer func() { flagExportFormat, flagExportFilename = oldF, oldN }()
	defer syscall.Umask(syscall.Umask(0))
	flagExportFormat = "CSV"
	text := func() string {
		return []string{"", "a", "x,y", "q\"uo\"te", "two\nlines", " space ", "üñí", "a;b", "1", "'", "\\", "=1+1", "#c"}[v.rng.Intn(13)]
	}
	for i := 0; i < v.n(3000) && v.more(); i++ {
		db := &txlogs.DB{}
		var ids []string
		for k, n := 0, v.rng.Intn(5); k < n; k++ {
			id, err := db.Add()
			if err != nil {
				t.Fatal(err)
			}
			ids = append(ids, id)
			db.Set(id, "name", fmt.Sprintf("n%d", k))
			for f := 0; f < v.rng.Intn(4); f++ {
				db.Set(id, []string{"user", "pass", "notes", "labels", "url", "odd key", "k,1"}[v.rng.Intn(7)], text())
			}
			if v.rng.Intn(3) == 0 {
				if err := db.UpdateSnapshot(); err != nil {
					t.Fatal(err)
				}
			}
			if v.rng.Intn(4) == 0 {
				db.DeleteKey(id, "user")
			}
			if v.rng.Intn(5) == 0 {
				db.Delete(id)
			}
		}
		u := vUI(vLines())
		u.store = blobformat.Blobs{DB: db}
		want := vReplayLog(db.Log)
		trace := fmt.Sprintf("log %s with a snapshot of version %d", vLogFmt(db.Log), db.Version)
		v.run(trace)
		flagExportFilename = filepath.Join(dir, fmt.Sprintf("out%d.csv", v.rng.Intn(3)))
		if v.rng.Intn(2) == 0 {
			os.Remove(flagExportFilename)
		}
		if v.rng.Intn(4) == 0 {
			ioutil.WriteFile(flagExportFilename, bytes.Repeat([]byte("old,"), 500), 0644)
			os.Chmod(flagExportFilename, 0644)
		}
		var err error
		if !v.guard("crash", trace, func() { err = export(u) }) {
			break
		}
		if err != nil {
			v.fail("error", "exporting %s: %v", trace, err)
			break
		}
		if st, err := os.Stat(flagExportFilename); err != nil || st.Mode().Perm()&0077 != 0 {
			v.fail("mode", "the export is readable by others: %v", st.Mode())
			break
		}
		raw, err := ioutil.ReadFile(flagExportFilename)
		if err != nil {
			t.Fatal(err)
		}
		rec, err := csv.NewReader(bytes.NewReader(raw)).ReadAll()
		if err != nil {
			v.fail("malformed", "exporting %s gave %q: %v", trace, raw, err)
			break
		}
		if len(want) == 0 {
			if len(rec) > 1 {
				v.fail("rows", "exporting the empty store of %s gave %q", trace, raw)
			}
			continue
		}
		cols := map[string]bool{}
		for _, e := range want {
			for k := range e {
				cols[k] = true
			}
		}
		if len(rec) != len(want)+1 {
			v.fail("rows", "exporting %d entries of %s gave %d rows", len(want), trace, len(rec)-1)
			break
		}
		head := map[string]bool{}
		for _, h := range rec[0] {
			head[h] = true
		}
		if len(head) != len(rec[0]) || fmt.Sprint(vKeys(head)) != fmt.Sprint(vKeys(cols)) {
			v.fail("heading", "exporting %s gave the columns %q", trace, rec[0])
			break
		}
		var got, exp []string
		for _, r := range rec[1:] {
			m := map[string]string{}
			for k, h := range rec[0] {
				m[h] = r[k]
			}
			got = append(got, vRow(m, cols))
		}
		for _, e := range want {
			exp = append(exp, vRow(e, cols))
		}
		sort.Strings(got)
		sort.Strings(exp)
		if strings.Join(got, "\n") != strings.Join(exp, "\n") {
			v.fail("fields", "exporting %s gave %q", trace, rec)
			break
		}
	}

	// import, from a stand-in for the lastpass client
	data := filepath.Join(dir, "data")
	if err := ioutil.WriteFile(filepath.Join(dir, "lpass"), []byte("#!/bin/sh\nexec /bin/cat '"+data+"'\n"), 0700); err != nil {
		t.Fatal(err)
	}
	oldPath := os.Getenv("PATH")
	os.Setenv("PATH", dir)
	defer os.Setenv("PATH", oldPath)
	for i := 0; i < v.n(150) && v.more(); i++ {
		var b bytes.Buffer
		w := csv.NewWriter(&b)
		w.Write([]string{"url", "username", "password", "extra", "name", "grouping", "fav"})
		var recs [][]string
		for k := 0; k < v.rng.Intn(5); k++ {
			r := []string{text(), text(), text(), text(), []string{"A", "a", "My Site", "my_site", "b"}[v.rng.Intn(5)], []string{"", "Work", "home"}[v.rng.Intn(3)], []string{"0", "1", ""}[v.rng.Intn(3)]}
			if v.rng.Intn(15) == 0 {
				// a record that looks like the heading
				r = []string{"url", "username", "password", "extra", "name", "grouping", "fav"}
			}
			recs = append(recs, r)
			w.Write(r)
		}
		w.Flush()
		if err := ioutil.WriteFile(data, b.Bytes(), 0600); err != nil {
			t.Fatal(err)
		}
		db := &txlogs.DB{}
		u := vUI(vLines("y"))
		u.created = v.rng.Intn(2) == 0
		u.store = blobformat.Blobs{DB: db}
		if v.rng.Intn(2) == 0 {
			id, _ := db.Add()
			db.Set(id, "name", "a")
			db.Set(id, "updated", "1")
		}
		pre := vReplayLog(db.Log)
		trace := fmt.Sprintf("importing %q into %s", b.String(), vLogFmt(db.Log))
		v.run(trace)
		var err error
		if !v.guard("import crash", trace, func() { err = importLastpass(u) }) {
			break
		}
		if err != nil {
			v.fail("import error", "%s: %v", trace, err)
			break
		}
		post := vReplayLog(db.Log)
		var got, exp []string
		names := map[string]bool{}
		for id, e := range post {
			if names[e["name"]] {
				v.fail("import name", "%s: two entries are named %q", trace, e["name"])
			}
			names[e["name"]] = true
			if p, ok := pre[id]; ok {
				if fmt.Sprint(p) != fmt.Sprint(e) {
					v.fail("import changes", "%s changed an existing entry to %q", trace, e)
				}
				continue
			}
			got = append(got, fmt.Sprintf("%q %q %q %q %q %q", strings.TrimRight(e["name"], "1"), e["url"], e["user"], e["pass"], e["notes"], e["labels"]))
		}
		for _, r := range recs {
			lb := []string{}
			if r[5] != "" {
				lb = append(lb, strings.ToLower(r[5]))
			}
			if r[6] == "1" {
				lb = append(lb, "lpfav")
			}
			exp = append(exp, fmt.Sprintf("%q %q %q %q %q %q", strings.ReplaceAll(strings.ToLower(r[4]), " ", "_"), r[0], r[1], r[2], r[3], strings.Join(lb, ",")))
		}
		sort.Strings(got)
		sort.Strings(exp)
		if strings.Join(got, "\n") != strings.Join(exp, "\n") {
			v.fail("import entries", "%s added %q", trace, got)
			break
		}
	}
	v.done("random histories with any cache state and fields with commas, quotes and line breaks, exported over missing, existing and readable files; random lastpass records imported")
}

func vKeys(m map[string]bool) []string {
	var s []string
	for k := range m {
		s = append(s, k)
	}
	sort.Strings(s)
	return s
}

func vRow(m map[string]string, cols map[string]bool) string {
	var s []string
	for _, k := range vKeys(cols) {
		s = append(s, fmt.Sprintf("%q=%q", k, m[k]))
	}
	return strings.Join(s, " ")
}
