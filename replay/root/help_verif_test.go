package main

import (
	"bytes"
	"fmt"
	"io"
	"io/ioutil"
	"math/rand"
	"sort"
	"strings"

	"github.com/aarondl/bpass/blobformat"
	"github.com/aarondl/bpass/txlogs"

	"github.com/aarondl/color"
)

// vEditor answers prompts from a function.
type vEditor struct {
	answer func(prompt string, hidden bool) (string, error)
	asked  int
}

func (e *vEditor) Line(p string) (string, error) {
	e.asked++
	if e.asked > 10000 {
		panic("asked more than 10000 questions")
	}
	return e.answer(p, false)
}
func (e *vEditor) LineHidden(p string) (string, error)     { e.asked++; return e.answer(p, true) }
func (e *vEditor) AddHistory(line string)                  {}
func (e *vEditor) SetEntryCompleter(func(string) []string) {}
func (e *vEditor) Close() error                            { return nil }

// vLines answers with fixed lines, then end of input.
func vLines(lines ...string) *vEditor {
	return &vEditor{answer: func(string, bool) (string, error) {
		if len(lines) == 0 {
			return "", io.EOF
		}
		l := lines[0]
		lines = lines[1:]
		return l, nil
	}}
}

var vOut bytes.Buffer

// vUI is a session that talks to e and prints nowhere.
func vUI(e *vEditor) *uiContext {
	vOut.Reset()
	color.Disable = true
	color.Writer = ioutil.Discard
	u := &uiContext{in: e, out: &vOut}
	u.store = blobformat.Blobs{DB: &txlogs.DB{}}
	return u
}

func vLogFmt(log []txlogs.Tx) string {
	var s []string
	for _, t := range log {
		s = append(s, fmt.Sprintf("%d:%s:%s:%q=%q", t.Time, t.Kind, t.UUID, t.Key, t.Value))
	}
	return "[" + strings.Join(s, " ") + "]"
}

func vLogEq(a, b []txlogs.Tx) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// vPair makes two sorted logs with a shared beginning in which no entry is touched after
// its own deletion, and in which equal times mean equal transactions.
func vPair(rng *rand.Rand) (a, b []txlogs.Tx) {
	times := rng.Perm(40)[:rng.Intn(9)]
	sort.Ints(times)
	dead := [2]map[string]bool{{}, {}}
	shared := rng.Intn(len(times) + 1)
	kinds := []txlogs.TxKind{txlogs.TxAdd, txlogs.TxSetKey, txlogs.TxSetKey, txlogs.TxDelete, txlogs.TxDelete, txlogs.TxDeleteKey}
	for i, tm := range times {
		t := txlogs.Tx{Time: int64(tm + 1), Kind: kinds[rng.Intn(len(kinds))], UUID: fmt.Sprintf("u%d", rng.Intn(3)), Key: "k", Value: fmt.Sprint(tm)}
		inA, inB := i < shared, i < shared
		if !inA {
			inA = rng.Intn(2) == 0
			inB = !inA
		}
		if inA && !dead[0][t.UUID] {
			a = append(a, t)
			dead[0][t.UUID] = t.Kind == txlogs.TxDelete
		}
		if inB && !dead[1][t.UUID] {
			b = append(b, t)
			dead[1][t.UUID] = t.Kind == txlogs.TxDelete
		}
	}
	return a, b
}

// vCapture sends what is printed in colour to b until restored.
func vCapture(b *bytes.Buffer) func() {
	color.Writer = b
	return func() { color.Writer = ioutil.Discard }
}

func vCopyTx(log []txlogs.Tx) []txlogs.Tx { return append([]txlogs.Tx(nil), log...) }

// vRecords are the user records of the store: user name to salt, iv and wrapped key in hex.
func vRecords(log []txlogs.Tx) map[string][3]string {
	m := map[string]map[string]string{}
	for _, t := range log {
		switch t.Kind {
		case txlogs.TxAdd:
			m[t.UUID] = map[string]string{}
		case txlogs.TxSetKey:
			if m[t.UUID] != nil {
				m[t.UUID][t.Key] = t.Value
			}
		case txlogs.TxDeleteKey:
			delete(m[t.UUID], t.Key)
		case txlogs.TxDelete:
			delete(m, t.UUID)
		}
	}
	r := map[string][3]string{}
	for _, e := range m {
		if strings.HasPrefix(e["name"], "user/") {
			r[e["name"][5:]] = [3]string{e["salt"], e["iv"], e["mkey"]}
		}
	}
	return r
}

// vReplayLog is the meaning of a log, written independently of the code under test.
func vReplayLog(log []txlogs.Tx) map[string]map[string]string {
	m := map[string]map[string]string{}
	for _, t := range log {
		switch t.Kind {
		case txlogs.TxAdd:
			m[t.UUID] = map[string]string{}
		case txlogs.TxDelete:
			delete(m, t.UUID)
		case txlogs.TxSetKey:
			m[t.UUID][t.Key] = t.Value
		case txlogs.TxDeleteKey:
			delete(m[t.UUID], t.Key)
		}
	}
	return m
}
