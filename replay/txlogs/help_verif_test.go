package txlogs

import (
	"errors"
	"fmt"
	"math/rand"
	"reflect"
)

// The reference model: maps rebuilt from scratch.
type vState map[string]map[string]string

func vApply(m vState, t Tx) error {
	_, ok := m[t.UUID]
	switch t.Kind {
	case "add":
		if ok {
			return errors.New("exists")
		}
		m[t.UUID] = map[string]string{}
	case "del":
		if !ok {
			return errors.New("missing")
		}
		delete(m, t.UUID)
	case "setk":
		if !ok {
			return errors.New("missing")
		}
		m[t.UUID][t.Key] = t.Value
	case "delk":
		if !ok {
			return errors.New("missing")
		}
		delete(m[t.UUID], t.Key)
	}
	return nil
}

// vReplay replays log and reports how many transactions applied.
func vReplay(log []Tx) (vState, int) {
	m := vState{}
	for i, t := range log {
		if vApply(m, t) != nil {
			return m, i
		}
	}
	return m, len(log)
}

func vSame(m vState, s map[string]Entry) bool {
	if len(m) != len(s) {
		return false
	}
	for k, e := range m {
		f, ok := s[k]
		if !ok || f == nil || len(f) != len(e) {
			return false
		}
		for a, b := range e {
			c, ok := f[a]
			if !ok || c != b {
				return false
			}
		}
	}
	return true
}

// vShared: two entries with the same storage.
func vShared(s map[string]Entry) bool {
	seen := map[uintptr]bool{}
	for _, e := range s {
		p := reflect.ValueOf(e).Pointer()
		if e != nil && seen[p] {
			return true
		}
		seen[p] = true
	}
	return false
}

func vSameLog(a, b []Tx) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func vCopyLog(a []Tx) []Tx { return append([]Tx(nil), a...) }

func vCopySnap(s map[string]Entry) map[string]Entry {
	if s == nil {
		return nil
	}
	o := map[string]Entry{}
	for k, e := range s {
		c := Entry{}
		for a, b := range e {
			c[a] = b
		}
		o[k] = c
	}
	return o
}

func vFmt(log []Tx) string {
	s := "["
	for i, t := range log {
		if i > 0 {
			s += " "
		}
		u := t.UUID
		if len(u) > 6 {
			u = u[:6]
		}
		s += fmt.Sprintf("%d:%s:%s", t.Time, t.Kind, u)
		if t.Key != "" || t.Value != "" {
			s += fmt.Sprintf(":%q=%q", t.Key, t.Value)
		}
	}
	return s + "]"
}

var vKeys = []string{"name", "pass", "k", "", "a/b", "é"}

func vPickKey(r *rand.Rand) string { return vKeys[r.Intn(len(vKeys))] }

// vRandLog: a log that mostly applies.
func vRandLog(r *rand.Rand, n int, bad bool) []Tx {
	var log []Tx
	ids := []string{"u0", "u1", "u2"}
	alive := map[string]bool{}
	for i := 0; i < n; i++ {
		u := ids[r.Intn(len(ids))]
		t := Tx{Time: int64(i + 1), UUID: u}
		switch k := r.Intn(10); {
		case !alive[u] && !(bad && r.Intn(6) == 0):
			t.Kind = TxAdd
			alive[u] = true
		case k < 6:
			t.Kind, t.Key, t.Value = TxSetKey, vPickKey(r), fmt.Sprint("v", i)
		case k < 8:
			t.Kind, t.Key = TxDeleteKey, vPickKey(r)
		case k == 8 || !bad:
			t.Kind = TxDelete
			alive[u] = false
		default:
			t.Kind = []TxKind{TxAdd, "weird", TxDelete}[r.Intn(3)]
		}
		log = append(log, t)
	}
	return log
}
