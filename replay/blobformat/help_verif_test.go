package blobformat

import (
	"fmt"
	"math/rand"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/aarondl/bpass/txlogs"
)

// vState is what the log alone says.
func vState(db *txlogs.DB) map[string]map[string]string {
	m := map[string]map[string]string{}
	for _, t := range db.Log {
		switch t.Kind {
		case txlogs.TxAdd:
			m[t.UUID] = map[string]string{}
		case txlogs.TxSetKey:
			if m[t.UUID] != nil {
				m[t.UUID][t.Key] = t.Value
			}
		case txlogs.TxDeleteKey:
			delete(m[t.UUID], t.Key)
		case txlogs.TxDelete:
			delete(m, t.UUID)
		}
	}
	return m
}

func vClone(m map[string]map[string]string) map[string]map[string]string {
	o := map[string]map[string]string{}
	for u, e := range m {
		o[u] = map[string]string{}
		for k, x := range e {
			o[u][k] = x
		}
	}
	return o
}

// vDiff tells the fields in which the states differ, as "entry.field"; the timestamp is
// left out when skipUpdated is given.
func vDiff(a, b map[string]map[string]string, skipUpdated bool) (d []string) {
	for u, e := range a {
		if _, ok := b[u]; !ok {
			d = append(d, u+" is gone")
			continue
		}
		for k, x := range e {
			if y, ok := b[u][k]; (!ok || x != y) && !(skipUpdated && k == KeyUpdated) {
				d = append(d, fmt.Sprintf("%s.%s was %q is %q", u, k, x, y))
			}
		}
	}
	for u, e := range b {
		if _, ok := a[u]; !ok {
			d = append(d, u+" is new")
			continue
		}
		for k := range e {
			if _, ok := a[u][k]; !ok && !(skipUpdated && k == KeyUpdated) {
				d = append(d, fmt.Sprintf("%s.%s is new", u, k))
			}
		}
	}
	sort.Strings(d)
	return d
}

// vTouched: the entry's timestamp was set to a time not before since.
func vTouched(db *txlogs.DB, uuid string, from int, since time.Time) bool {
	val := ""
	for _, t := range db.Log[from:] {
		if t.Kind == txlogs.TxSetKey && t.UUID == uuid && t.Key == KeyUpdated {
			val = t.Value
		}
	}
	n, err := strconv.ParseInt(val, 10, 64)
	return err == nil && n >= since.UnixNano() && n <= time.Now().UnixNano()
}

func vNames(m map[string]map[string]string) (dup string) {
	seen := map[string]bool{}
	for _, e := range m {
		n, ok := e[KeyName]
		if !ok {
			return "(an entry without a name)"
		}
		if seen[n] {
			return n
		}
		seen[n] = true
	}
	return ""
}

// vStore makes a store with n entries with the given names and some fields.
func vStore(rng *rand.Rand, names ...string) (b Blobs, uuids []string) {
	db := &txlogs.DB{}
	b = Blobs{DB: db}
	for i, n := range names {
		u := fmt.Sprintf("id%02d", i)
		uuids = append(uuids, u)
		add := func(k txlogs.TxKind, key, val string) {
			db.Log = append(db.Log, txlogs.Tx{Time: int64(len(db.Log) + 1), Kind: k, UUID: u, Key: key, Value: val})
		}
		add(txlogs.TxAdd, "", "")
		add(txlogs.TxSetKey, KeyUpdated, "1")
		add(txlogs.TxSetKey, KeyName, n)
		for k := 0; k < rng.Intn(3); k++ {
			add(txlogs.TxSetKey, []string{KeyUser, KeyPass, KeyNotes}[k], fmt.Sprint(rng.Intn(100)))
		}
	}
	if rng.Intn(2) == 0 {
		b.UpdateSnapshot()
	}
	return b, uuids
}

func vStateFmt(m map[string]map[string]string) string {
	var us []string
	for u, e := range m {
		var ks []string
		for k, x := range e {
			if k != KeyUpdated {
				ks = append(ks, fmt.Sprintf("%s=%q", k, x))
			}
		}
		sort.Strings(ks)
		us = append(us, u+"{"+strings.Join(ks, " ")+"}")
	}
	sort.Strings(us)
	return strings.Join(us, " ")
}
