package txlogs

import (
	"fmt"
	"math"
	"reflect"
	"testing"
	"unicode/utf8"
)

func TestVerifC04(t *testing.T) {
	v := vStart(t)
	str := func() string {
		if v.rng.Intn(6) == 0 {
			return ""
		}
		var rs []rune
		for i, n := 0, v.rng.Intn(8); i < n; i++ {
			switch v.rng.Intn(6) {
			case 0:
				rs = append(rs, rune(v.rng.Intn(32)))
			case 1:
				rs = append(rs, []rune("<>&\"\\/'\u2028\u2029\u00e9\U0001F600\ufffd\x7f")[v.rng.Intn(13)])
			case 2:
				r := rune(v.rng.Intn(0x10ffff))
				if utf8.ValidRune(r) {
					rs = append(rs, r)
				}
			default:
				rs = append(rs, rune('a'+v.rng.Intn(26)))
			}
		}
		return string(rs)
	}
	for i := 0; i < v.n(6000) && v.more(); i++ {
		db := &DB{}
		if v.rng.Intn(2) == 0 {
			db.Log = vRandLog(v.rng, v.rng.Intn(8), false)
			for j := range db.Log {
				db.Log[j].Time = v.rng.Int63()
			}
			if v.rng.Intn(3) > 0 {
				_ = db.UpdateSnapshot()
				for _, e := range db.Snapshot {
					if e == nil {
						t.Fatal("nil entry")
					}
				}
				db.Log = append(db.Log, Tx{Time: 5, Kind: TxAdd, UUID: str()})
			}
		} else {
			for j, n := 0, v.rng.Intn(6); j < n; j++ {
				db.Log = append(db.Log, Tx{Time: []int64{0, -1, 1 << 53, 1<<53 + 1, math.MaxInt64, math.MinInt64, v.rng.Int63()}[v.rng.Intn(7)], Kind: TxKind(str()), UUID: str(), Key: str(), Value: str()})
			}
			db.Version = uint(v.rng.Uint64() >> uint(v.rng.Intn(64)))
			if v.rng.Intn(2) == 0 {
				db.Snapshot = map[string]Entry{}
				for j, n := 0, v.rng.Intn(4); j < n; j++ {
					e := Entry{}
					for k, m := 0, v.rng.Intn(3); k < m; k++ {
						e[str()] = str()
					}
					db.Snapshot[str()] = e
				}
			}
		}
		log, snap, ver := vCopyLog(db.Log), vCopySnap(db.Snapshot), db.Version
		desc := fmt.Sprintf("version %d %s snapshot %q", ver, vFmt(log), snap)
		v.run(desc)
		v.guard("crash", desc, func() {
			data, err := db.Save()
			if err != nil {
				v.fail("save", "saving %s failed: %v", desc, err)
				return
			}
			if !vSameLog(db.Log, log) || db.Version != ver || len(db.Snapshot) != len(snap) {
				v.fail("save-changes", "saving changed %s", desc)
			}
			ld, err := New(data)
			if err != nil || ld == nil {
				v.fail("load", "loading %s failed: %v from %q", desc, err, data)
				return
			}
			if !vSameLog(ld.Log, log) {
				v.fail("log", "%s came back as %s", desc, vFmt(ld.Log))
			}
			if ld.Version != ver {
				v.fail("version", "%s came back at version %d", desc, ld.Version)
			}
			if len(ld.Snapshot) != len(snap) || len(snap) > 0 && !reflect.DeepEqual(ld.Snapshot, snap) {
				v.fail("snapshot", "%s came back with %q", desc, ld.Snapshot)
			}
			only, err := NewLog(data)
			if err != nil || !vSameLog(only, log) {
				v.fail("newlog", "the log of %s came back as %s, %v", desc, vFmt(only), err)
			}
			again, err := ld.Save()
			if err != nil || string(again) != string(data) && len(snap) > 0 {
				v.fail("again", "saving %s a second time gave %q instead of %q, %v", desc, again, data, err)
			}
			// damaged data
			if len(data) > 2 {
				cut := data[:v.rng.Intn(len(data))]
				if d, err := New(cut); err == nil {
					v.fail("truncated", "%q was loaded as %v", cut, d)
				}
				if d, err := NewLog(cut); err == nil {
					v.fail("truncated", "%q was loaded as %v", cut, d)
				}
				bent := append([]byte(nil), data...)
				bent[v.rng.Intn(len(bent))] ^= byte(1 << uint(v.rng.Intn(8)))
				if d, err := New(bent); err == nil && d == nil {
					v.fail("nil", "%q was loaded as a nil store", bent)
				}
				_, _ = NewLog(bent)
			}
		})
	}
	for _, bad := range []string{"", " ", "nul", "[]", "5", "\"x\"", "true", "{", "{}}", "{} {}", "{\"log\":5}", "{\"log\":{}}", "{\"log\":[5]}", "{\"log\":[{\"time\":\"x\"}]}", "{\"log\":[{\"time\":1.5}]}", "{\"log\":[{\"uuid\":5}]}", "{\"log\":[{\"key\":{}}]}", "{\"log\":[{\"time\":9223372036854775808}]}"} {
		v.run("malformed " + bad)
		v.guard("crash", bad, func() {
			if d, err := New([]byte(bad)); err == nil || d != nil {
				v.fail("malformed", "%q was loaded as %v, %v", bad, d, err)
			}
			if d, err := NewLog([]byte(bad)); err == nil || d != nil {
				v.fail("malformed", "the log of %q was loaded as %v, %v", bad, d, err)
			}
		})
	}
	for _, bad := range []string{"{\"version\":-1}", "{\"version\":\"1\"}", "{\"snapshot\":[]}", "{\"snapshot\":{\"u\":5}}", "{\"snapshot\":{\"u\":{\"k\":5}}}"} {
		v.run("malformed " + bad)
		if d, err := New([]byte(bad)); err == nil || d != nil {
			v.fail("malformed", "%q was loaded as %v, %v", bad, d, err)
		}
	}
	for _, odd := range []string{"null", "{}", "{\"log\":null}", "{\"log\":[null]}", "{\"snapshot\":{\"u\":null}}"} {
		v.run("odd " + odd)
		v.guard("crash", odd, func() {
			if d, err := New([]byte(odd)); err == nil && d == nil {
				v.fail("nil", "%q was loaded as a nil store", odd)
			} else if err == nil {
				d.UpdateSnapshot()
				_, _ = d.Save()
			}
			_, _ = NewLog([]byte(odd))
		})
	}
	v.done("random stores (any times, versions and valid UTF-8 strings; consistent and arbitrary snapshots) saved and loaded, truncated and bent data, malformed and odd documents")
}
