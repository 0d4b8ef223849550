package txlogs

import (
	"fmt"
	"testing"
)

func TestVerifC03(t *testing.T) {
	v := vStart(t)
	for i := 0; i < v.n(4000) && v.more(); i++ {
		log := vRandLog(v.rng, v.rng.Intn(14), v.rng.Intn(3) == 0)
		for j := range log {
			if v.rng.Intn(5) == 0 {
				log[j].Time = int64(v.rng.Intn(7)) - 3
			}
		}
		db := &DB{Log: vCopyLog(log)}
		if v.rng.Intn(2) == 0 {
			_ = db.UpdateSnapshot()
		}
		ver, snap := db.Version, vCopySnap(db.Snapshot)
		desc := vFmt(log)
		for back := -3; back <= len(log)+3; back++ {
			id := fmt.Sprintf("SnapshotAt(%d) of %s", back, desc)
			v.run(id)
			v.guard("snapshotat-panic", id, func() {
				s, err := db.SnapshotAt(back)
				if back < 0 || back > len(log) {
					if err == nil {
						v.fail("snapshotat-range", "%s = %v", id, s)
					}
					return
				}
				m, n := vReplay(log[:len(log)-back])
				if (err == nil) != (n == len(log)-back) {
					v.fail("snapshotat-err", "%s: %v", id, err)
				}
				if err == nil && (!vSame(m, s) || vShared(s)) {
					v.fail("snapshotat", "%s = %v, want %v", id, s, m)
				}
				// the result is the caller's: writing to it must not reach the store
				for _, e := range s {
					e["scribble"] = "x"
				}
				if s != nil {
					delete(s, "u0")
				}
			})
		}
		for _, u := range []string{"u0", "u1", "u2", "u3"} {
			var own []Tx
			last := int64(-1)
			for _, x := range log {
				if x.UUID == u {
					own = append(own, x)
					last = x.Time
				}
			}
			if n := db.NVersions(u); n != len(own) {
				v.fail("nversions", "NVersions(%s) = %d, want %d: %s", u, n, len(own), desc)
			}
			if l := db.LastUpdated(u); l != last {
				v.fail("lastupdated", "LastUpdated(%s) = %d, want %d: %s", u, l, last, desc)
			}
			for back := -3; back <= len(own)+2; back++ {
				id := fmt.Sprintf("EntrySnapshotAt(%s, %d) of %s", u, back, desc)
				v.run(id)
				v.guard("entryat-panic", id, func() {
					e, err := db.EntrySnapshotAt(u, back)
					if back < 0 || back > len(own) {
						if err == nil {
							v.fail("entryat-range", "%s = %v", id, e)
						}
						return
					}
					m, n := vReplay(own[:len(own)-back])
					w, ok := m[u]
					if n != len(own)-back || !ok {
						if err == nil {
							v.fail("entryat-err", "%s = %v", id, e)
						}
						return
					}
					if err != nil && back < len(own) {
						v.fail("entryat-refused", "%s: %v", id, err)
					}
					if err == nil && !vSame(vState{u: w}, map[string]Entry{u: e}) {
						v.fail("entryat", "%s = %v, want %v", id, e, w)
					}
					if e != nil {
						e["scribble"] = "x"
					}
				})
			}
		}
		if !vSameLog(log, db.Log) || db.Version != ver || !vSame(toState03(snap), db.Snapshot) {
			v.fail("changed", "queries changed the store of %s", desc)
		}
	}
	v.done("every version (and impossible ones) of random logs, whole store and single entries, against replays from scratch")
}

func toState03(s map[string]Entry) vState {
	m := vState{}
	for k, e := range s {
		m[k] = map[string]string(e)
	}
	return m
}
