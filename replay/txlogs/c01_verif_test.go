package txlogs

import (
	"errors"
	"fmt"
	"testing"
)

func TestVerifC01(t *testing.T) {
	v := vStart(t)
	check := func(db *DB, trace string) bool {
		if db.Version > uint(len(db.Log)) {
			v.fail("version", "version %d of a log of %d after %s", db.Version, len(db.Log), trace)
			return false
		}
		m, n := vReplay(db.Log[:db.Version])
		if n != int(db.Version) || !vSame(m, db.Snapshot) {
			v.fail("snapshot", "snapshot %v at version %d is not the replay %v of %s after %s", db.Snapshot, db.Version, m, vFmt(db.Log), trace)
			return false
		}
		if vShared(db.Snapshot) {
			v.fail("shared", "two entries share storage after %s", trace)
			return false
		}
		return true
	}
	update := func(db *DB, trace string) {
		before := vCopyLog(db.Log)
		_, n := vReplay(before)
		err := db.UpdateSnapshot()
		if !vSameLog(before, db.Log) {
			v.fail("update-log", "UpdateSnapshot changed the log after %s", trace)
		}
		if (err == nil) != (n == len(before)) {
			v.fail("update-err", "UpdateSnapshot = %v but %d of %d transactions apply: %s", err, n, len(before), vFmt(before))
		} else if int(db.Version) != n {
			v.fail("update-version", "UpdateSnapshot stopped at %d, not %d: %s after %s", db.Version, n, vFmt(before), trace)
		}
	}
	for i := 0; i < v.n(4000) && v.more(); i++ {
		db := &DB{}
		if v.rng.Intn(2) == 0 {
			db.Log = vRandLog(v.rng, v.rng.Intn(12), v.rng.Intn(3) == 0)
		}
		trace := fmt.Sprintf("start %s", vFmt(db.Log))
		var ids []string
		for _, x := range db.Log {
			ids = append(ids, x.UUID)
		}
		open := false
		id := func() string {
			if len(ids) == 0 || v.rng.Intn(15) == 0 {
				return "nowhere"
			}
			return ids[v.rng.Intn(len(ids))]
		}
		ok := v.guard("panic", "see trace", func() {
			for s := 0; s < 30; s++ {
				switch v.rng.Intn(14) {
				case 0, 1:
					u, err := db.Add()
					if err != nil || u == "" {
						v.fail("add", "Add = %q, %v", u, err)
					}
					ids = append(ids, u)
					trace += "; Add"
				case 2, 3, 4:
					u, k := id(), vPickKey(v.rng)
					db.Set(u, k, fmt.Sprint(s))
					trace += fmt.Sprintf("; Set %.6s %q", u, k)
				case 5:
					u := id()
					if v.rng.Intn(3) > 0 {
						continue
					}
					db.Delete(u)
					trace += fmt.Sprintf("; Delete %.6s", u)
				case 6:
					u, k := id(), vPickKey(v.rng)
					db.DeleteKey(u, k)
					trace += fmt.Sprintf("; DeleteKey %.6s %q", u, k)
				case 7:
					if !open {
						db.Begin()
						open = true
						trace += "; Begin"
					}
				case 8:
					if open {
						if v.rng.Intn(2) == 0 {
							db.Commit()
							trace += "; Commit"
						} else {
							db.Rollback()
							trace += "; Rollback"
						}
						open = false
					}
				case 9:
					if !open {
						fail := v.rng.Intn(2) == 0
						up := v.rng.Intn(2) == 0
						trace += fmt.Sprintf("; Do(fail %v, update %v)", fail, up)
						_ = db.Do(func() error {
							u, _ := db.Add()
							db.Set(u, "x", "y")
							if up {
								_ = db.UpdateSnapshot()
							}
							if fail {
								return errors.New("no")
							}
							return nil
						})
					}
				case 10:
					n := uint(v.rng.Intn(4))
					trace += fmt.Sprintf("; RollbackN %d", n)
					_ = db.RollbackN(n)
				case 11:
					if v.rng.Intn(4) == 0 {
						db.ResetSnapshot()
						trace += "; ResetSnapshot"
					}
				default:
					trace += "; UpdateSnapshot"
					update(db, trace)
				}
				if !check(db, trace) {
					return
				}
			}
		})
		if !ok {
			v.fail("panic", "panic after %s", trace)
		}
		v.run(trace)
	}
	v.done("random sequences of store operations (valid and invalid ids), with the snapshot compared to a replay from scratch after each")
}
