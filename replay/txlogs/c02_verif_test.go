package txlogs

import (
	"errors"
	"fmt"
	"testing"
)

func TestVerifC02(t *testing.T) {
	v := vStart(t)
	for i := 0; i < v.n(4000) && v.more(); i++ {
		db := &DB{Log: vRandLog(v.rng, v.rng.Intn(10), v.rng.Intn(4) == 0)}
		if v.rng.Intn(2) == 0 {
			_ = db.UpdateSnapshot()
		}
		if v.rng.Intn(2) == 0 {
			// spare capacity that a rollback might write into
			l := make([]Tx, len(db.Log), len(db.Log)+v.rng.Intn(8))
			copy(l, db.Log)
			db.Log = l
		}
		begin := vCopyLog(db.Log)
		trace := "begin at " + vFmt(begin) + fmt.Sprintf(" version %d", db.Version)
		v.run(fmt.Sprintf("%s #%d", trace, i))
		var ids []string
		for _, x := range begin {
			ids = append(ids, x.UUID)
		}
		body := func() {
			for s, n := 0, v.rng.Intn(8); s < n; s++ {
				u := "u9"
				if len(ids) > 0 {
					u = ids[v.rng.Intn(len(ids))]
				}
				switch v.rng.Intn(7) {
				case 0:
					u, _ = db.Add()
					ids = append(ids, u)
					trace += "; Add"
				case 1, 2:
					db.Set(u, vPickKey(v.rng), "v")
					trace += "; Set"
				case 3:
					db.Delete(u)
					trace += "; Delete"
				case 4:
					db.DeleteKey(u, vPickKey(v.rng))
					trace += "; DeleteKey"
				case 5:
					k := uint(v.rng.Intn(3))
					room := uint(len(db.Log) - len(begin))
					l := vCopyLog(db.Log)
					err := db.RollbackN(k)
					trace += fmt.Sprintf("; RollbackN %d = %v", k, err)
					if k <= room && (err != nil || !vSameLog(db.Log, l[:len(l)-int(k)])) {
						v.fail("rollbackn-in-tx", "%s: %s", trace, vFmt(db.Log))
					}
					if err != nil && !vSameLog(db.Log, l) {
						v.fail("rollbackn-failed", "%s changed the log to %s", trace, vFmt(db.Log))
					}
				default:
					_ = db.UpdateSnapshot()
					trace += "; UpdateSnapshot"
				}
				if _, err := db.Save(); err == nil {
					v.fail("save-open", "saved while a transaction was open: %s", trace)
				}
			}
		}
		snap := func() {
			if db.Version > uint(len(db.Log)) {
				v.fail("snapshot", "version %d beyond the log of %d: %s", db.Version, len(db.Log), trace)
				return
			}
			m, n := vReplay(db.Log[:db.Version])
			if n != int(db.Version) || !vSame(m, db.Snapshot) {
				v.fail("snapshot", "snapshot %v at version %d of %s after %s", db.Snapshot, db.Version, vFmt(db.Log), trace)
			}
		}
		switch v.rng.Intn(4) {
		case 0: // begin, rollback
			v.guard("panic", trace, func() {
				db.Begin()
				if !vPanics(db.Begin) {
					v.fail("begin-twice", "a second Begin was accepted: %s", trace)
				}
				body()
				db.Rollback()
				trace += "; Rollback"
				if !vSameLog(db.Log, begin) {
					v.fail("rollback", "%s left %s", trace, vFmt(db.Log))
				}
				snap()
				if _, err := db.Save(); err != nil {
					v.fail("save-closed", "Save = %v after %s", err, trace)
				}
			})
		case 1: // begin, commit
			v.guard("panic", trace, func() {
				db.Begin()
				body()
				l := vCopyLog(db.Log)
				db.Commit()
				trace += "; Commit"
				if !vSameLog(db.Log, l) {
					v.fail("commit", "%s changed the log from %s to %s", trace, vFmt(l), vFmt(db.Log))
				}
				if len(l) >= len(begin) && !vSameLog(l[:len(begin)], begin) {
					v.fail("commit-prefix", "%s changed what came before", trace)
				}
				snap()
			})
		case 2: // Do
			v.guard("panic", trace, func() {
				fail := v.rng.Intn(2) == 0
				boom := errors.New("boom")
				var l []Tx
				err := db.Do(func() error {
					body()
					l = vCopyLog(db.Log)
					if fail {
						return boom
					}
					return nil
				})
				trace += fmt.Sprintf("; Do fail %v", fail)
				if fail && (err != boom || !vSameLog(db.Log, begin)) {
					v.fail("do-failed", "%s = %v left %s", trace, err, vFmt(db.Log))
				}
				if !fail && (err != nil || !vSameLog(db.Log, l)) {
					v.fail("do-ok", "%s = %v left %s", trace, err, vFmt(db.Log))
				}
				snap()
				if _, err := db.Save(); err != nil {
					v.fail("save-closed", "Save = %v after %s", err, trace)
				}
			})
		default:
			v.guard("panic", trace, func() {
				if !vPanics(db.Commit) || !vPanics(db.Rollback) {
					v.fail("end-without-begin", "Commit or Rollback without Begin was accepted: %s", trace)
				}
				if !vSameLog(db.Log, begin) {
					v.fail("end-without-begin", "changed the log: %s", trace)
				}
				n := uint(v.rng.Intn(len(begin) + 3))
				ver, sn := db.Version, vCopySnap(db.Snapshot)
				err := db.RollbackN(n)
				trace += fmt.Sprintf("; RollbackN %d = %v", n, err)
				switch {
				case n > uint(len(begin)):
					if err == nil || !vSameLog(db.Log, begin) || db.Version != ver || !vSame(toState(sn), db.Snapshot) {
						v.fail("rollbackn-past", "%s: %s", trace, vFmt(db.Log))
					}
				case err != nil || !vSameLog(db.Log, begin[:len(begin)-int(n)]):
					v.fail("rollbackn", "%s: %s", trace, vFmt(db.Log))
				}
				snap()
			})
		}
		// later operations must not see remains of what was rolled back
		v.guard("after-panic", trace, func() {
			l := vCopyLog(db.Log)
			db.Set("u0", "k", "v")
			if !vSameLog(db.Log[:len(l)], l) || db.Log[len(l)].Kind != TxSetKey {
				v.fail("after", "appending after %s gives %s", trace, vFmt(db.Log))
			}
		})
	}
	v.done("random logs and bodies inside Begin/Rollback, Begin/Commit, Do and RollbackN, compared with copies of the log")
}

func toState(s map[string]Entry) vState {
	m := vState{}
	for k, e := range s {
		m[k] = map[string]string(e)
	}
	return m
}
