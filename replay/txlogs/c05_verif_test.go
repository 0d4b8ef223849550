package txlogs

import (
	"fmt"
	"testing"
)

func TestVerifC05(t *testing.T) {
	v := vStart(t)
	merge := func(a, b []Tx) (c []Tx, confs []Conflict, ok bool) {
		ka, kb := vCopyLog(a[:cap(a)]), vCopyLog(b[:cap(b)])
		ok = v.guard("crash", "Merge("+vFmt(a)+", "+vFmt(b)+")", func() { c, confs = Merge(a, b, nil) })
		if !vSameLog(a[:cap(a)], ka) || !vSameLog(b[:cap(b)], kb) {
			v.fail("inputs", "merging changed its inputs %s, %s", vFmt(ka), vFmt(kb))
		}
		return
	}
	for i := 0; i < v.n(40000) && v.more(); i++ {
		a, b := vHistory(v.rng, true)
		v.run(vFmt(a) + " | " + vFmt(b))
		c, confs, ok := merge(a, b)
		d, confs2, ok2 := merge(b, a)
		if !ok || !ok2 {
			continue
		}
		u := vUnion(a, b)
		pending := len(a) > 0 && len(b) > 0 && a[0].Time != b[0].Time || len(vRaces(u)) > 0
		if pending {
			if len(confs) == 0 || len(confs2) == 0 || c != nil || d != nil {
				v.fail("conflict", "merging %s with %s gave %s without asking", vFmt(a), vFmt(b), vFmt(c))
			}
		} else {
			if len(confs) != 0 || len(confs2) != 0 {
				v.fail("spurious", "merging %s with %s reported %v %v", vFmt(a), vFmt(b), confs, confs2)
			} else if !vSameLog(c, u) || !vSameLog(d, u) {
				v.fail("union", "merging %s with %s gave %s and %s, want %s", vFmt(a), vFmt(b), vFmt(c), vFmt(d), vFmt(u))
			}
		}
		if i%4 == 0 {
			n := 0
			if len(a) > 0 {
				n = v.rng.Intn(len(a) + 1)
			}
			p := append([]Tx(nil), a[:n]...)
			for k, pr := range [][2][]Tx{{a, a}, {a, p}, {p, a}, {a, nil}, {nil, a}, {a, {}}} {
				c, confs, ok := merge(pr[0], pr[1])
				if ok && (len(confs) != 0 || !vSameLog(c, a)) {
					v.fail("prefix", "merging (%d) %s with %s gave %s, conflicts %v", k, vFmt(pr[0]), vFmt(pr[1]), vFmt(c), confs)
				}
			}
		}
	}
	// anything at all, with any decisions: no crash, nothing invented
	for i := 0; i < v.n(8000) && v.more(); i++ {
		a, b := vRandLog(v.rng, v.rng.Intn(6), true), vRandLog(v.rng, v.rng.Intn(6), true)
		for j := range a {
			a[j].Time = int64(v.rng.Intn(6))
		}
		for j := range b {
			b[j].Time = int64(v.rng.Intn(6))
		}
		v.run("any " + vFmt(a) + " | " + vFmt(b))
		v.guard("crash", "Merge("+vFmt(a)+", "+vFmt(b)+")", func() {
			var resolved []Conflict
			for round := 0; round < 12; round++ {
				c, confs := Merge(a, b, resolved)
				for _, x := range c {
					found := false
					for _, y := range append(append([]Tx(nil), a...), b...) {
						found = found || x == y
					}
					if !found {
						v.fail("invented", "merging %s with %s invented %v", vFmt(a), vFmt(b), x)
					}
				}
				if len(confs) == 0 {
					break
				}
				for k := range confs {
					if confs[k].Kind == ConflictKindRoot {
						confs[k].Force()
					} else if v.rng.Intn(2) == 0 {
						confs[k].DiscardInitial()
					} else {
						confs[k].DiscardConflict()
					}
				}
				resolved = append(resolved, confs...)
			}
		})
	}
	v.done(fmt.Sprint("pairs of sorted logs with a shared beginning, late shared transactions, three entries and up to ten transactions, compared with the union computed from scratch; both orders, prefixes, empty logs; arbitrary logs for crashes"))
}
