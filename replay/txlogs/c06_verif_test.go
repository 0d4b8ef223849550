package txlogs

import (
	"fmt"
	"testing"
)

func TestVerifC06(t *testing.T) {
	v := vStart(t)
	for i := 0; i < v.n(40000) && v.more(); i++ {
		a, b := vHistory(v.rng, true)
		u := vUnion(a, b)
		desc := vFmt(a) + " with " + vFmt(b)
		v.run(desc)
		v.guard("crash", desc, func() {
			restored, kept := map[int64]bool{}, map[int64]bool{}
			var resolved []Conflict
			force := false
			root := len(a) > 0 && len(b) > 0 && a[0].Time != b[0].Time
			for round := 0; ; round++ {
				if round > 12 {
					v.fail("endless", "merging %s does not finish when answered: %v", desc, resolved)
					return
				}
				given := append([]Conflict(nil), resolved...)
				c, confs := Merge(a, b, resolved)
				open := vRaces(u)
				for tm := range open {
					if restored[tm] || kept[tm] {
						delete(open, tm)
					}
				}
				// what was already decided to be dropped cannot race again
				left := vRaces(vOutcome(u, restored, kept))
				noted := map[int64]bool{}
				for k, cf := range confs {
					switch cf.Kind {
					case ConflictKindRoot:
						if !root || force || k != 0 || cf.Initial.Time == cf.Conflict.Time {
							v.fail("root", "unexpected root conflict at %d merging %s", k, desc)
						}
					case ConflictKindDeleteSet:
						if cf.Initial.Kind != TxDelete || cf.Initial.UUID != cf.Conflict.UUID || cf.Initial.Time >= cf.Conflict.Time || open[cf.Initial.Time] != cf.Initial {
							v.fail("spurious", "conflict %v is none, merging %s after %v", cf, desc, given)
						}
						if noted[cf.Initial.Time] {
							v.fail("twice", "conflict %v reported twice merging %s", cf, desc)
						}
						noted[cf.Initial.Time] = true
					default:
						v.fail("kind", "conflict of kind %d merging %s", cf.Kind, desc)
					}
				}
				if root && !force && (len(confs) == 0 || confs[0].Kind != ConflictKindRoot) {
					v.fail("root", "unrelated histories joined without asking: %s", desc)
				}
				for tm, d := range left {
					if !noted[tm] {
						v.fail("silent", "delete %v raced silently merging %s after %v: %v", d, desc, given, confs)
					}
				}
				if len(confs) > 0 && c != nil {
					v.fail("result", "a log and conflicts merging %s", desc)
				}
				if len(confs) == 0 {
					if want := vOutcome(u, restored, kept); !vSameLog(c, want) {
						v.fail("decision", "merging %s after %v gave %s, want %s", desc, given, vFmt(c), vFmt(want))
					}
					return
				}
				// not deciding gives the same questions again
				if round == 0 && v.rng.Intn(3) == 0 {
					half := append([]Conflict(nil), confs...)
					for k := range half {
						if k > 0 {
							half[k].DiscardConflict()
						}
					}
					c2, confs2 := Merge(a, b, half)
					if c2 != nil || len(confs2) != len(half) {
						v.fail("undecided", "an undecided conflict was passed over merging %s", desc)
					}
				}
				for k := range confs {
					switch {
					case confs[k].Kind == ConflictKindRoot:
						confs[k].Force()
						force = true
					case v.rng.Intn(2) == 0:
						confs[k].DiscardInitial()
						restored[confs[k].Initial.Time] = true
					default:
						confs[k].DiscardConflict()
						kept[confs[k].Initial.Time] = true
					}
				}
				resolved = append(resolved, confs...)
			}
		})
	}
	v.done(fmt.Sprint("pairs of sorted logs in which no entry is touched after its own deletion, every conflict answered at random until the merge finishes, each round compared with the races computed from the union"))
}
