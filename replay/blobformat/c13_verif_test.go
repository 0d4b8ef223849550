package blobformat

import (
	"fmt"
	"sort"
	"strings"
	"testing"
)

func TestVerifC13(t *testing.T) {
	v := vStart(t)
	pool := []string{"red", "blue", "re", "red2", "green", "x", "RED"}
	for i := 0; i < v.n(12000) && v.more(); i++ {
		b, uuids := vStore(v.rng, "one", "two", "three")
		have := map[string][]string{}
		for _, u := range uuids {
			for k := 0; k < v.rng.Intn(5); k++ {
				have[u] = append(have[u], pool[v.rng.Intn(len(pool))])
			}
			if len(have[u]) > 0 {
				b.DB.Set(u, KeyLabels, strings.Join(have[u], ","))
			}
		}
		trace := fmt.Sprintf("labels %v", have)
		for step := 0; step < 5 && v.more(); step++ {
			pre := vClone(vState(b.DB))
			u := uuids[v.rng.Intn(len(uuids))]
			op := ""
			check := func(want []string) {
				post := vState(b.DB)
				if len(want) > 0 {
					pre[u][KeyLabels] = strings.Join(want, ",")
				} else {
					delete(pre[u], KeyLabels)
				}
				if x, ok := post[u][KeyLabels]; ok && x == "" {
					delete(post[u], KeyLabels)
				}
				if d := vDiff(pre, post, true); len(d) > 0 {
					v.fail(strings.SplitN(op, "(", 2)[0], "%s after %s: differs in %v", op, trace, d)
				}
			}
			ok := v.guard("crash", trace, func() {
				switch v.rng.Intn(3) {
				case 0:
					l := pool[v.rng.Intn(len(pool))]
					op = fmt.Sprintf("AddLabel(%s, %s)", u, l)
					if err := b.AddLabel(u, l); err != nil {
						v.fail("AddLabel", "%s after %s: %v", op, trace, err)
					}
					have[u] = append(have[u][:len(have[u]):len(have[u])], l)
					check(have[u])
				case 1:
					k := v.rng.Intn(len(have[u])+4) - 2
					switch v.rng.Intn(20) {
					case 0:
						k = 1 << 40
					case 1:
						k = -1 << 62
					}
					op = fmt.Sprintf("RemoveLabel(%s, %d)", u, k)
					err := b.RemoveLabel(u, k)
					if k < 0 || k >= len(have[u]) {
						// an entry without labels has the empty label at position 0
						if err == nil && !(k == 0 && len(have[u]) == 0) {
							v.fail("RemoveLabel", "%s after %s is not refused", op, trace)
						}
						check(have[u])
						return
					}
					if err != nil {
						v.fail("RemoveLabel", "%s after %s: %v", op, trace, err)
					}
					have[u] = append(append([]string(nil), have[u][:k]...), have[u][k+1:]...)
					check(have[u])
				case 2:
					var want []string
					for k := 0; k < v.rng.Intn(4); k++ {
						want = append(want, pool[v.rng.Intn(len(pool))])
					}
					op = fmt.Sprintf("SearchLabels(%v)", want)
					res, err := b.SearchLabels(want...)
					var exp []string
					for _, e := range uuids {
						all := true
						for _, w := range want {
							has := false
							for _, h := range have[e] {
								has = has || h == w
							}
							all = all && has
						}
						if all {
							exp = append(exp, e+"="+pre[e][KeyName])
						}
					}
					var got []string
					for e, n := range res {
						got = append(got, e+"="+n)
					}
					sort.Strings(exp)
					sort.Strings(got)
					if err != nil || strings.Join(exp, " ") != strings.Join(got, " ") {
						v.fail("SearchLabels", "%s after %s finds %v, want %v (%v)", op, trace, got, exp, err)
					}
					check(have[u])
				}
				e, err := b.Find(u)
				if err != nil || strings.Join(Blob(e).Labels(), ",") != strings.Join(have[u], ",") {
					v.fail("Labels", "the labels after %s %s are %v, want %v (%v)", trace, op, Blob(e).Labels(), have[u], err)
				}
			})
			trace += " " + op
			v.run(trace)
			if !ok {
				break
			}
		}
	}
	v.done("random histories of adding, removing and searching labels, duplicates included, positions from -2^62 to 2^40")
}
