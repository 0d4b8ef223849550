package blobformat

import (
	"fmt"
	"sort"
	"strings"
	"testing"
	"unicode"
)

// vSub: the query's characters occur in the name in order.
func vSub(name, query string) bool {
	n, q := []rune(name), []rune(query)
	// best[j]: the first j characters of the query fit into what was seen of the name
	best := make([]bool, len(q)+1)
	best[0] = true
	for _, c := range n {
		for j := len(q); j > 0; j-- {
			if best[j-1] && (q[j-1] == c || q[j-1] == unicode.ToLower(c)) {
				best[j] = true
			}
		}
	}
	return best[len(q)]
}

func TestVerifC14(t *testing.T) {
	v := vStart(t)
	alpha := []string{"a", "b", "B", "A", "/", "é", "É", "1", "İ", "ß", " ", "K"}
	word := func(n int) string {
		var s strings.Builder
		for k := v.rng.Intn(n); k > 0; k-- {
			s.WriteString(alpha[v.rng.Intn(len(alpha))])
		}
		return s.String()
	}
	for i := 0; i < v.n(20000) && v.more(); i++ {
		var names []string
		for k := v.rng.Intn(6); k > 0; k-- {
			names = append(names, word(9))
		}
		b, uuids := vStore(v.rng, names...)
		q := word(5)
		if len(names) > 0 && v.rng.Intn(2) == 0 {
			// a query derived from a name
			n := []rune(names[v.rng.Intn(len(names))])
			var s []rune
			for _, c := range n {
				if v.rng.Intn(3) > 0 {
					if v.rng.Intn(3) == 0 {
						c = unicode.ToLower(c)
					}
					s = append(s, c)
				}
			}
			q = string(s)
		}
		desc := fmt.Sprintf("Search(%q) among %q", q, names)
		v.run(desc)
		var want []string
		for k, n := range names {
			ok := true
			if strings.Contains(q, "/") {
				qs, ns := strings.Split(q, "/"), strings.Split(n, "/")
				ok = len(ns) >= len(qs)
				for j := 0; ok && j < len(qs); j++ {
					ok = vSub(ns[j], qs[j])
				}
			} else {
				ok = q == "" || vSub(n, q)
			}
			if ok {
				want = append(want, uuids[k]+"="+n)
			}
		}
		v.guard("crash", desc, func() {
			res, err := b.Search(q)
			var got []string
			for u, n := range res {
				got = append(got, u+"="+n)
			}
			sort.Strings(got)
			sort.Strings(want)
			if err != nil || strings.Join(got, "|") != strings.Join(want, "|") {
				v.fail("Search", "%s finds %q, want %q (%v)", desc, got, want, err)
			}
		})
	}
	v.done("random names and queries over letters with and without case, sections and spaces; queries derived from names")
}
