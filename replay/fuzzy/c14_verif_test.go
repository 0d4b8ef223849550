package fuzzy

import (
	"fmt"
	"testing"
	"unicode"
)

func TestVerifC14(t *testing.T) {
	v := vStart(t)
	sub := func(name, query string) bool {
		n, q := []rune(name), []rune(query)
		best := make([]bool, len(q)+1)
		best[0] = true
		for _, c := range n {
			for j := len(q); j > 0; j-- {
				if best[j-1] && (q[j-1] == c || q[j-1] == unicode.ToLower(c)) {
					best[j] = true
				}
			}
		}
		return best[len(q)]
	}
	alpha := []rune("abAB/éÉ1İßKſ ")
	for i := 0; i < v.n(200000) && v.more(); i++ {
		word := func(n int) string {
			var s []byte
			for k := v.rng.Intn(n); k > 0; k-- {
				if v.rng.Intn(25) == 0 {
					s = append(s, byte(v.rng.Intn(256)))
				} else {
					s = append(s, string(alpha[v.rng.Intn(len(alpha))])...)
				}
			}
			return string(s)
		}
		n, q := word(10), word(6)
		if v.rng.Intn(2) == 0 {
			var s []rune
			for _, c := range n {
				if v.rng.Intn(3) > 0 {
					if v.rng.Intn(3) == 0 {
						c = unicode.ToLower(c)
					}
					s = append(s, c)
				}
			}
			q = string(s)
		}
		desc := fmt.Sprintf("Match(%q, %q)", n, q)
		v.run(desc)
		v.guard("crash", desc, func() {
			if got, want := Match(n, q), n == q || sub(n, q); got != want {
				v.fail("Match", "%s is %v", desc, got)
			}
		})
	}
	v.done("random names and queries over letters whose case forms differ in length, and bytes that are not UTF-8")
}
