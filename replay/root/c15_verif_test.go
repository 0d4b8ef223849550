package main

import (
	"fmt"
	"io"
	"math"
	"strings"
	"testing"
)

func TestVerifC15(t *testing.T) {
	v := vStart(t)
	classes := []string{"ABCDEFGHIJKLMNOPQRSTUVWXYZ", "abcdefghijklmnopqrstuvwxyz", "0123456789", "!@#$%^&*", alphabetExtraSymbols}
	for i, a := range []string{alphabetUppercase, alphabetLowercase, alphabetNumbers, alphabetBasicSymbols} {
		if a != classes[i] {
			classes[i] = a
		}
	}
	seen := map[rune]int{}
	total := 0
	check := func(desc string, n int, need [5]int, pw string, err error) {
		sum, off := 0.0, 0
		for _, x := range need {
			if x > 0 {
				sum += float64(x)
			}
			if x < 0 {
				off++
			}
		}
		possible := n >= 0 && sum <= float64(n) && (off < 5 || n == 0)
		if err != nil {
			if possible && n <= 4096 {
				v.fail("refused", "%s is possible but answered with %v", desc, err)
			}
			if pw != "" {
				v.fail("both", "%s fails with %v and returns a password", desc, err)
			}
			return
		}
		if !possible {
			v.fail("impossible", "%s is impossible but answered with %q", desc, vCut(pw))
			return
		}
		if len(pw) != n {
			v.fail("length", "%s gives a password of %d bytes", desc, len(pw))
			return
		}
		var cnt [5]int
		for _, c := range pw {
			cls := -1
			for k, a := range classes {
				if strings.ContainsRune(a, c) {
					cls = k
				}
			}
			if cls < 0 {
				v.fail("foreign", "%s gives %q, which has the character %q of no class", desc, vCut(pw), c)
				return
			}
			cnt[cls]++
			if n <= 64 {
				seen[c]++
				total++
			}
		}
		for k := range cnt {
			if need[k] < 0 && cnt[k] > 0 {
				v.fail("switched off", "%s gives %q with %d characters of class %d", desc, vCut(pw), cnt[k], k)
			}
			if cnt[k] < need[k] {
				v.fail("too few", "%s gives %q with only %d characters of class %d", desc, vCut(pw), cnt[k], k)
			}
		}
	}
	odd := []int{0, 1, -1, -2, 2, 5, math.MaxInt64, math.MinInt64, math.MaxInt64 / 2, 1 << 31, 1 << 62, 255, 256, 257}
	one := func(n int, need [5]int) {
		desc := fmt.Sprintf("length %d with at least %v", n, need)
		v.run(desc)
		v.guard("crash", desc, func() {
			pw, err := genPassword(n, need[0], need[1], need[2], need[3], need[4])
			check(desc, n, need, pw, err)
		})
	}
	for _, n := range []int{0, 1, 2, 255, 256, 257, 511, 512, 513, 768, 1024, 4096, -1, -2, -256, math.MinInt64} {
		one(n, [5]int{})
		one(n, [5]int{-1, -1, -1, -1, -1})
		one(n, [5]int{-1, 0, -1, -1, -1})
		for k := 0; k < 5; k++ {
			var need [5]int
			need[k] = n
			one(n, need)
		}
	}
	for i := 0; i < v.n(30000) && v.more(); i++ {
		n := v.rng.Intn(40)
		if v.rng.Intn(20) == 0 {
			n = v.rng.Intn(1200)
		}
		var need [5]int
		left := n + 3
		for k := range need {
			switch v.rng.Intn(4) {
			case 0:
				need[k] = -1 - v.rng.Intn(3)
			case 1:
				need[k] = v.rng.Intn(left + 1)
				left -= need[k]
			}
			if v.rng.Intn(60) == 0 {
				need[k] = odd[v.rng.Intn(len(odd))]
			}
		}
		one(n, need)
	}
	// every character of the enabled classes can occur
	if len(v.fails) == 0 && total > 100000 {
		for _, a := range classes {
			for _, c := range a {
				if seen[c] == 0 {
					v.fail("never", "the character %q never occurs in %d characters of passwords", c, total)
				}
			}
		}
	}
	// the dialog
	words := []string{"u", "l", "n", "b", "e", "u 3", "l 2", "n -1", "b 4", "e 40", "20", "-5", "0", "256", "512", "", " ", "\t ", "?", "u x", "zz", "u 1 2", "99999999999", "5"}
	for i := 0; i < v.n(1500) && v.more(); i++ {
		n, need := 32, [5]int{}
		k := v.rng.Intn(8)
		var lines []string
		for j := 0; j < k; j++ {
			lines = append(lines, words[v.rng.Intn(len(words))])
		}
		for _, l := range lines {
			f := strings.Fields(l)
			if len(f) == 0 {
				continue
			}
			cls := strings.Index("ulnbe", f[0])
			if len(f[0]) == 1 && cls >= 0 {
				if len(f) == 1 {
					if need[cls] >= 0 {
						need[cls] = -1
					} else {
						need[cls] = 0
					}
				} else {
					var x int
					if _, err := fmt.Sscanf(f[1], "%d", &x); err == nil {
						need[cls] = x
					}
				}
				continue
			}
			var x int
			if _, err := fmt.Sscanf(l, "%d", &x); err == nil && fmt.Sprint(x) == l {
				n = x
			}
		}
		desc := fmt.Sprintf("dialog %q", lines)
		v.run(desc)
		last := true
		ed := vLines(append(lines, "y")...)
		v.guard("crash", desc, func() {
			u := vUI(ed)
			pw, err := u.getPassword()
			if err == io.EOF {
				return
			}
			sum := 0
			off := 0
			for _, x := range need {
				if x > 0 {
					sum += x
				}
				if x < 0 {
					off++
				}
			}
			if n < 0 || sum > n || off == 5 && n > 0 || n > 4096 {
				return // the dialog says so and offers no password
			}
			check(desc+fmt.Sprintf(" (length %d, %v)", n, need), n, need, pw, err)
		})
		_ = last
	}
	v.done("lengths -2^63 to 4096 with per-class minima and switches, the extremes of int included, and random dialogs")
}

func vCut(s string) string {
	if len(s) > 60 {
		return s[:60] + "..."
	}
	return s
}
