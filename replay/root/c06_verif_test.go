package main

import (
	"fmt"
	"io"
	"sort"
	"strings"
	"testing"

	"github.com/aarondl/bpass/txlogs"
)

func TestVerifC06(t *testing.T) {
	v := vStart(t)
	for i := 0; i < v.n(6000) && v.more(); i++ {
		a, b := vPair(v.rng)
		desc := vLogFmt(a) + " with " + vLogFmt(b)
		v.run(desc)
		m := map[int64]txlogs.Tx{}
		for _, t := range append(append([]txlogs.Tx(nil), a...), b...) {
			m[t.Time] = t
		}
		var union []txlogs.Tx
		for _, t := range m {
			union = append(union, t)
		}
		sort.Slice(union, func(i, j int) bool { return union[i].Time < union[j].Time })
		races := 0
		for i, d := range union {
			for _, t := range union[i+1:] {
				if d.Kind == txlogs.TxDelete && t.UUID == d.UUID {
					races++
					break
				}
			}
		}
		root := len(a) > 0 && len(b) > 0 && a[0].Time != b[0].Time
		// decide everything one way, every other way, or give up
		mode := v.rng.Intn(5)
		var trace []string
		yes := 0
		ed := &vEditor{answer: func(p string, _ bool) (string, error) {
			ans := ""
			switch {
			case strings.Contains(p, "merge these anyway"):
				yes++
				ans = "y"
				if mode == 3 {
					ans = "n"
				}
			case mode == 4:
				return "", io.EOF
			case v.rng.Intn(6) == 0:
				ans = "what?"
			case mode == 0:
				ans = "R"
			case mode == 1:
				ans = "d"
			default:
				ans = []string{"r", "D"}[v.rng.Intn(2)]
			}
			trace = append(trace, ans)
			return ans, nil
		}}
		u := vUI(ed)
		var c []txlogs.Tx
		var err error
		if !v.guard("crash", desc, func() { c, err = mergeLogs(u, a, b) }) {
			continue
		}
		desc += fmt.Sprintf(" answering %v", trace)
		if root && yes != 1 {
			v.fail("root", "asked %d times about unrelated histories merging %s", yes, desc)
		}
		if root && mode == 3 || mode == 4 && races > 0 {
			if err == nil {
				v.fail("refused", "merged although refused: %s gave %s", desc, vLogFmt(c))
			}
			continue
		}
		if err != nil {
			v.fail("error", "merging %s failed: %v", desc, err)
			continue
		}
		if races > 0 && ed.asked == 0 {
			v.fail("silent", "nothing was asked merging %s", desc)
		}
		var want []txlogs.Tx
		for i, t := range union {
			drop := false
			switch mode {
			case 0:
				// every raced delete is restored
				for _, o := range union[i+1:] {
					drop = drop || t.Kind == txlogs.TxDelete && o.UUID == t.UUID
				}
			case 1:
				for _, d := range union[:i] {
					drop = drop || d.Kind == txlogs.TxDelete && d.UUID == t.UUID
				}
			default:
				continue
			}
			if !drop {
				want = append(want, t)
			}
		}
		if mode <= 1 && !vLogEq(c, want) {
			v.fail("decision", "merging %s gave %s, want %s", desc, vLogFmt(c), vLogFmt(want))
		}
	}
	v.done("pairs of logs merged through the questions of the session, answered all restore, all delete, at random with invalid answers between, refused, or interrupted")
}
