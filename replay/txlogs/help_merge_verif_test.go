package txlogs

import (
	"fmt"
	"math/rand"
	"sort"
)

// vHistory makes two sorted logs with a shared beginning in which no entry is touched
// after its own deletion, and in which equal times mean equal transactions.
func vHistory(rng *rand.Rand, late bool) (a, b []Tx) {
	times := rng.Perm(40)
	total := rng.Intn(10)
	times = times[:total]
	sort.Ints(times)
	dead := [2]map[string]bool{{}, {}}
	shared := 0
	switch rng.Intn(4) {
	case 0:
		shared = total
	case 1, 2:
		shared = rng.Intn(total + 1)
	}
	kinds := []TxKind{TxAdd, TxSetKey, TxSetKey, TxDelete, TxDelete, TxDeleteKey}
	for i, tm := range times {
		t := Tx{Time: int64(tm + 1), Kind: kinds[rng.Intn(len(kinds))], UUID: fmt.Sprintf("u%d", rng.Intn(3)), Key: vPickKey(rng), Value: fmt.Sprint(tm)}
		if t.Kind == TxAdd || t.Kind == TxDelete {
			t.Key, t.Value = "", ""
		}
		inA, inB := i < shared, i < shared
		if !inA {
			switch rng.Intn(7) {
			case 0, 1, 2:
				inA = true
			case 3, 4, 5:
				inB = true
			default:
				// the same transaction again, after the fork
				inA, inB = late, late
				if !late {
					inA = true
				}
			}
		}
		inA = inA && !dead[0][t.UUID]
		inB = inB && !dead[1][t.UUID]
		if inA {
			a = append(a, t)
			dead[0][t.UUID] = t.Kind == TxDelete
		}
		if inB {
			b = append(b, t)
			dead[1][t.UUID] = t.Kind == TxDelete
		}
	}
	// spare capacity that an append might write into
	a = append(make([]Tx, 0, len(a)+rng.Intn(4)), a...)
	b = append(make([]Tx, 0, len(b)+rng.Intn(4)), b...)
	return a, b
}

func vUnion(a, b []Tx) []Tx {
	m := map[int64]Tx{}
	for _, t := range a {
		m[t.Time] = t
	}
	for _, t := range b {
		m[t.Time] = t
	}
	u := []Tx{}
	for _, t := range m {
		u = append(u, t)
	}
	sort.Slice(u, func(i, j int) bool { return u[i].Time < u[j].Time })
	return u
}

// vRaces lists the deletes of u that are followed by something on the same entry.
func vRaces(u []Tx) map[int64]Tx {
	r := map[int64]Tx{}
	for i, d := range u {
		if d.Kind != TxDelete {
			continue
		}
		for _, t := range u[i+1:] {
			if t.UUID == d.UUID {
				r[d.Time] = d
			}
		}
	}
	return r
}

// vOutcome is the union without the restored deletes and without what kept deletes kill.
func vOutcome(u []Tx, restored, kept map[int64]bool) []Tx {
	out := []Tx{}
	for i, t := range u {
		drop := restored[t.Time] && t.Kind == TxDelete
		for _, d := range u[:i] {
			if kept[d.Time] && !restored[d.Time] && d.Kind == TxDelete && d.UUID == t.UUID {
				drop = true
			}
		}
		if !drop {
			out = append(out, t)
		}
	}
	return out
}
