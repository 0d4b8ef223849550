package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"regexp"
	"sort"
	"strings"
	"time"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type loop struct {
	id     string
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	fn     *ssa.Function
	ord    int // position among the function's loops
}

type activeLoop struct {
	lp     *loop
	probe  bool
	unroll bool
	count  int
	sfr    *Frame
	sst    *State
	svals  []Val
	onBack func(fr *Frame, st *State, vals []Val)
}

func (x *Exec) loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]*loop {
	if l, ok := x.loops[fn]; ok {
		return l
	}
	m := map[*ssa.BasicBlock]*loop{}
	for _, u := range fn.Blocks {
		for _, h := range u.Succs {
			if !h.Dominates(u) {
				continue
			}
			lp := m[h]
			if lp == nil {
				lp = &loop{id: fmt.Sprintf("%s#%d", fn.String(), h.Index), header: h, body: map[*ssa.BasicBlock]bool{h: true}, fn: fn}
				m[h] = lp
			}
			work := []*ssa.BasicBlock{u}
			for len(work) > 0 {
				b := work[len(work)-1]
				work = work[:len(work)-1]
				if lp.body[b] {
					continue
				}
				lp.body[b] = true
				work = append(work, b.Preds...)
			}
		}
	}
	for _, a := range m {
		for _, b := range m {
			if b.header.Index < a.header.Index {
				a.ord++
			}
		}
	}
	x.loops[fn] = m
	return m
}

// view is a loop-head snapshot against which invariants are evaluated.
type view struct {
	fr  *Frame
	st  *State
	phi map[*ssa.Phi]*Term
	it  *Term
	pre *view
}

type lvar struct {
	name string
	typ  types.Type
	get  func(v *view) *Term
	e    *Term
	ext  bool // loop invariant value
}

type cand struct {
	name string
	user bool
	f    func(v *view) *Term
}

func loopPhis(lp *loop) []*ssa.Phi {
	var out []*ssa.Phi
	for _, ins := range lp.header.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		out = append(out, p)
	}
	return out
}

func phiName(p *ssa.Phi) string {
	if p.Comment != "" {
		return p.Comment
	}
	return p.Name()
}

// mkHead builds an arbitrary loop-head state from the entry state.
func (x *Exec) mkHead(fr0 *Frame, lp *loop, vals []Val, st0 *State, w *writeSet) (*Frame, *view) {
	st := st0.clone()
	fr := fr0.clone()
	delete(fr.active, lp)
	x.havoc(st, w)
	v := &view{fr: fr, st: st, phi: map[*ssa.Phi]*Term{}}
	for _, p := range loopPhis(lp) {
		n := NewVar(phiName(p), sortOf(p.Type()))
		v.phi[p] = n
		x.assumeWF(st, n, p.Type())
		fr.env[p] = valOfTerm(n, p.Type())
	}
	v.it = NewVar("it", SInt)
	noteRange(v.it, new(big.Int), new(big.Int).Lsh(one, 62))
	st.assume(And(Le(Int(0), v.it), Le(v.it, Int(1<<62))))
	return fr, v
}

// havoc forgets what a write set may have changed.
func (x *Exec) havoc(st *State, w *writeSet) {
	keys := map[string]bool{}
	for k := range w.any {
		keys[k] = true
	}
	for k := range w.fresh {
		keys[k] = true
	}
	for k := range w.refs {
		keys[k] = true
	}
	type pend struct {
		h    *Term
		base *Term
		mods []*Term
		any  bool
	}
	var ps []pend
	for _, k := range sortedKeys(keys) {
		hi := heapTab[k]
		cur := st.heap(k)
		if hi.kind == 'g' {
			nv := NewVar("g_"+strings.TrimPrefix(k, "g|"), hi.sort)
			x.setHeap(st, k, nil, nv)
			x.ghostWF(st, k, nv)
			continue
		}
		var refs []*Term
		for _, r := range w.refs[k] {
			refs = append(refs, r)
		}
		sort.Slice(refs, func(i, j int) bool { return refs[i].id < refs[j].id })
		if !w.any[k] && !w.fresh[k] {
			_, vs := splitArr(hi.sort)
			for _, r := range refs {
				nv := NewVar("hv", vs)
				if hi.kind == 'e' && !isAllocTerm(r) {
					// there is no memory behind a nil slice
					st.assume(Imp(Eq(r, Int(0)), Eq(nv, Select(st.heap(k), r))))
				}
				x.setHeap(st, k, r, Store(st.heap(k), r, nv))
			}
			continue
		}
		h := NewVar("H_"+sanitize(k), hi.sort)
		for _, rec := range x.recs {
			if w.any[k] {
				rec.note(k, nil)
			}
			if w.fresh[k] {
				rec.fresh[k] = true
			}
			for _, r := range refs {
				rec.note(k, r)
			}
		}
		st.heaps[k] = h
		ps = append(ps, pend{h, cur, refs, w.any[k]})
	}
	mv := varCnt
	al0, alN0 := st.al, st.alN
	now0 := st.allocNow()
	na := NewAlloc()
	st.assume(Le(now0, na))
	st.al, st.alN = na, 0
	for _, p := range ps {
		f := &frameInfo{base: p.base, mods: p.mods, al: al0, alN: alN0, maxV: mv, immOnly: p.any}
		frames[p.h.id] = f
		if !p.any {
			r := NewBound("r", SInt)
			conds := []*Term{Lt(r, now0)}
			for _, m := range p.mods {
				conds = append(conds, Not(Eq(r, m)))
			}
			st.assume(Forall([]*Term{r}, Imp(And(conds...), Eq(Select(p.h, r), Select(p.base, r))), []*Term{Select(p.h, r)}))
		}
	}
}

// ghostWF: facts about executor-owned ghosts.
func (x *Exec) ghostWF(st *State, k string, v *Term) {
	if strings.HasPrefix(k, "g|pos@") {
		noteRange(v, new(big.Int), bigMaxLen)
		st.assume(And(Le(Int(0), v), Le(v, Int(maxLen))))
	}
}

func (w *writeSet) merge(o *writeSet) bool {
	n := w.size()
	for k := range o.any {
		w.any[k] = true
	}
	for k := range o.fresh {
		w.fresh[k] = true
	}
	for k, m := range o.refs {
		if w.refs[k] == nil {
			w.refs[k] = map[int]*Term{}
		}
		for id, r := range m {
			w.refs[k][id] = r
		}
	}
	for k := range w.any {
		delete(w.refs, k)
		delete(w.fresh, k)
	}
	return w.size() != n
}

var dbgLoops = os.Getenv("GOV_LOOPS") != ""

func (x *Exec) cutLoop(fr0 *Frame, lp *loop, vals0 []Val, st0 *State) {
	phis := loopPhis(lp)
	fr0 = fr0.clone()
	delete(fr0.active, lp)
	vals := make([]Val, len(vals0))
	for i := range vals0 {
		vals[i] = asTerm(vals0[i])
	}
	entry := &view{fr: fr0, st: st0, phi: map[*ssa.Phi]*Term{}, it: Int(0)}
	for i, p := range phis {
		entry.phi[p] = vals[i].(*Term)
	}
	entry.pre = entry

	body := func(fr *Frame, v *view, onBack func(fr *Frame, st *State, vals []Val), probe bool) {
		fr.active[lp] = &activeLoop{lp: lp, probe: probe, onBack: onBack}
		x.run(fr, lp.header, len(phis), v.st)
	}

	// A. what the body writes
	w := newWriteSet()
	phase := x.phase
	for round := 0; ; round++ {
		if round > 12 {
			unsup("write set of the loop at %s does not stabilise", x.pos(lp.header.Instrs[0].Pos()))
		}
		rec := newWriteSet()
		rec.maxV, rec.al, rec.alN = varCnt, st0.al, st0.alN
		fr, v := x.mkHead(fr0, lp, vals, st0, w)
		x.recs = append(x.recs, rec)
		x.mute++
		x.phase = "write"
		body(fr, v, func(*Frame, *State, []Val) {}, true)
		x.phase = phase
		x.mute--
		x.recs = x.recs[:len(x.recs)-1]
		if !w.merge(rec) {
			break
		}
	}
	if phase == "write" {
		// only effects matter
		fr, v := x.mkHead(fr0, lp, vals, st0, w)
		body(fr, v, func(*Frame, *State, []Val) {}, false)
		return
	}

	// B. candidate invariants
	lvs := x.loopVars(fr0, lp, entry, w)
	cands := x.candidates(fr0, lp, entry, w, lvs)
	key := lp.id + "|" + chainKey(fr0) + "|" + st0.path
	dead := x.hcache[key]
	if dead == nil {
		dead = map[string]bool{}
		x.hcache[key] = dead
	}
	var alive []*cand
	seen := map[string]bool{}
	hints, hinted := x.w.hints[x.unit.Name]
	for _, c := range cands {
		if dead[c.name] || seen[c.name] {
			continue
		}
		if hinted && !hints[hintName(lp, c)] {
			continue
		}
		seen[c.name] = true
		alive = append(alive, c)
	}
	// entry
	drop := x.checkCands(st0, alive, entry)
	alive = x.filter(alive, drop, dead, "entry", lp)

	// C. induction
	for round := 0; ; round++ {
		fr, v := x.mkHead(fr0, lp, vals, st0, w)
		v.pre = entry
		for _, c := range alive {
			v.st.assume(c.f(v))
		}
		drops := map[string]bool{}
		x.mute++
		body(fr, v, func(fr *Frame, st *State, bv []Val) {
			nv := &view{fr: fr, st: st, phi: map[*ssa.Phi]*Term{}, it: Add(v.it, Int(1)), pre: entry}
			for i, p := range phis {
				nv.phi[p] = asTerm(bv[i])
			}
			var todo []*cand
			for _, c := range alive {
				if !drops[c.name] {
					todo = append(todo, c)
				}
			}
			for n := range x.checkCands(st, todo, nv) {
				drops[n] = true
			}
		}, true)
		x.mute--
		if len(drops) == 0 {
			break
		}
		alive = x.filter(alive, drops, dead, fmt.Sprintf("step %d", round), lp)
	}
	if x.mute == 0 {
		x.invCnt += len(alive)
		for _, c := range alive {
			x.kept[hintName(lp, c)] = true
			if c.user {
				x.invKept[lp.id+": "+c.name] = true
			}
		}
		for n := range dead {
			if strings.HasPrefix(n, "user:") {
				x.invLost[lp.id+": "+n] = true
			}
		}
		if dbgLoops {
			var ns []string
			for _, c := range alive {
				ns = append(ns, c.name)
			}
			fmt.Fprintf(os.Stderr, "loop %s: invariants:\n  %s\n", lp.id, strings.Join(ns, "\n  "))
		}
	}

	// D. the real run
	fr, v := x.mkHead(fr0, lp, vals, st0, w)
	v.pre = entry
	for _, c := range alive {
		v.st.assume(c.f(v))
	}
	if x.feasible(v.st) {
		body(fr, v, func(*Frame, *State, []Val) {}, false)
	}
}

var regName = regexp.MustCompile(`\bt[0-9]+\b`)

// hintName identifies a candidate across runs. Hints only choose which candidates are
// tried; each is still proved on every run.
func hintName(lp *loop, c *cand) string {
	n := c.name
	if strings.HasPrefix(n, "user:") {
		if i := strings.Index(n, "["); i > 0 {
			n = n[i:]
		}
	}
	fn := lp.id
	if i := strings.LastIndex(fn, "#"); i > 0 {
		fn = fmt.Sprintf("%s#%d", fn[:i], lp.ord)
	}
	n = regName.ReplaceAllString(n, "t")
	return strings.ReplaceAll(fn, "github.com/aarondl/bpass", "") + "|" + n
}

func chainKey(fr *Frame) string {
	var s []string
	for _, f := range fr.chain {
		s = append(s, f.Name())
	}
	return strings.Join(s, ">")
}

func (x *Exec) filter(alive []*cand, drop map[string]bool, dead map[string]bool, why string, lp *loop) []*cand {
	var out []*cand
	for _, c := range alive {
		if drop[c.name] {
			dead[c.name] = true
			if dbgLoops && c.user {
				fmt.Fprintf(os.Stderr, "loop %s: dropped at %s: %s\n", lp.id, why, c.name)
			}
			continue
		}
		out = append(out, c)
	}
	return out
}

// checkCands returns the names of candidates that are not provable in the view.
func (x *Exec) checkCands(st *State, cs []*cand, v *view) map[string]bool {
	out := map[string]bool{}
	x.ctx(st)
	var goals []*Term
	var gc []*cand
	hard := false
	for _, c := range cs {
		var g *Term
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(Unsup); ok {
						g = False
						return
					}
					panic(r)
				}
			}()
			g = c.f(v)
		}()
		if g == True || st.pc.has(g) {
			continue
		}
		if g == False && c.user == false {
			out[c.name] = true
			continue
		}
		goals = append(goals, g)
		gc = append(gc, c)
		if hasQuant(g) || c.user {
			hard = true
		}
	}
	if len(goals) == 0 {
		return out
	}
	hy := st.pc.list()
	tt := time.Now()
	defer func() {
		if os.Getenv("GOV_TIME") != "" {
			fmt.Fprintf(os.Stderr, "checkCands %d goals %v %s\n", len(goals), time.Since(tt), st.path)
		}
	}()
	ms := 500
	if hard {
		ms = x.w.candMs
	}
	if len(goals) > 1 {
		scr := buildScript(hy, And(goals...), seqBytes, true)
		if v, _ := solverPool.ask(scr, "", ms); v == Unsat {
			return out
		}
	}
	qf := quantFree(hy)
	scrs := make([]string, len(goals))
	scq := make([]string, len(goals))
	for i, g := range goals {
		scrs[i] = buildScript(hy, g, seqBytes, true)
		if !gc[i].user && !hasQuant(g) {
			scq[i] = buildScript(qf, g, seqBytes, false)
		}
	}
	_, hinted := x.w.hints[x.unit.Name]
	var wg sync.WaitGroup
	res := make([]bool, len(goals))
	took := make([]time.Duration, len(goals))
	for i := range goals {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			t0 := time.Now()
			defer func() { took[i] = time.Since(t0) }()
			m := 400
			if gc[i].user {
				m = 800
				if hinted {
					m = 1500
				}
			} else if hasQuant(goals[i]) {
				m = 1000
			}
			if scq[i] != "" {
				// simple facts: quantifier-free first
				v, _ := solverPool.ask(scq[i], "", 300)
				if v == Unsat {
					res[i] = true
					return
				}
			}
			v, _ := solverPool.ask(scrs[i], "", m)
			if v == Unknown && gc[i].user {
				m = 2 * x.w.candMs
				if hinted {
					m *= 2
				}
				v = race(scrs[i], m)
			}
			res[i] = v == Unsat
		}(i)
	}
	wg.Wait()
	if os.Getenv("GOV_TIME") != "" {
		for i := range goals {
			if took[i] > 300*time.Millisecond {
				fmt.Fprintf(os.Stderr, "slow %v %v %s %s\n", took[i], res[i], gc[i].name, st.path)
			}
		}
	}
	for i := range goals {
		if res[i] && took[i] > time.Second && os.Getenv("GOV_DUMPINV") != "" {
			dumpCnt++
			os.WriteFile(fmt.Sprintf("%s/slow%d.smt2", os.Getenv("GOV_DUMPINV"), dumpCnt), []byte("; "+gc[i].name+"\n; "+st.path+"\n"+scrs[i]+"(check-sat)\n"), 0o644)
		}
		if !res[i] {
			out[gc[i].name] = true
			if dbgLoops && gc[i].user && os.Getenv("GOV_DUMPINV") != "" {
				dumpCnt++
				os.WriteFile(fmt.Sprintf("%s/inv%d.smt2", os.Getenv("GOV_DUMPINV"), dumpCnt), []byte("; "+gc[i].name+"\n; "+st.path+"\n"+scrs[i]+"(check-sat)\n"), 0o644)
			}
		}
	}
	return out
}

// loopVars lists the loop-carried values.
func (x *Exec) loopVars(fr *Frame, lp *loop, entry *view, w *writeSet) []*lvar {
	var out []*lvar
	for _, p := range loopPhis(lp) {
		p := p
		out = append(out, &lvar{name: phiName(p), typ: p.Type(), get: func(v *view) *Term { return v.phi[p] }, e: entry.phi[p]})
	}
	for _, k := range sortedKeys(keysOf(w.refs)) {
		hi := heapTab[k]
		if hi.kind != 'c' || w.any[k] {
			continue
		}
		var refs []*Term
		for _, r := range w.refs[k] {
			refs = append(refs, r)
		}
		sort.Slice(refs, func(i, j int) bool { return refs[i].id < refs[j].id })
		for ri, r := range refs {
			r := r
			k := k
			add := func(nm string, t types.Type, path []pstep) {
				get := func(v *view) *Term { return walk(hsel(v.st.heap(k), r), path) }
				out = append(out, &lvar{name: nm, typ: t, get: get, e: get(entry)})
			}
			nm := fmt.Sprintf("cell%d_%s", ri, shortType(hi.typ))
			if n := x.cellName(fr, r); n != "" {
				nm = "*" + n
			}
			if st, ok := hi.typ.Underlying().(*types.Struct); ok {
				for i := 0; i < st.NumFields(); i++ {
					add(nm+"."+st.Field(i).Name(), st.Field(i).Type(), []pstep{{st: hi.typ, field: i}})
				}
			}
			add(nm, hi.typ, nil)
		}
	}
	return out
}

// cellName is the source name of the variable stored at r.
func (x *Exec) cellName(fr *Frame, r *Term) string {
	out := ""
	for v, val := range fr.env {
		a, ok := val.(*Addr)
		if !ok || a.ref != r || a.idx != nil || len(a.path) > 0 {
			continue
		}
		n := ""
		switch y := v.(type) {
		case *ssa.Alloc:
			n = y.Comment
		case *ssa.FreeVar:
			n = y.Name()
		}
		if n != "" && (out == "" || n < out) {
			out = n
		}
	}
	return out
}

func keysOf(m map[string]map[int]*Term) map[string]bool {
	o := map[string]bool{}
	for k := range m {
		o[k] = true
	}
	return o
}

func (x *Exec) candidates(fr *Frame, lp *loop, entry *view, w *writeSet, lvs []*lvar) []*cand {
	var cs []*cand
	add := func(name string, f func(v *view) *Term) { cs = append(cs, &cand{name: name, f: f}) }
	al0 := entry.st.allocNow()
	steps := x.phiSteps(lp)
	var ints []*lvar
	for _, l := range lvs {
		l := l
		switch u := l.typ.Underlying().(type) {
		case *types.Basic:
			add(l.name+" unchanged", func(v *view) *Term { return Eq(l.get(v), l.e) })
			if isInteger(l.typ) {
				ints = append(ints, l)
				add(l.name+" >= entry", func(v *view) *Term { return Le(l.e, l.get(v)) })
				add(l.name+" <= entry", func(v *view) *Term { return Le(l.get(v), l.e) })
				add(l.name+" >= 0", func(v *view) *Term { return Le(Int(0), l.get(v)) })
				add(l.name+" <= entry+it", func(v *view) *Term { return Le(l.get(v), Add(l.e, v.it)) })
				for _, c := range steps {
					c := c
					add(fmt.Sprintf("%s = entry+%d*it", l.name, c), func(v *view) *Term { return Eq(l.get(v), Add(l.e, Mul(Int(c), v.it))) })
				}
			}
		case *types.Slice:
			x.sliceCands(add, l.name, l.get, l.e, al0, steps, seqBytes && isByte(u.Elem()))
		case *types.Pointer, *types.Map:
			add(l.name+" unchanged", func(v *view) *Term { return Eq(l.get(v), l.e) })
			add(l.name+" non-nil", func(v *view) *Term { return Not(Eq(l.get(v), Int(0))) })
			add(l.name+" new", func(v *view) *Term { return Le(al0, l.get(v)) })
		case *types.Interface:
			add(l.name+" unchanged", func(v *view) *Term { return Eq(l.get(v), l.e) })
		}
	}
	for i, a := range ints {
		for _, b := range ints[i+1:] {
			a, b := a, b
			add(a.name+"-"+b.name+" constant", func(v *view) *Term { return Eq(Sub(a.get(v), b.get(v)), Sub(a.e, b.e)) })
			add(a.name+"+"+b.name+" constant", func(v *view) *Term { return Eq(Add(a.get(v), b.get(v)), Add(a.e, b.e)) })
			add(a.name+"<="+b.name, func(v *view) *Term { return Le(a.get(v), b.get(v)) })
			add(b.name+"<="+a.name, func(v *view) *Term { return Le(b.get(v), a.get(v)) })
		}
	}
	// comparisons and indexings found in the loop
	seenCmp := map[string]bool{}
	for b := range lp.body {
		for _, ins := range b.Instrs {
			var pairs [][2]ssa.Value
			switch in := ins.(type) {
			case *ssa.BinOp:
				switch in.Op {
				case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ, token.EQL:
					if isInteger(in.X.Type()) {
						pairs = append(pairs, [2]ssa.Value{in.X, in.Y})
					}
				}
			case *ssa.IndexAddr:
				if _, ok := in.X.Type().Underlying().(*types.Slice); ok {
					idx, sl := in.Index, in.X
					k := "ix" + idx.Name() + sl.Name()
					if !seenCmp[k] && x.evaluable(fr, lp, idx, entry) && x.evaluable(fr, lp, sl, entry) {
						seenCmp[k] = true
						nm := "index " + idx.Name() + " of " + sl.Name()
						add(nm+" >= 0", func(v *view) *Term { return Le(Int(0), x.evalAt(fr, lp, idx, v)) })
						add(nm+" <= len", func(v *view) *Term { return Le(x.evalAt(fr, lp, idx, v), SlLen(x.evalAt(fr, lp, sl, v))) })
						add(nm+" < len", func(v *view) *Term { return Lt(x.evalAt(fr, lp, idx, v), SlLen(x.evalAt(fr, lp, sl, v))) })
					}
				}
			}
			for _, p := range pairs {
				a, b := p[0], p[1]
				k := a.Name() + "?" + b.Name()
				if seenCmp[k] || !x.evaluable(fr, lp, a, entry) || !x.evaluable(fr, lp, b, entry) {
					continue
				}
				seenCmp[k] = true
				add(k+" <=", func(v *view) *Term { return Le(x.evalAt(fr, lp, a, v), x.evalAt(fr, lp, b, v)) })
				add(k+" <", func(v *view) *Term { return Lt(x.evalAt(fr, lp, a, v), x.evalAt(fr, lp, b, v)) })
				add(k+" >=", func(v *view) *Term { return Le(x.evalAt(fr, lp, b, v), x.evalAt(fr, lp, a, v)) })
				add(k+" >", func(v *view) *Term { return Lt(x.evalAt(fr, lp, b, v), x.evalAt(fr, lp, a, v)) })
				add(k+" <=+1", func(v *view) *Term { return Le(x.evalAt(fr, lp, a, v), Add(x.evalAt(fr, lp, b, v), Int(1))) })
				add(k+" >=-1", func(v *view) *Term { return Le(Sub(x.evalAt(fr, lp, b, v), Int(1)), x.evalAt(fr, lp, a, v)) })
			}
		}
	}
	// frames of heaps written at unknown references
	for _, k := range sortedKeys(w.any) {
		hi := heapTab[k]
		if hi.kind == 'g' {
			continue
		}
		k := k
		base := entry.st.heap(k)
		lim := al0
		frame := func(except func() []*Term) func(v *view) *Term {
			lim := lim
			return func(v *view) *Term {
				h := v.st.heap(k)
				if h == base {
					return True
				}
				r := NewBound("r", SInt)
				cs := []*Term{Lt(r, lim)}
				for _, e := range except() {
					cs = append(cs, Not(Eq(r, e)))
				}
				return Forall([]*Term{r}, Imp(And(cs...), Eq(Select(h, r), Select(base, r))), []*Term{Select(h, r)})
			}
		}
		add("frame "+k, frame(func() []*Term { return nil }))
		if hi.kind == 'e' {
			if e := x.entry.allocNow(); e != al0 {
				lim = e
				add("frame of the callers "+k, frame(func() []*Term { return nil }))
				lim = al0
			}
			// all arrays of slices mentioned as loop variables
			for _, l := range lvs {
				if u, ok := l.typ.Underlying().(*types.Slice); ok && elemKey(u.Elem()) == k {
					l := l
					add("frame "+k+" except "+l.name, frame(func() []*Term { return []*Term{SlArr(l.e)} }))
				}
			}
		}
	}
	// map iteration
	if it := x.loopIter(fr, lp); it != nil {
		if it.isStr {
			add("string position in range", func(v *view) *Term { return Le(v.st.heap(it.key), StrLen(it.str)) })
			add("string position >= it", func(v *view) *Term { return Le(v.it, v.st.heap(it.key)) })
		} else {
			d := mapDT(it.mt)
			add("seen keys are in the map", func(v *view) *Term {
				seen := v.st.heap(it.key)
				if seen.is("constarr") {
					return True
				}
				k := NewBound("k", sortOf(it.mt.Key()))
				return Forall([]*Term{k}, Imp(Select(seen, k), mapHas(d, it.cont0, k)), []*Term{Select(seen, k)})
			})
			add("map unchanged", func(v *view) *Term {
				return Eq(hsel(v.st.heap(mapKey(it.mt)), it.m), it.cont0)
			})
			add("map contents non-empty", func(v *view) *Term {
				return Imp(Lt(Int(0), v.it), Lt(Int(0), d.get(it.cont0, 2)))
			})
		}
	}
	cs = append(cs, x.userCands(fr, lp, entry, w, lvs)...)
	return cs
}

func (x *Exec) sliceCands(add func(string, func(v *view) *Term), name string, get func(v *view) *Term, e *Term, al0 *Term, steps []int64, bytes bool) {
	add(name+" unchanged", func(v *view) *Term { return Eq(get(v), e) })
	add(name+".arr same", func(v *view) *Term { return Eq(SlArr(get(v)), SlArr(e)) })
	add(name+".arr same or new", func(v *view) *Term { return Or(Eq(SlArr(get(v)), SlArr(e)), Le(al0, SlArr(get(v)))) })
	add(name+".arr new or nil", func(v *view) *Term { return Or(Eq(SlArr(get(v)), Int(0)), Le(al0, SlArr(get(v)))) })
	add(name+".off same", func(v *view) *Term { return Eq(SlOff(get(v)), SlOff(e)) })
	add(name+".off zero", func(v *view) *Term { return Eq(SlOff(get(v)), Int(0)) })
	add(name+".len same", func(v *view) *Term { return Eq(SlLen(get(v)), SlLen(e)) })
	add(name+".cap same", func(v *view) *Term { return Eq(SlCap(get(v)), SlCap(e)) })
	add(name+".len >= entry", func(v *view) *Term { return Le(SlLen(e), SlLen(get(v))) })
	add(name+".len <= entry+it", func(v *view) *Term { return Le(SlLen(get(v)), Add(SlLen(e), v.it)) })
	for _, c := range steps {
		c := c
		add(fmt.Sprintf("%s.len = entry+%d*it", name, c), func(v *view) *Term { return Eq(SlLen(get(v)), Add(SlLen(e), Mul(Int(c), v.it))) })
	}
	add(name+".end same", func(v *view) *Term { return Eq(Add(SlOff(get(v)), SlLen(get(v))), Add(SlOff(e), SlLen(e))) })
}

// loopIter finds the iterator advanced by the loop header.
func (x *Exec) loopIter(fr *Frame, lp *loop) *iter {
	for _, ins := range lp.header.Instrs {
		if n, ok := ins.(*ssa.Next); ok {
			if it, ok := fr.env[n.Iter].(*iter); ok {
				return it
			}
		}
	}
	return nil
}

// phiSteps guesses the increments of counters.
func (x *Exec) phiSteps(lp *loop) []int64 {
	m := map[int64]bool{1: true}
	for b := range lp.body {
		for _, ins := range b.Instrs {
			if bo, ok := ins.(*ssa.BinOp); ok && (bo.Op == token.ADD || bo.Op == token.SUB) {
				if c, ok := bo.Y.(*ssa.Const); ok && c.Value != nil && isInteger(c.Type()) {
					t := constTerm(c)
					if t.ival.IsInt64() {
						v := t.i64()
						if bo.Op == token.SUB {
							v = -v
						}
						if v >= -1024 && v <= 1024 && v != 0 {
							m[v] = true
						}
					}
				}
			}
		}
	}
	var out []int64
	for v := range m {
		out = append(out, v)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

func inLoop(lp *loop, v ssa.Value) bool {
	ins, ok := v.(ssa.Instruction)
	if !ok {
		return false
	}
	return ins.Parent() == lp.fn && lp.body[ins.Block()]
}

func (x *Exec) evaluable(fr *Frame, lp *loop, v ssa.Value, e *view) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(Unsup); is {
				ok = false
				return
			}
			panic(r)
		}
	}()
	x.evalAt(fr, lp, v, e)
	return true
}

// evalAt evaluates a simple expression at a loop head.
func (x *Exec) evalAt(fr *Frame, lp *loop, v ssa.Value, w *view) *Term {
	if p, ok := v.(*ssa.Phi); ok {
		if t, ok := w.phi[p]; ok {
			return t
		}
	}
	if !inLoop(lp, v) {
		return asTerm(x.val(fr, v))
	}
	switch in := v.(type) {
	case *ssa.BinOp:
		if isInteger(in.Type()) {
			switch in.Op {
			case token.ADD:
				return Add(x.evalAt(fr, lp, in.X, w), x.evalAt(fr, lp, in.Y, w))
			case token.SUB:
				return Sub(x.evalAt(fr, lp, in.X, w), x.evalAt(fr, lp, in.Y, w))
			}
		}
	case *ssa.Convert:
		if isInteger(in.X.Type()) && isInteger(in.Type()) {
			return x.evalAt(fr, lp, in.X, w)
		}
	case *ssa.Call:
		if b, ok := in.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			t := x.evalAt(fr, lp, in.Call.Args[0], w)
			switch in.Call.Args[0].Type().Underlying().(type) {
			case *types.Slice:
				return SlLen(t)
			case *types.Basic:
				return StrLen(t)
			}
		}
	case *ssa.UnOp:
		if in.Op == token.MUL {
			a := x.evalAddr(fr, lp, in.X, w)
			return walk(x.rootVal(w.st, a), a.path)
		}
	}
	unsup("not evaluable")
	return nil
}

func (x *Exec) evalAddr(fr *Frame, lp *loop, v ssa.Value, w *view) *Addr {
	pt := v.Type().Underlying().(*types.Pointer).Elem()
	if !inLoop(lp, v) {
		return x.addrOf(x.val(fr, v), pt)
	}
	switch in := v.(type) {
	case *ssa.FieldAddr:
		bt := in.X.Type().Underlying().(*types.Pointer).Elem()
		a := x.evalAddr(fr, lp, in.X, w)
		n := *a
		n.path = append(append([]pstep(nil), a.path...), pstep{st: bt, field: in.Field})
		n.typ = pt
		return &n
	case *ssa.UnOp:
		t := x.evalAt(fr, lp, in, w)
		return x.addrOf(t, pt)
	}
	unsup("not evaluable")
	return nil
}
