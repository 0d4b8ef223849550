package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// UnitResult is what one verification run reports.
type UnitResult struct {
	Unit      string
	File      string
	Pos       string
	Obls      []*Obl
	Trusted   []string
	Contracts []string
	Inlined   []string
	Axioms    []string
	Lemmas    []string
	Notes     []string
	InvLost   []string
	Kept      []string // candidate invariants that were proved
	InvKept   int
	Paths     int
	Steps     int
	Queries   int
	SolverMs  int64
	Ms        int64
	Err       string
	Bounded   string
}

func newExec(w *World) *Exec {
	return &Exec{prog: w.prog, w: w, oblSeen: map[string]bool{}, loops: map[*ssa.Function]map[*ssa.BasicBlock]*loop{}, hcache: map[string]map[string]bool{},
		tUnits: map[string]bool{}, trusted: map[string]bool{}, inlined: map[string]bool{}, invLost: map[string]bool{}, invKept: map[string]bool{}, kept: map[string]bool{}, deadline: time.Now().Add(10 * time.Minute), unit: &Unit{opts: map[string]string{}}}
}

func newState() *State {
	st := &State{heaps: map[string]*Term{}, wf: map[int]bool{}}
	st.al = NewAlloc()
	st.assume(Le(Int(1), st.al))
	return st
}

// sortTypes lets specifications recover Go types from sorts.
func (x *Exec) sortTypes() {
	for _, p := range x.w.pkgs {
		sc := p.Types.Scope()
		for _, n := range sc.Names() {
			if tn, ok := sc.Lookup(n).(*types.TypeName); ok {
				if st, ok := tn.Type().Underlying().(*types.Struct); ok {
					if nt, ok := tn.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
						continue
					}
					func() {
						defer func() { recover() }()
						d := structDT(tn.Type())
						_ = st
						if _, ok := x.w.sortType[d.sort]; !ok {
							x.w.sortType[d.sort] = tn.Type()
						}
					}()
				}
			}
		}
	}
}

// ---- package initialisation ----

var (
	initSt    *State
	immGlob   = map[int64]bool{}
	immObj    = map[string]map[int64]bool{} // heap key -> immutable objects
	immAny    = map[int64]bool{}
	initHeapK = map[int]string{}
)

func (x *Exec) runInits() {
	st := &State{heaps: map[string]*Term{}, wf: map[int]bool{}}
	st.al = Int(-1000000)
	for _, p := range x.w.ssaPkgs {
		fn := p.Func("init")
		if fn == nil {
			continue
		}
		try := func(skip bool) (ok bool) {
			ok = true
			x.skipInits = skip
			saved := st.clone()
			defer func() {
				if r := recover(); r != nil {
					if u, is := r.(Unsup); is {
						st, ok = saved, false
						x.safetyNote("initialisation of " + p.Pkg.Path() + " not evaluated: " + u.msg)
						if os.Getenv("GOV_INIT") != "" {
							fmt.Fprintln(os.Stderr, "init", p.Pkg.Path(), u.msg)
						}
						return
					}
					panic(r)
				}
			}()
			x.mute++
			defer func() { x.mute-- }()
			fr := &Frame{fn: fn, env: map[ssa.Value]Val{}, active: map[*loop]*activeLoop{}, chain: []*ssa.Function{fn}}
			g := p.Var("init$guard")
			x.store(st, &Addr{key: cellKey(tBool), ref: globalRef(g), typ: tBool}, False)
			for _, m := range p.Members {
				if gl, ok := m.(*ssa.Global); ok && gl != g {
					pt := gl.Type().Underlying().(*types.Pointer).Elem()
					func() {
						defer func() { recover() }()
						k := cellKey(pt)
						st.heaps[k] = Store(st.heap(k), globalRef(gl), zeroOf(pt))
					}()
				}
			}
			var ends []*State
			fr.k = func(s2 *State, _ []Val) { ends = append(ends, s2) }
			x.run(fr, fn.Blocks[0], 0, st)
			if len(ends) != 1 || ends[0].pc != nil && ends[0].pc.t == False {
				unsup("%d ways through it", len(ends))
			}
			st = ends[0]
			return
		}
		// without the init functions when they cannot be followed: what they change counts as changed
		if !try(false) {
			try(true)
		}
	}
	x.skipInits = false
	initSt = st
	// immutable globals
	written := map[*ssa.Global]bool{}
	objWritten := map[*ssa.Global]bool{}
	for _, fn := range x.w.fns {
		isInit := fn.Name() == "init" && fn.Synthetic != ""
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					switch in := ins.(type) {
					case *ssa.UnOp:
						if !isInit && mutUse(in, 0) {
							objWritten[g] = true
						}
					case *ssa.Store:
						if in.Addr == g && !isInit {
							written[g] = true
						}
						if in.Val == g {
							written[g] = true
						}
					case *ssa.FieldAddr, *ssa.IndexAddr:
						if !isInit && addrMut(ins.(ssa.Value)) {
							written[g] = true
						}
					case *ssa.DebugRef:
					default:
						if !isInit {
							written[g] = true
						}
					}
				}
			}
		}
	}
	for r, g := range globByRef {
		if !written[g] && x.w.isRepo(g.Pkg.Pkg) {
			immGlob[r] = true
			pt := g.Type().Underlying().(*types.Pointer).Elem()
			if !objWritten[g] {
				func() {
					defer func() { recover() }()
					x.markImm(hselInit(cellKey(pt), Int(r)), pt, 0)
				}()
			}
		}
	}
	immutableRef = func(r *Term) bool {
		if r.kind != KInt || !r.ival.IsInt64() {
			return false
		}
		v := r.i64()
		return v == 0 || immGlob[v] || immAny[v]
	}
	immutableSelect = func(a, i *Term) *Term {
		k, ok := initHeapK[a.id]
		if !ok {
			k = ""
			for kk, h := range heapTab {
				if h.kind != 'g' && a == initHeap(kk) {
					k = kk
					break
				}
			}
			initHeapK[a.id] = k
		}
		if k == "" || !i.ival.IsInt64() {
			return nil
		}
		v := i.i64()
		if immGlob[v] || immObj[k][v] {
			t := hselInit(k, i)
			if t.is("select") && t.args[0] == a {
				return nil
			}
			return t
		}
		return nil
	}
}

func hselInit(k string, r *Term) *Term {
	h, ok := initSt.heaps[k]
	if !ok {
		h = initHeap(k)
	}
	sv := immutableSelect
	immutableSelect = func(a, i *Term) *Term { return nil }
	defer func() { immutableSelect = sv }()
	return Select(h, r)
}

func (x *Exec) markImm(t *Term, gt types.Type, depth int) {
	if depth > 4 {
		return
	}
	mark := func(k string, r *Term) bool {
		if r.kind != KInt || !r.ival.IsInt64() || r.i64() >= 0 {
			return false
		}
		if immObj[k] == nil {
			immObj[k] = map[int64]bool{}
		}
		immObj[k][r.i64()] = true
		immAny[r.i64()] = true
		return true
	}
	switch u := gt.Underlying().(type) {
	case *types.Slice:
		k := elemKey(u.Elem())
		if mark(k, SlArr(t)) && SlLen(t).kind == KInt {
			c := hselInit(k, SlArr(t))
			if c.sort == SStr {
				return
			}
			for i := int64(0); i < SlLen(t).i64() && i < 64; i++ {
				x.markImm(Select(c, Int(i)), u.Elem(), depth+1)
			}
		}
	case *types.Map:
		mark(mapKey(u), t)
	case *types.Pointer:
		k := cellKey(u.Elem())
		mark(k, t)
	case *types.Struct:
		d := structDT(gt)
		for i := 0; i < u.NumFields(); i++ {
			x.markImm(d.get(t, i), u.Field(i).Type(), depth+1)
		}
	}
}

// mutUse: a value loaded from a global may be written through.
func mutUse(v ssa.Value, depth int) bool {
	if depth > 4 || v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		switch in := r.(type) {
		case *ssa.MapUpdate:
			if in.Map == v {
				return true
			}
		case *ssa.IndexAddr, *ssa.FieldAddr:
			if addrMut(in.(ssa.Value)) {
				return true
			}
		case *ssa.Slice, *ssa.ChangeType, *ssa.Phi:
			if mutUse(in.(ssa.Value), depth+1) {
				return true
			}
		case *ssa.Call:
			if b, ok := in.Call.Value.(*ssa.Builtin); ok {
				if (b.Name() == "append" || b.Name() == "copy" || b.Name() == "delete") && in.Call.Args[0] == v {
					return true
				}
			}
		}
	}
	return false
}

func addrMut(v ssa.Value) bool {
	if v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		switch in := r.(type) {
		case *ssa.Store:
			if in.Addr == v {
				return true
			}
		case *ssa.FieldAddr, *ssa.IndexAddr:
			if addrMut(in.(ssa.Value)) {
				return true
			}
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.Slice:
			if mutUse(in, 0) {
				return true
			}
		default:
			return true
		}
	}
	return false
}

// ---- lemmas ----

func (x *Exec) lemmaFormula(l *lemma, extra map[string]SV) (vars []*Term, f *Term, pats [][]*Term) {
	c := &specCtx{x: x, pkg: l.pkg, vars: map[string]SV{}, noWF: true}
	for _, p := range l.params {
		t, s := x.resolveType(l.pkg, p.typ)
		b := NewBound(p.name, s)
		vars = append(vars, b)
		c.vars[p.name] = SV{b, t}
	}
	f = c.boolean(l.body)
	for _, tr := range l.trig {
		var ts []*Term
		for _, e := range tr {
			ts = append(ts, c.eval(e).t)
		}
		pats = append(pats, ts)
	}
	return
}

func symbolsOf(t *Term, out map[string]bool) {
	if t.kind == KApp {
		if _, ok := funSorts[t.op]; ok {
			out[t.op] = true
		}
	}
	for _, a := range t.args {
		symbolsOf(a, out)
	}
}

// addLemmas makes lemmas and axioms available to queries.
func (x *Exec) addLemmas(upto *lemma, only map[string]bool) {
	for _, l := range x.w.sp.lemmas {
		if l == upto {
			break
		}
		if l.seq != seqBytes {
			continue
		}
		if l.opaque && !only[l.name] {
			continue
		}
		vars, f, pats := x.lemmaFormula(l, nil)
		sy := map[string]bool{}
		symbolsOf(f, sy)
		if len(l.trig) > 0 {
			sy = map[string]bool{}
			for _, p := range pats {
				for _, t := range p {
					symbolsOf(t, sy)
				}
			}
		}
		tr := sortedKeys(sy)
		axioms = append(axioms, &Axiom{name: l.name, trig: tr, f: Forall(vars, f, pats...), lem: !l.axiom})
	}
}

func (w *World) verifyLemma(l *lemma) (res *UnitResult) {
	seqBytes = l.seq
	x := newExec(w)
	x.unit.pkg = l.pkg
	x.unit.opts = map[string]string{}
	t0 := time.Now()
	res = &UnitResult{Unit: "lemma " + l.name, File: l.file, Pos: l.loc}
	defer func() {
		if r := recover(); r != nil {
			res.Err = errText(r)
		}
		x.finish(res, t0)
	}()
	x.sortTypes()
	use := map[string]bool{}
	for _, u := range l.uses {
		use[u] = true
	}
	x.addLemmas(l, use)
	st := &State{heaps: map[string]*Term{}, wf: map[int]bool{}}
	c := &specCtx{x: x, pkg: l.pkg, vars: map[string]SV{}, noWF: true}
	var vs []*Term
	var ind *Term
	for _, p := range l.params {
		t, s := x.resolveType(l.pkg, p.typ)
		v := NewVar(p.name, s)
		c.vars[p.name] = SV{v, t}
		vs = append(vs, v)
		if p.name == l.induct {
			ind = v
		}
	}
	body := c.boolean(l.body)
	for _, e := range l.inst {
		call, ok := e.(*ast.CallExpr)
		id, ok2 := call.Fun.(*ast.Ident)
		if !ok || !ok2 {
			panic(specErr{"by: not an instance of a lemma"})
		}
		found := false
		for _, k := range x.w.sp.lemmas {
			if k == l {
				break // only earlier lemmas
			}
			if k.name != id.Name || len(k.params) != len(call.Args) {
				continue
			}
			found = true
			c2 := &specCtx{x: x, pkg: k.pkg, vars: map[string]SV{}, noWF: true}
			for i, p := range k.params {
				c2.vars[p.name] = c.eval(call.Args[i])
			}
			st.assume(c2.boolean(k.body))
			if !k.axiom {
				usedLemmas[k.name] = true
			}
		}
		if !found {
			panic(specErr{"by: no earlier lemma " + id.Name})
		}
	}
	if l.induct == "" {
		x.oblige(st, "lemma", l.name, 0, body)
	} else {
		if ind == nil {
			panic(specErr{"induction variable " + l.induct})
		}
		b := st.clone()
		b.assume(Le(ind, Int(0)))
		x.oblige(b, "lemma", l.name+" (base)", 0, body)
		s := st.clone()
		s.assume(Lt(Int(0), ind))
		// hypothesis at ind-1 for all other parameters
		m := map[int]*Term{ind.id: Sub(ind, Int(1))}
		var bs []*Term
		for _, v := range vs {
			if v != ind {
				bv := NewBound(strings.SplitN(v.op, "!", 2)[0], v.sort)
				m[v.id] = bv
				bs = append(bs, bv)
			}
		}
		ih := Subst(body, m)
		// the instance at the same parameters first
		s.assume(Subst(body, map[int]*Term{ind.id: Sub(ind, Int(1))}))
		if len(bs) > 0 {
			s.assume(Forall(bs, ih))
		}
		x.oblige(s, "lemma", l.name+" (step)", 0, body)
	}
	x.wg.Wait()
	return res
}

func errText(r interface{}) string {
	switch e := r.(type) {
	case Unsup:
		return "outside the verifier's reach: " + e.msg
	case specErr:
		return "contract does not apply: " + e.msg
	}
	if os.Getenv("GOV_PANIC") != "" {
		panic(r)
	}
	return fmt.Sprint("internal: ", r)
}

func (x *Exec) finish(res *UnitResult, t0 time.Time) {
	x.wg.Wait()
	res.Obls = x.obls
	res.Trusted = sortedKeys(x.trusted)
	res.Contracts = sortedKeys(x.tUnits)
	res.Inlined = sortedKeys(x.inlined)
	res.Axioms = sortedKeys(usedAxioms)
	res.Lemmas = sortedKeys(usedLemmas)
	res.Notes = append(res.Notes, x.notes...)
	res.InvLost = sortedKeys(x.invLost)
	res.Kept = sortedKeys(x.kept)
	res.InvKept = x.invCnt
	res.Paths = x.paths
	res.Steps = x.steps
	res.Queries = solverCnt
	res.SolverMs = solverTime.Milliseconds()
	res.Ms = time.Since(t0).Milliseconds()
}

// ---- units ----

func (w *World) verifyUnit(u *Unit) (res *UnitResult) {
	seqBytes = u.seq
	x := newExec(w)
	x.unit = u
	t0 := time.Now()
	res = &UnitResult{Unit: u.Name, File: fmt.Sprintf("%s:%d", u.file, u.line), Bounded: u.bounded}
	if v, ok := u.opts["ms"]; ok {
		fmt.Sscan(v, &w.oblMs)
		w.oblMs *= w.slow
	}
	if v, ok := u.opts["candms"]; ok {
		fmt.Sscan(v, &w.candMs)
		w.candMs *= w.slow
	}
	if v, ok := u.opts["fuel"]; ok {
		fmt.Sscan(v, &recFuel)
	}
	if v, ok := u.opts["budget"]; ok {
		var s int
		fmt.Sscan(v, &s)
		x.deadline = time.Now().Add(time.Duration(s) * time.Second)
	}
	defer func() {
		if r := recover(); r != nil {
			res.Err = errText(r)
		}
		x.finish(res, t0)
	}()
	fn := w.fns[u.full]
	if (fn == nil || fn.Blocks == nil) && u.opts["helper"] != "" {
		// only a step of its callers' proofs, which use whatever is there now
		res.Notes = append(res.Notes, u.full+" does not exist any more; its callers are checked without it")
		return
	}
	if fn == nil || fn.Blocks == nil {
		res.Err = "the function under contract " + u.full + " does not exist any more"
		return
	}
	u.fn = fn
	res.Pos = x.pos(fn.Pos())
	x.sortTypes()
	x.runInits()
	use := map[string]bool{}
	for _, l := range u.lemmas {
		use[l] = true
	}
	x.addLemmas(nil, use)
	st := newState()
	fr := &Frame{fn: fn, env: map[ssa.Value]Val{}, active: map[*loop]*activeLoop{}, chain: []*ssa.Function{fn}, top: true}
	var args []Val
	for i, p := range fn.Params {
		v := NewVar(p.Name(), sortOf(p.Type()))
		x.assumeWF(st, v, p.Type())
		if i == 0 && fn.Signature.Recv() != nil {
			if _, ok := p.Type().Underlying().(*types.Pointer); ok {
				st.assume(Lt(Int(0), v))
			}
		}
		if _, ok := p.Type().Underlying().(*types.Pointer); ok {
			st.assume(Le(Int(0), v))
		}
		if _, ok := p.Type().Underlying().(*types.Map); ok {
			st.assume(Le(Int(0), v))
		}
		fr.env[p] = v
		args = append(args, v)
	}
	var cells []Val
	for _, p := range fn.FreeVars {
		v := NewVar(p.Name(), sortOf(p.Type()))
		st.assume(Lt(Int(0), v))
		x.assumeWF(st, v, p.Type())
		for _, o := range cells {
			st.assume(Not(Eq(asTerm(o), v)))
		}
		fr.env[p] = v
		cells = append(cells, v)
	}
	entryArgs = args
	entryCells = cells
	x.entry = st
	c := x.unitCtx(st)
	for _, r := range u.req {
		st.assume(c.boolean(r.ex))
	}
	x.entry = st.clone()
	x.entry.heaps = st.heaps
	x.ctx(st)
	// the contract must be satisfiable
	if len(u.req) > 0 {
		scr := buildScript(st.pc.list(), False, seqBytes, true)
		v, _ := solverPool.ask(scr, "", 1500)
		if v == Unsat {
			x.obls = append(x.obls, &Obl{Name: "the preconditions are satisfiable", Kind: "vacuity", Verd: Sat, Pos: x.pos(fn.Pos())})
		} else {
			x.obls = append(x.obls, &Obl{Name: "the preconditions are not refutable", Kind: "vacuity", Verd: Unsat, By: "z3", Pos: x.pos(fn.Pos())})
		}
	}
	returns := 0
	fr.k = func(st *State, res []Val) {
		x.paths++
		returns++
		x.atReturn(u, fn, st, res)
	}
	if c := u.opts["codec"]; c != "" {
		x.codec(st, fn, c)
	}
	x.run(fr, fn.Blocks[0], 0, st.clone())
	if returns == 0 && u.opts["noreturn"] == "" {
		x.obls = append(x.obls, &Obl{Name: "the function can return", Kind: "vacuity", Verd: Unknown, Pos: x.pos(fn.Pos()), Out: "no path reaches a return"})
	}
	return
}

func (x *Exec) atReturn(u *Unit, fn *ssa.Function, st *State, res []Val) {
	x.ctx(st)
	c := x.unitCtx(st)
	var r Val = Tuple(res)
	if len(res) == 1 {
		r = res[0]
	}
	x.bindResults(c, u, fn.Signature, r)
	c.oldVars = nil
	for _, e := range u.ens {
		g := c.boolean(e.ex)
		x.oblProps = e.props
		x.oblige(st, "postcondition", fmt.Sprintf("%s ensures %s: %s", u.Name, e.name, e.src), fn.Pos(), g)
		x.oblProps = nil
	}
	if !u.anyMod && !u.noframe {
		x.frameObls(u, fn, st)
	}
}

func (x *Exec) frameObls(u *Unit, fn *ssa.Function, st *State) {
	c := x.unitCtx(x.entry)
	mods := map[string][]*Term{}
	anyK := map[string]bool{}
	for _, m := range u.mods {
		k, r := x.modTarget(c, m)
		if r == nil {
			anyK[k] = true
		} else {
			mods[k] = append(mods[k], r)
		}
	}
	var keys []string
	for k := range st.heaps {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		hi := heapTab[k]
		h, h0 := st.heaps[k], x.entry.heap(k)
		if h == h0 || anyK[k] {
			continue
		}
		if hi.kind == 'g' {
			if strings.Contains(k, "@") {
				continue
			}
			x.oblige(st, "frame", u.Name+" does not change "+k[2:], fn.Pos(), Eq(h, h0))
			continue
		}
		al := x.entry.allocNow()
		// stores to new or listed objects are allowed
		t := h
		for t.is("store") {
			r := t.args[1]
			if isAllocTerm(r) {
				b, _ := allocBase(r)
				if b.maxV >= x.entry.al.maxV {
					t = t.args[0]
					continue
				}
			}
			listed := false
			for _, m := range mods[k] {
				if m == r {
					listed = true
				}
			}
			if !listed {
				break
			}
			t = t.args[0]
		}
		if t == h0 {
			continue
		}
		r := NewVar("r", SInt)
		s2 := st.clone()
		s2.assume(And(Lt(r, al), Le(Int(0), r)))
		for _, m := range mods[k] {
			s2.assume(Not(Eq(r, m)))
		}
		x.oblige(s2, "frame", u.Name+" changes no other "+keyDesc(k), fn.Pos(), Eq(Select(h, r), Select(h0, r)))
	}
}

var _ ast.Expr
