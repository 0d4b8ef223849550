package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Exec symbolically executes one unit (a function under contract).
type Exec struct {
	skipInits bool
	oblProps  []string
	ctxPC     *PC
	prog      *ssa.Program
	w         *World
	unit      *Unit
	recs      []*writeSet
	mute      int
	obls      []*Obl
	oblSeen   map[string]bool
	wg        sync.WaitGroup
	paths     int
	steps     int
	loops     map[*ssa.Function]map[*ssa.BasicBlock]*loop
	hcache    map[string]map[string]bool
	tUnits    map[string]bool // contracts relied upon
	trusted   map[string]bool // external models relied upon
	inlined   map[string]bool
	notes     []string
	entry     *State // state at function entry
	feasN     int
	stack     []string
	invLost   map[string]bool
	invKept   map[string]bool
	kept      map[string]bool // hint names of the invariants found
	invCnt    int
	deadline  time.Time
	canonArgs []Val
	phase     string
}

// Obl is one proof obligation.
type Obl struct {
	Name   string
	Kind   string
	Pos    string
	Goal   string
	Verd   Verdict
	By     string
	Out    string
	Ms     int64
	Script string
	path   string
	Props  []string
}

// Unsup is raised for code outside the verifier's reach.
type Unsup struct{ msg string }

func unsup(f string, a ...interface{}) { panic(Unsup{fmt.Sprintf(f, a...)}) }

// Frame is an activation.
type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Val
	k      func(st *State, res []Val)
	depth  int
	active map[*loop]*activeLoop
	defers []*deferred
	chain  []*ssa.Function
	top    bool
}

type deferred struct {
	call *ssa.CallCommon
	fn   Val
	args []Val
	pos  token.Pos
}

func (f *Frame) clone() *Frame {
	n := *f
	n.env = make(map[ssa.Value]Val, len(f.env)+4)
	for k, v := range f.env {
		n.env[k] = v
	}
	n.active = make(map[*loop]*activeLoop, len(f.active))
	for k, v := range f.active {
		n.active[k] = v
	}
	n.defers = append([]*deferred(nil), f.defers...)
	return &n
}

func (x *Exec) pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := x.prog.Fset.Position(p)
	f := q.Filename
	if i := strings.Index(f, "/repo/"); i >= 0 {
		f = f[i+6:]
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

// ---- obligations ----

func (x *Exec) oblige(st *State, kind, name string, pos token.Pos, goal *Term) {
	if x.mute > 0 {
		return
	}
	key := fmt.Sprintf("%d/%d/%s", pcid(st.pc), goal.id, name)
	if x.oblSeen[key] {
		return
	}
	x.oblSeen[key] = true
	o := &Obl{Name: name, Kind: kind, Pos: x.pos(pos), path: st.path, Props: x.oblProps}
	if kind == "safety" && x.oblProps == nil {
		o.Props = x.unit.nopProps
	}
	x.obls = append(x.obls, o)
	if goal == True {
		o.Verd, o.By = Unsat, "simplifier"
		return
	}
	x.ctx(st)
	if ps := splitGoal(goal); len(ps) > 1 {
		x.obls = x.obls[:len(x.obls)-1]
		for i, p := range ps {
			s2 := st
			if len(p.hyps) > 0 {
				s2 = st.clone()
				for _, h := range p.hyps {
					s2.assume(h)
				}
			}
			x.oblige(s2, kind, fmt.Sprintf("%s#%d", name, i+1), pos, p.goal)
		}
		return
	}
	if st.pc.has(goal) {
		o.Verd, o.By = Unsat, "simplifier"
		return
	}
	o.Goal = goal.String()
	hy := st.pc.list()
	scr := buildScript(hy, goal, seqBytes, true)
	o.Script = scr
	x.wg.Add(1)
	go func() {
		defer x.wg.Done()
		t0 := time.Now()
		o.Verd, o.By, o.Out = decide(scr, true, x.w.oblMs)
		o.Ms = time.Since(t0).Milliseconds()
		if o.Verd == Unsat {
			o.Script = ""
		}
	}()
}

type subgoal struct {
	hyps []*Term
	goal *Term
}

// splitGoal breaks a goal into conjuncts, moving antecedents to the hypotheses and
// replacing universally quantified variables by fresh constants.
func splitGoal(g *Term) []subgoal {
	switch {
	case g.is("and"):
		var out []subgoal
		for _, a := range g.args {
			out = append(out, splitGoal(a)...)
		}
		return out
	case g.is("=>"):
		sub := splitGoal(g.args[1])
		for i := range sub {
			sub[i].hyps = append([]*Term{g.args[0]}, sub[i].hyps...)
		}
		return sub
	case g.kind == KQuant && g.op == "forall":
		m := map[int]*Term{}
		for _, b := range g.bound {
			m[b.id] = NewVar(strings.SplitN(b.op, "?", 2)[0], b.sort)
		}
		return splitGoal(Subst(g.args[0], m))
	}
	return []subgoal{{nil, g}}
}

func pcid(p *PC) int {
	if p == nil {
		return 0
	}
	return p.id
}

// safety: an obligation for the absence of a run-time panic, assumed afterwards.
func (x *Exec) safety(st *State, name string, pos token.Pos, goal *Term) {
	if goal == True {
		return
	}
	if x.unit.nopanic && x.mute == 0 && !x.inPanicOK(st) {
		x.oblige(st, "safety", name+" at "+x.pos(pos), pos, goal)
	}
	if goal == False {
		st.assume(False)
		return
	}
	st.assume(goal)
}

func (x *Exec) inPanicOK(st *State) bool { return false }

// prove is a synchronous query used to guide execution.
func (x *Exec) prove(st *State, goal *Term, ms int, full bool) bool {
	if goal == True {
		return true
	}
	if goal == False && !full {
		// feasibility
	}
	if st.pc.has(goal) {
		return true
	}
	x.ctx(st)
	hy := st.pc.list()
	if !full {
		hy = quantFree(hy)
	}
	scr := buildScript(hy, goal, seqBytes, full)
	v, _ := solverPool.ask(scr, "", ms)
	return v == Unsat
}

var qfCache = map[int]bool{}

func hasQuant(t *Term) bool {
	if t.kind == KQuant {
		return true
	}
	if len(t.args) == 0 {
		return false
	}
	if v, ok := qfCache[t.id]; ok {
		return v
	}
	r := false
	for _, a := range t.args {
		if hasQuant(a) {
			r = true
			break
		}
	}
	qfCache[t.id] = r
	return r
}

func quantFree(h []*Term) []*Term {
	var out []*Term
	for _, t := range h {
		if !hasQuant(t) {
			out = append(out, t)
		}
	}
	return out
}

// feasible: the path condition is not refuted quickly.
func (x *Exec) feasible(st *State) bool {
	if st.pc.has(False) {
		return false
	}
	x.feasN++
	hy := quantFree(st.pc.list())
	scr := buildScript(hy, False, seqBytes, false)
	v, _ := solverPool.ask(scr, "", x.w.feasMs)
	return v != Unsat
}

func (x *Exec) ctx(st *State) {
	if x.ctxPC == st.pc && ctxNonNeg != nil {
		return
	}
	x.ctxPC = st.pc
	memo := map[*Term]bool{}
	ctxNonNeg = func(t *Term) bool {
		if l, _ := bounds(t); l != nil && l.Sign() >= 0 {
			return true
		}
		k := Le(Int(0), t)
		if k == True {
			return true
		}
		if k == False {
			return false
		}
		if r, ok := memo[k]; ok {
			return r
		}
		memo[k] = false // no recursion through script generation
		r := x.quick(st, k)
		memo[k] = r
		return r
	}
}

var quickCache = map[string]bool{}

// quick decides a quantifier-free goal from the quantifier-free path condition.
func (x *Exec) quick(st *State, goal *Term) bool {
	if st.pc.has(goal) {
		return true
	}
	key := fmt.Sprintf("%d/%d", pcid(st.pc), goal.id)
	if r, ok := quickCache[key]; ok {
		return r
	}
	hook := ctxNonNeg
	ctxNonNeg = nil
	hy := relevant(quantFree(st.pc.list()), goal)
	scr := buildScript(hy, goal, seqBytes, false)
	ctxNonNeg = hook
	v, _ := solverPool.ask(scr, "", 250)
	r := v == Unsat
	quickCache[key] = r
	return r
}

// relevant keeps integer facts sharing symbols with the goal (two rounds).
func relevant(hy []*Term, goal *Term) []*Term {
	if len(hy) < 30 {
		return hy
	}
	syms := map[string]bool{}
	collectSyms(goal, syms)
	keep := make([]bool, len(hy))
	for round := 0; round < 3; round++ {
		ch := false
		for i, h := range hy {
			if keep[i] {
				continue
			}
			s := symsOf(h)
			for k := range s {
				if syms[k] {
					keep[i] = true
					ch = true
					break
				}
			}
		}
		for i, h := range hy {
			if keep[i] {
				for k := range symsOf(h) {
					syms[k] = true
				}
			}
		}
		if !ch {
			break
		}
	}
	var out []*Term
	for i, h := range hy {
		if keep[i] {
			out = append(out, h)
		}
	}
	return out
}

var symCache = map[int]map[string]bool{}

func symsOf(t *Term) map[string]bool {
	if s, ok := symCache[t.id]; ok {
		return s
	}
	s := map[string]bool{}
	seen := map[int]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		if t.kind == KVar && !t.isBV {
			s[t.op] = true
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	rec(t)
	symCache[t.id] = s
	return s
}

func collectSyms(t *Term, out map[string]bool) {
	for k := range symsOf(t) {
		out[k] = true
	}
}

// ---- values ----

var (
	closTab   = map[int64]*Closure{}
	closConst = map[*ssa.Function]*Term{}
	closNext  = int64(-1 << 40)
	globRef   = map[*ssa.Global]*Term{}
	globByRef = map[int64]*ssa.Global{}
	globNext  = int64(-1000)
	itagOf    = map[string]int64{}
)

func closureTerm(c *Closure) *Term {
	if len(c.binds) == 0 {
		if t, ok := closConst[c.fn]; ok {
			return t
		}
	}
	closNext--
	t := Int(closNext)
	closTab[closNext] = c
	if len(c.binds) == 0 {
		closConst[c.fn] = t
	}
	return t
}

func globalRef(g *ssa.Global) *Term {
	if t, ok := globRef[g]; ok {
		return t
	}
	globNext--
	t := Int(globNext)
	globRef[g] = t
	globByRef[globNext] = g
	return t
}

func typeTag(t types.Type) *Term {
	k := types.TypeString(t, nil)
	if v, ok := itagOf[k]; ok {
		return Int(v)
	}
	itagOf[k] = int64(len(itagOf) + 1)
	return Int(itagOf[k])
}

// asTerm converts a value to a term (for storing, passing through contracts).
func asTerm(v Val) *Term {
	switch a := v.(type) {
	case *Term:
		return a
	case *Addr:
		if a.idx == nil && len(a.path) == 0 {
			return a.ref
		}
		unsup("interior pointer escapes")
	case *Closure:
		return closureTerm(a)
	}
	unsup("value %T has no term", v)
	return nil
}

func (x *Exec) val(fr *Frame, v ssa.Value) Val {
	switch c := v.(type) {
	case *ssa.Const:
		return constTerm(c)
	case *ssa.Global:
		pt := c.Type().Underlying().(*types.Pointer).Elem()
		return &Addr{key: cellKey(pt), ref: globalRef(c), typ: pt}
	case *ssa.Function:
		return &Closure{fn: c}
	}
	r, ok := fr.env[v]
	if !ok {
		unsup("undefined value %s = %s in %s", v.Name(), v, fr.fn)
	}
	return r
}

func (x *Exec) T(fr *Frame, v ssa.Value) *Term { return asTerm(x.val(fr, v)) }

func constTerm(c *ssa.Const) *Term {
	t := c.Type()
	if c.Value == nil {
		return zeroOf(t)
	}
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			return Bool(constant.BoolVal(c.Value))
		case b.Info()&types.IsString != 0:
			return StrLit(constant.StringVal(c.Value))
		case b.Info()&types.IsInteger != 0:
			v := constant.ToInt(c.Value)
			i, ok := new(big.Int).SetString(v.ExactString(), 10)
			if !ok {
				unsup("constant %s", c)
			}
			return BigInt(i)
		case b.Info()&types.IsFloat != 0:
			return UF("float_"+sanitize(c.Value.ExactString()), SInt)
		}
	}
	// constants of type parameters or interfaces
	unsup("constant %s of type %s", c, t)
	return nil
}

// valOfTerm turns a loaded term of Go type t into an executor value.
func valOfTerm(t *Term, gt types.Type) Val {
	if _, ok := gt.Underlying().(*types.Signature); ok && t.kind == KInt {
		if c, ok := closTab[t.ival.Int64()]; ok {
			return c
		}
	}
	return t
}

func (x *Exec) fresh(st *State, name string, t types.Type) Val {
	if tp, ok := t.(*types.Tuple); ok {
		var out Tuple
		for i := 0; i < tp.Len(); i++ {
			out = append(out, x.fresh(st, fmt.Sprintf("%s_%d", name, i), tp.At(i).Type()))
		}
		return out
	}
	v := NewVar(name, sortOf(t))
	x.assumeWF(st, v, t)
	return v
}

// ---- branching ----

func (x *Exec) branch(fr *Frame, st *State, c *Term, tag string, yes, no func(fr *Frame, st *State)) {
	if c == True {
		yes(fr, st)
		return
	}
	if c == False {
		no(fr, st)
		return
	}
	if st.pc.has(c) {
		yes(fr, st)
		return
	}
	if st.pc.has(Not(c)) {
		no(fr, st)
		return
	}
	s1, s2 := st.clone(), st
	s1.assume(c)
	s2.assume(Not(c))
	s1.path += tag + "T"
	s2.path += tag + "F"
	f1 := x.feasible(s1)
	f2 := x.feasible(s2)
	switch {
	case f1 && f2:
		fr2 := fr.clone()
		yes(fr2, s1)
		no(fr, s2)
	case f1:
		yes(fr, s1)
	case f2:
		no(fr, s2)
	}
}

// ---- main loop ----

const maxSteps = 4000000

func (x *Exec) run(fr *Frame, b *ssa.BasicBlock, i int, st *State) {
	for ; i < len(b.Instrs); i++ {
		x.steps++
		if x.steps > maxSteps || x.steps&255 == 0 && time.Now().After(x.deadline) {
			unsup("exploration budget exhausted")
		}
		if st.pc != nil && st.pc.t == False {
			if os.Getenv("GOV_DEAD") != "" {
				fmt.Fprintln(os.Stderr, "dead at", x.pos(b.Instrs[i].Pos()), b.Instrs[i], st.path)
			}
			return
		}
		switch in := b.Instrs[i].(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.Jump:
			x.enter(fr, b, b.Succs[0], st)
			return
		case *ssa.If:
			c := x.T(fr, in.Cond)
			if c != True && c != False {
				if al := x.headerTrial(fr, b); al != nil {
					x.cutLoop(al.sfr, al.lp, al.svals, al.sst)
					return
				}
			} else if al := x.headerTrial(fr, b); al != nil && !x.condOnPhi(fr, in.Cond, b) {
				x.cutLoop(al.sfr, al.lp, al.svals, al.sst)
				return
			}
			tag := fmt.Sprintf("%d", b.Index)
			x.branch(fr, st, c, tag,
				func(fr *Frame, st *State) { x.enter(fr, b, b.Succs[0], st) },
				func(fr *Frame, st *State) { x.enter(fr, b, b.Succs[1], st) })
			return
		case *ssa.Return:
			for _, al := range fr.active {
				if al.probe {
					return
				}
			}
			res := make([]Val, len(in.Results))
			for j, r := range in.Results {
				res[j] = x.val(fr, r)
			}
			fr.k(st, res)
			return
		case *ssa.Panic:
			x.doPanic(fr, in, st)
			return
		case *ssa.RunDefers:
			ds := fr.defers
			if len(ds) == 0 {
				continue
			}
			fr.defers = nil
			x.runDefers(fr, ds, st, func(st *State) {
				f2 := fr.clone()
				x.run(f2, b, i+1, st)
			})
			return
		case *ssa.Call:
			done := x.call(fr, in, &in.Call, st, func(st *State, r Val) {
				f2 := fr.clone()
				f2.env[in] = r
				x.run(f2, b, i+1, st)
			})
			if done == nil {
				return
			}
			fr.env[in] = done.v
		case *ssa.Defer:
			d := &deferred{call: &in.Call, pos: in.Pos()}
			if !in.Call.IsInvoke() {
				if _, ok := in.Call.Value.(*ssa.Builtin); !ok {
					d.fn = x.val(fr, in.Call.Value)
				}
			} else {
				d.fn = x.val(fr, in.Call.Value)
			}
			for _, a := range in.Call.Args {
				d.args = append(d.args, x.val(fr, a))
			}
			fr.defers = append(fr.defers, d)
		case *ssa.Next:
			done := x.next(fr, in, st, func(fr *Frame, st *State, r Val) {
				fr.env[in] = r
				x.run(fr, b, i+1, st)
			})
			if !done {
				return
			}
		default:
			if !x.step(fr, b.Instrs[i], st) {
				return
			}
		}
	}
}

func (x *Exec) runDefers(fr *Frame, ds []*deferred, st *State, k func(st *State)) {
	if len(ds) == 0 {
		k(st)
		return
	}
	d := ds[len(ds)-1]
	rest := ds[:len(ds)-1]
	r := x.callVals(fr, nil, d.call, d.fn, d.args, st, d.pos, func(st *State, _ Val) {
		x.runDefers(fr, rest, st, k)
	})
	if r != nil {
		x.runDefers(fr, rest, st, k)
	}
}

func (x *Exec) condOnPhi(fr *Frame, c ssa.Value, b *ssa.BasicBlock) bool {
	seen := map[ssa.Value]bool{}
	var rec func(v ssa.Value) bool
	rec = func(v ssa.Value) bool {
		if seen[v] {
			return false
		}
		seen[v] = true
		switch y := v.(type) {
		case *ssa.Phi:
			return y.Block() == b
		case *ssa.BinOp:
			return rec(y.X) || rec(y.Y)
		case *ssa.UnOp:
			if y.Op != token.MUL {
				return rec(y.X)
			}
		case *ssa.Convert:
			return rec(y.X)
		case *ssa.Extract:
			if nx, ok := y.Tuple.(*ssa.Next); ok {
				it, ok := fr.env[nx.Iter].(*iter)
				return nx.IsString && ok && it.isStr && it.str.kind == KLit
			}
		}
		return false
	}
	return rec(c)
}

func (x *Exec) doPanic(fr *Frame, in *ssa.Panic, st *State) {
	if x.unit.nopanic {
		// panics are allowed under the unit's panic condition, evaluated at entry
		g := False
		if len(x.unit.panics) > 0 {
			g = x.panicCond()
		}
		x.oblige(st, "safety", "explicit panic unreachable at "+x.pos(in.Pos()), in.Pos(), g)
	}
}

// enter follows an edge.
func (x *Exec) enter(fr *Frame, from, to *ssa.BasicBlock, st *State) {
	for lp, al := range fr.active {
		if !lp.body[to] {
			if al.probe {
				return
			}
			delete(fr.active, lp)
		}
	}
	var vals []Val
	pi := -1
	for j, p := range to.Preds {
		if p == from {
			pi = j
			break
		}
	}
	var phis []*ssa.Phi
	for _, ins := range to.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
		vals = append(vals, x.val(fr, p.Edges[pi]))
	}
	if lp := x.loopsOf(fr.fn)[to]; lp != nil {
		if al := fr.active[lp]; al != nil && lp.body[from] {
			if !al.unroll {
				al.onBack(fr, st, vals)
				return
			}
			al2 := *al
			al2.count++
			if al2.count > 100 {
				x.cutLoop(fr, lp, vals, st)
				return
			}
			al2.sfr, al2.sst, al2.svals = fr.clone(), st.clone(), vals
			fr.active[lp] = &al2
		} else {
			if _, isIf := to.Instrs[len(to.Instrs)-1].(*ssa.If); isIf {
				fr.active[lp] = &activeLoop{lp: lp, unroll: true, sfr: fr.clone(), sst: st.clone(), svals: vals}
			} else {
				x.cutLoop(fr, lp, vals, st)
				return
			}
		}
	}
	for j, p := range phis {
		fr.env[p] = vals[j]
	}
	x.run(fr, to, len(phis), st)
}

func (x *Exec) headerTrial(fr *Frame, b *ssa.BasicBlock) *activeLoop {
	lp := x.loopsOf(fr.fn)[b]
	if lp == nil {
		return nil
	}
	if al := fr.active[lp]; al != nil && al.unroll {
		return al
	}
	return nil
}

// ---- simple instructions ----

// step executes one non-control instruction; false ends the path.
func (x *Exec) step(fr *Frame, ins ssa.Instruction, st *State) bool {
	x.ctx(st)
	set := func(v ssa.Value, r Val) { fr.env[v] = r }
	switch in := ins.(type) {
	case *ssa.Alloc:
		t := in.Type().Underlying().(*types.Pointer).Elem()
		set(in, x.newObj(st, t))
	case *ssa.BinOp:
		set(in, x.binop(st, in.Op, x.val(fr, in.X), x.val(fr, in.Y), in.X.Type(), in.Type(), in.Pos(), in.Y.Type()))
	case *ssa.UnOp:
		switch in.Op {
		case token.MUL:
			pt := in.X.Type().Underlying().(*types.Pointer).Elem()
			a := x.addrOf(x.val(fr, in.X), pt)
			x.nilCheck(st, a, in.Pos())
			set(in, valOfTerm(x.load(st, a), pt))
		case token.NOT:
			set(in, Not(x.T(fr, in.X)))
		case token.SUB:
			if isInteger(in.Type()) {
				set(in, x.wrap(st, Neg(x.T(fr, in.X)), in.Type()))
			} else {
				set(in, UF("fneg", SInt, x.T(fr, in.X)))
			}
		case token.XOR:
			t := x.T(fr, in.X)
			if isUnsigned(in.Type()) {
				_, hi, _ := intRange(in.Type())
				set(in, Sub(BigInt(hi), t))
			} else {
				set(in, Sub(Int(-1), t))
			}
		case token.ARROW:
			et := in.X.Type().Underlying().(*types.Chan).Elem()
			v := x.fresh(st, "recv", et)
			if in.CommaOk {
				set(in, Tuple{v, NewVar("ok", SBool)})
			} else {
				set(in, v)
			}
		default:
			unsup("unop %s", in.Op)
		}
	case *ssa.Store:
		pt := in.Addr.Type().Underlying().(*types.Pointer).Elem()
		a := x.addrOf(x.val(fr, in.Addr), pt)
		x.nilCheck(st, a, in.Pos())
		x.ctx(st)
		x.store(st, a, asTerm(x.val(fr, in.Val)))
	case *ssa.FieldAddr:
		pt := in.X.Type().Underlying().(*types.Pointer).Elem()
		a := x.addrOf(x.val(fr, in.X), pt)
		x.nilCheck(st, a, in.Pos())
		n := *a
		n.path = append(append([]pstep(nil), a.path...), pstep{st: pt, field: in.Field})
		n.typ = pt.Underlying().(*types.Struct).Field(in.Field).Type()
		set(in, &n)
	case *ssa.Field:
		v := x.T(fr, in.X)
		r := structDT(in.X.Type()).get(v, in.Field)
		x.assumeWF(st, r, in.Type())
		set(in, valOfTerm(r, in.Type()))
	case *ssa.IndexAddr:
		i := x.T(fr, in.Index)
		switch u := in.X.Type().Underlying().(type) {
		case *types.Slice:
			s := x.T(fr, in.X)
			x.safety(st, "index in range", in.Pos(), And(Le(Int(0), i), Lt(i, SlLen(s))))
			set(in, &Addr{key: elemKey(u.Elem()), ref: SlArr(s), idx: Add(SlOff(s), i), typ: u.Elem()})
		case *types.Pointer:
			at := u.Elem().Underlying().(*types.Array)
			a := x.addrOf(x.val(fr, in.X), u.Elem())
			x.nilCheck(st, a, in.Pos())
			x.safety(st, "index in range", in.Pos(), And(Le(Int(0), i), Lt(i, Int(at.Len()))))
			n := *a
			if a.idx == nil && len(a.path) == 0 {
				n.idx = i
			} else {
				n.path = append(append([]pstep(nil), a.path...), pstep{idx: i})
			}
			n.typ = at.Elem()
			set(in, &n)
		}
	case *ssa.Index:
		i := x.T(fr, in.Index)
		switch u := in.X.Type().Underlying().(type) {
		case *types.Array:
			x.safety(st, "index in range", in.Pos(), And(Le(Int(0), i), Lt(i, Int(u.Len()))))
			v := x.T(fr, in.X)
			if v.sort == SStr {
				set(in, StrAt(v, i))
			} else {
				r := Select(v, i)
				x.assumeWF(st, r, u.Elem())
				set(in, r)
			}
		default: // string
			s := x.T(fr, in.X)
			x.safety(st, "string index in range", in.Pos(), And(Le(Int(0), i), Lt(i, StrLen(s))))
			x.ctx(st)
			r := StrAt(s, i)
			x.assumeWF(st, r, in.Type())
			set(in, r)
		}
	case *ssa.Lookup:
		if m, ok := in.X.Type().Underlying().(*types.Map); ok {
			ref := x.T(fr, in.X)
			c := x.mapContent(st, ref, m)
			d := mapDT(m)
			k := x.T(fr, in.Index)
			v := mapGet(d, c, k)
			if ref.kind != KInt {
				st.assume(Imp(Eq(ref, Int(0)), And(Not(mapHas(d, c, k)), Eq(v, zeroOf(m.Elem())))))
			}
			if !st.wf[c.id] || true {
				// ground instance of the map invariant
				has := mapHas(d, c, k)
				if has != True && has != False {
					st.assume(And(Imp(Not(has), Eq(v, zeroOf(m.Elem()))), Imp(has, Lt(Int(0), d.get(c, 2)))))
				}
			}
			x.assumeWF(st, v, m.Elem())
			if in.CommaOk {
				set(in, Tuple{valOfTerm(v, m.Elem()), mapHas(d, c, k)})
			} else {
				set(in, valOfTerm(v, m.Elem()))
			}
		} else {
			s, i := x.T(fr, in.X), x.T(fr, in.Index)
			x.safety(st, "string index in range", in.Pos(), And(Le(Int(0), i), Lt(i, StrLen(s))))
			x.ctx(st)
			r := StrAt(s, i)
			x.assumeWF(st, r, in.Type())
			set(in, r)
		}
	case *ssa.MapUpdate:
		m := in.Map.Type().Underlying().(*types.Map)
		ref := x.T(fr, in.Map)
		x.safety(st, "map not nil on write", in.Pos(), Not(Eq(ref, Int(0))))
		d := mapDT(m)
		c := x.mapContent(st, ref, m)
		key := mapKey(m)
		x.setHeap(st, key, ref, Store(st.heap(key), ref, mapPut(d, c, x.T(fr, in.Key), x.T(fr, in.Value))))
	case *ssa.MakeMap:
		m := in.Type().Underlying().(*types.Map)
		r := st.alloc()
		key := mapKey(m)
		x.setHeap(st, key, r, Store(st.heap(key), r, emptyMap(mapDT(m))))
		set(in, r)
	case *ssa.MakeSlice:
		et := in.Type().Underlying().(*types.Slice).Elem()
		n, c := x.T(fr, in.Len), x.T(fr, in.Cap)
		x.safety(st, "makeslice length in range", in.Pos(), And(Le(Int(0), n), Le(n, c), Le(c, Int(maxLen))))
		r := st.alloc()
		key := elemKey(et)
		var cont *Term
		if seqBytes && isByte(et) {
			cont = zeroBytes(c)
		} else {
			cont = ConstArr(SInt, zeroOf(et))
		}
		x.setHeap(st, key, r, Store(st.heap(key), r, cont))
		set(in, dSlice.mk(r, Int(0), n, c))
	case *ssa.MakeChan:
		set(in, st.alloc())
	case *ssa.MakeClosure:
		c := &Closure{fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			c.binds = append(c.binds, x.val(fr, b))
		}
		set(in, c)
	case *ssa.MakeInterface:
		set(in, x.box(st, x.val(fr, in.X), in.X.Type()))
	case *ssa.ChangeInterface:
		set(in, x.val(fr, in.X))
	case *ssa.ChangeType:
		set(in, x.val(fr, in.X))
	case *ssa.Convert:
		set(in, x.convert(st, x.val(fr, in.X), in.X.Type(), in.Type(), in.Pos()))
	case *ssa.TypeAssert:
		set(in, x.typeAssert(st, x.T(fr, in.X), in.AssertedType, in.CommaOk, in.Pos()))
	case *ssa.Extract:
		tp, ok := x.val(fr, in.Tuple).(Tuple)
		if !ok {
			unsup("extract of %T", x.val(fr, in.Tuple))
		}
		v := tp[in.Index]
		set(in, v)
	case *ssa.Slice:
		return x.slice(fr, in, st)
	case *ssa.Range:
		it := &iter{}
		switch u := in.X.Type().Underlying().(type) {
		case *types.Map:
			it.mt = u
			it.m = x.T(fr, in.X)
			it.cont0 = x.mapContent(st, it.m, u)
			ks := sortOf(u.Key())
			it.key = ghostKey(fmt.Sprintf("seen@%s@%s", fr.fn.String(), in.Name()), SArr(ks, SBool))
			x.setHeap(st, it.key, nil, ConstArr(ks, False))
		default:
			it.isStr = true
			it.str = x.T(fr, in.X)
			it.key = ghostKey(fmt.Sprintf("pos@%s@%s", fr.fn.String(), in.Name()), SInt)
			x.setHeap(st, it.key, nil, Int(0))
			it.last = ghostKey(fmt.Sprintf("last@%s@%s", fr.fn.String(), in.Name()), SInt)
			x.setHeap(st, it.last, nil, Int(0))
			for _, lp := range x.loopsOf(fr.fn) {
				if !lp.body[in.Block()] {
					continue
				}
				if o := x.loopIter(fr, lp); o != nil && o.isStr && (it.outer == nil || it.outer.outer == nil && o.outer != nil) {
					it.outer = o
				}
			}
		}
		set(in, it)
	case *ssa.Go:
		x.goStmt(fr, in, st)
	case *ssa.Send:
		x.safetyNote("channel send not modelled")
	case *ssa.Select:
		unsup("select statement")
	case *ssa.SliceToArrayPointer:
		unsup("slice to array pointer")
	default:
		unsup("instruction %T", ins)
	}
	return true
}

func (x *Exec) safetyNote(s string) {
	for _, n := range x.notes {
		if n == s {
			return
		}
	}
	x.notes = append(x.notes, s)
}

func (x *Exec) nilCheck(st *State, a *Addr, pos token.Pos) {
	if a.ref.kind == KInt && a.ref.ival.Sign() < 0 || isAllocTerm(a.ref) || len(a.path) > 0 || a.idx != nil {
		return
	}
	x.safety(st, "pointer not nil", pos, Not(Eq(a.ref, Int(0))))
}

// newObj allocates a zero object of type t.
func (x *Exec) newObj(st *State, t types.Type) Val {
	r := st.alloc()
	key := cellKey(t)
	x.setHeap(st, key, r, Store(st.heap(key), r, zeroOf(t)))
	return &Addr{key: key, ref: r, typ: t}
}

func (x *Exec) slice(fr *Frame, in *ssa.Slice, st *State) bool {
	v := x.val(fr, in.X)
	lo := Int(0)
	if in.Low != nil {
		lo = x.T(fr, in.Low)
	}
	switch u := in.X.Type().Underlying().(type) {
	case *types.Basic: // string
		s := asTerm(v)
		hi := StrLen(s)
		if in.High != nil {
			hi = x.T(fr, in.High)
		}
		x.safety(st, "string slice bounds", in.Pos(), And(Le(Int(0), lo), Le(lo, hi), Le(hi, StrLen(s))))
		x.ctx(st)
		r := StrSub(s, lo, hi)
		if !seqBytes {
			x.subFacts(st, r)
		}
		fr.env[in] = r
		return true
	case *types.Slice:
		s := asTerm(v)
		hi := SlLen(s)
		cp := SlCap(s)
		if in.High != nil {
			hi = x.T(fr, in.High)
		}
		mx := cp
		if in.Max != nil {
			mx = x.T(fr, in.Max)
		}
		x.safety(st, "slice bounds", in.Pos(), And(Le(Int(0), lo), Le(lo, hi), Le(hi, mx), Le(mx, cp)))
		if in.High != nil && !(seqBytes && isByte(u.Elem())) {
			// contents between length and capacity are not tracked
			if x.mute == 0 && x.unit.nopanic {
				x.oblige(st, "engine", "no reslicing beyond the length at "+x.pos(in.Pos()), in.Pos(), Le(hi, SlLen(s)))
			}
			st.assume(Le(hi, SlLen(s)))
		}
		off := Add(SlOff(s), lo)
		arr := SlArr(s)
		fr.env[in] = dSlice.mk(arr, off, Sub(hi, lo), Sub(mx, lo))
		return true
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		a := x.addrOf(v, u.Elem())
		if a.idx != nil || len(a.path) > 0 {
			unsup("slicing an array field")
		}
		n := Int(at.Len())
		hi := n
		if in.High != nil {
			hi = x.T(fr, in.High)
		}
		x.safety(st, "slice bounds", in.Pos(), And(Le(Int(0), lo), Le(lo, hi), Le(hi, n)))
		fr.env[in] = dSlice.mk(a.ref, lo, Sub(hi, lo), Sub(n, lo))
		return true
	}
	unsup("slice of %s", in.X.Type())
	return false
}

func (x *Exec) subFacts(st *State, r *Term) {}

// ---- interfaces ----

func (x *Exec) box(st *State, v Val, t types.Type) *Term {
	var tv *Term
	if a, ok := v.(*Addr); ok && (a.idx != nil || len(a.path) > 0) {
		// interior pointer as interface: opaque, recorded so that calls can havoc it
		tv = NewVar("iptr", SInt)
		ifaceAddr[tv.id] = a
	} else {
		tv = asTerm(v)
	}
	nm := "box$" + sanitize(shortType(t))
	b := UF(nm, SInt, tv)
	if _, ok := boxType[nm]; !ok {
		boxType[nm] = t
		tag := typeTag(t)
		vb := NewBound("v", tv.sort)
		bb := UF(nm, SInt, vb)
		axioms = append(axioms, &Axiom{name: "boxing is injective and carries its type (" + shortType(t) + ")", lem: true, trig: []string{nm},
			f: Forall([]*Term{vb}, And(Eq(UF("itag", SInt, bb), tag), Eq(UF("unbox$"+nm[4:], tv.sort, bb), vb), Not(Eq(bb, Int(0)))), []*Term{bb})})
		groundFacts[nm] = func(u *Term) *Term {
			return And(Eq(UF("itag", SInt, u), tag), Eq(UF("unbox$"+nm[4:], tv.sort, u), u.args[0]), Not(Eq(u, Int(0))))
		}
	}
	return b
}

var boxType = map[string]types.Type{}
var ifaceAddr = map[int]*Addr{}

func (x *Exec) typeAssert(st *State, v *Term, t types.Type, commaOk bool, pos token.Pos) Val {
	var ok, r *Term
	if _, isI := t.Underlying().(*types.Interface); isI {
		r = v
		ok = And(Not(Eq(v, Int(0))), UF("implements$"+sanitize(shortType(t)), SBool, UF("itag", SInt, v)))
		if v.kind == KApp && strings.HasPrefix(v.op, "box$") {
			ok = Bool(types.AssertableTo(t.Underlying().(*types.Interface), boxType[v.op]))
			if bt := boxType[v.op]; bt != nil {
				ok = Bool(types.Implements(bt, t.Underlying().(*types.Interface)))
			}
		}
	} else {
		nm := "box$" + sanitize(shortType(t))
		ok = And(Not(Eq(v, Int(0))), Eq(UF("itag", SInt, v), typeTag(t)))
		r = UF("unbox$"+nm[4:], sortOf(t), v)
		if v.kind == KApp && strings.HasPrefix(v.op, "box$") {
			ok = Bool(v.op == nm)
			if v.op == nm {
				r = v.args[0]
			}
		}
		x.assumeWF(st, r, t)
	}
	if commaOk {
		z := zeroOf(t)
		return Tuple{valOfTerm(Ite(ok, r, z), t), ok}
	}
	x.safety(st, "type assertion holds", pos, ok)
	return valOfTerm(r, t)
}

// ---- arithmetic ----

// wrap reduces a mathematical result into the range of an integer type.
func (x *Exec) wrap(st *State, v *Term, t types.Type) *Term {
	lo, hi, ok := intRange(t)
	if !ok {
		return v
	}
	if l, h := bounds(v); l != nil && l.Cmp(lo) >= 0 && h.Cmp(hi) <= 0 {
		return v
	}
	if v.kind == KInt {
		return BigInt(wrapBig(v.ival, lo, hi))
	}
	if !v.hasBV {
		in := And(Le(BigInt(lo), v), Le(v, BigInt(hi)))
		if x.quick(st, in) {
			return v
		}
	}
	n := new(big.Int).Sub(hi, lo)
	n.Add(n, one)
	return Add(ModE(Sub(v, BigInt(lo)), BigInt(n)), BigInt(lo))
}

func wrapBig(v, lo, hi *big.Int) *big.Int {
	n := new(big.Int).Sub(hi, lo)
	n.Add(n, one)
	r := new(big.Int).Sub(v, lo)
	r.Mod(r, n)
	return r.Add(r, lo)
}

func (x *Exec) nonneg(st *State, t *Term) bool {
	if l, _ := bounds(t); l != nil && l.Sign() >= 0 {
		return true
	}
	if t.kind == KInt {
		return t.ival.Sign() >= 0
	}
	return x.quick(st, Le(Int(0), t))
}

func (x *Exec) binop(st *State, op token.Token, xv, yv Val, xt, rt types.Type, pos token.Pos, yt types.Type) Val {
	// comparisons with closures and addresses
	if op == token.EQL || op == token.NEQ {
		if r := cmpSpecial(xv, yv); r != nil {
			if op == token.NEQ {
				return Not(r)
			}
			return r
		}
	}
	a, b := asTerm(xv), asTerm(yv)
	bt, isB := xt.Underlying().(*types.Basic)
	switch op {
	case token.EQL, token.NEQ:
		var r *Term
		if _, ok := xt.Underlying().(*types.Slice); ok {
			// comparison with nil
			if a.kind == KApp && a.is(dSlice.ctor) || true {
				if b == zeroOf(xt) {
					r = Eq(SlArr(a), Int(0))
				} else {
					r = Eq(SlArr(b), Int(0))
				}
			}
		} else {
			r = Eq(a, b)
		}
		if op == token.NEQ {
			return Not(r)
		}
		return r
	}
	if isB && bt.Info()&types.IsString != 0 {
		switch op {
		case token.ADD:
			x.ctx(st)
			r := StrConcat(a, b)
			// lengths of strings stay representable
			st.assume(Le(StrLen(r), Int(maxLen)))
			return r
		case token.LSS:
			return UF("str_lt", SBool, a, b)
		case token.GTR:
			return UF("str_lt", SBool, b, a)
		case token.LEQ:
			return Not(UF("str_lt", SBool, b, a))
		case token.GEQ:
			return Not(UF("str_lt", SBool, a, b))
		}
	}
	if isB && bt.Info()&types.IsFloat != 0 {
		switch op {
		case token.LSS:
			return UF("flt", SBool, a, b)
		case token.GTR:
			return UF("flt", SBool, b, a)
		case token.LEQ:
			return UF("fle", SBool, a, b)
		case token.GEQ:
			return UF("fle", SBool, b, a)
		}
		return UF("fop_"+map[token.Token]string{token.ADD: "add", token.SUB: "sub", token.MUL: "mul", token.QUO: "div"}[op], SInt, a, b)
	}
	if isB && bt.Info()&types.IsBoolean != 0 {
		switch op {
		case token.AND:
			return And(a, b)
		case token.OR:
			return Or(a, b)
		}
	}
	switch op {
	case token.LSS:
		return Lt(a, b)
	case token.LEQ:
		return Le(a, b)
	case token.GTR:
		return Lt(b, a)
	case token.GEQ:
		return Le(b, a)
	case token.ADD:
		return x.wrap(st, Add(a, b), rt)
	case token.SUB:
		return x.wrap(st, Sub(a, b), rt)
	case token.MUL:
		return x.wrap(st, Mul(a, b), rt)
	case token.QUO, token.REM:
		x.safety(st, "division by zero", pos, Not(Eq(b, Int(0))))
		var q *Term
		if x.nonneg(st, a) && x.nonneg(st, b) {
			if op == token.QUO {
				return DivE(a, b)
			}
			return ModE(a, b)
		}
		// truncated division
		if b.kind == KInt && b.ival.Sign() > 0 {
			q = Ite(Le(Int(0), a), DivE(a, b), Neg(DivE(Neg(a), b)))
		} else {
			ab := Ite(Le(Int(0), b), b, Neg(b))
			aa := Ite(Le(Int(0), a), a, Neg(a))
			q0 := DivE(aa, ab)
			q = Ite(Eq(Bool(true), Eq(Le(Int(0), a), Le(Int(0), b))), q0, Neg(q0))
		}
		if op == token.QUO {
			return x.wrap(st, q, rt)
		}
		return Sub(a, Mul(b, q))
	case token.SHL:
		if b.kind == KInt {
			if b.ival.Sign() < 0 || b.ival.Cmp(big.NewInt(64)) >= 0 {
				return Int(0)
			}
			return x.wrap(st, Mul(a, BigInt(new(big.Int).Lsh(one, uint(b.i64())))), rt)
		}
		if !isUnsigned(yt) {
			x.safety(st, "shift count not negative", pos, Le(Int(0), b))
		}
		r := UF("shl_"+sanitize(shortType(rt)), SInt, a, b)
		x.assumeWF(st, r, rt)
		return r
	case token.SHR:
		if b.kind == KInt && b.ival.Sign() >= 0 && b.ival.Cmp(big.NewInt(64)) < 0 {
			return DivE(a, BigInt(new(big.Int).Lsh(one, uint(b.i64()))))
		}
		if !isUnsigned(yt) {
			x.safety(st, "shift count not negative", pos, Le(Int(0), b))
		}
		r := UF("shr_"+sanitize(shortType(rt)), SInt, a, b)
		x.assumeWF(st, r, rt)
		return r
	case token.AND:
		if a.kind == KInt {
			a, b = b, a
		}
		if b.kind == KInt && b.ival.Sign() >= 0 {
			n := new(big.Int).Add(b.ival, one)
			if n.TrailingZeroBits() == uint(n.BitLen()-1) && x.nonneg(st, a) {
				return ModE(a, BigInt(n))
			}
		}
		r := UF("bit_and", SInt, a, b)
		x.assumeWF(st, r, rt)
		if x.nonneg(st, a) && x.nonneg(st, b) {
			st.assume(And(Le(r, a), Le(r, b), Le(Int(0), r)))
		}
		return r
	case token.OR, token.XOR, token.AND_NOT:
		nm := map[token.Token]string{token.OR: "bit_or", token.XOR: "bit_xor", token.AND_NOT: "bit_andnot"}[op]
		r := UF(nm, SInt, a, b)
		x.assumeWF(st, r, rt)
		if op == token.OR {
			st.assume(Eq(Eq(r, Int(0)), And(Eq(a, Int(0)), Eq(b, Int(0)))))
		}
		if op == token.XOR {
			st.assume(Eq(Eq(r, Int(0)), Eq(a, b)))
		}
		return r
	}
	unsup("binop %s", op)
	return nil
}

func cmpSpecial(a, b Val) *Term {
	isNil := func(v Val) bool {
		t, ok := v.(*Term)
		return ok && t.kind == KInt && t.ival.Sign() == 0
	}
	nonNil := func(v Val) bool {
		switch y := v.(type) {
		case *Closure:
			return true
		case *Addr:
			if len(y.path) > 0 || y.idx != nil {
				return true
			}
			return false
		}
		return false
	}
	if isNil(a) && nonNil(b) || isNil(b) && nonNil(a) {
		return False
	}
	x, ok1 := a.(*Addr)
	y, ok2 := b.(*Addr)
	if ok1 && ok2 && (len(x.path) > 0 || x.idx != nil || len(y.path) > 0 || y.idx != nil) {
		unsup("comparison of interior pointers")
	}
	return nil
}

func (x *Exec) convert(st *State, v Val, from, to types.Type, pos token.Pos) Val {
	fb, fok := from.Underlying().(*types.Basic)
	tb, tok := to.Underlying().(*types.Basic)
	if fok && tok {
		fi, ti := fb.Info(), tb.Info()
		t := asTerm(v)
		switch {
		case fi&types.IsInteger != 0 && ti&types.IsInteger != 0:
			return x.wrap(st, t, to)
		case fi&types.IsInteger != 0 && ti&types.IsString != 0:
			r := UF("runestr", SStr, t)
			return r
		case fi&types.IsString != 0 && ti&types.IsString != 0:
			return t
		case fi&types.IsInteger != 0 && ti&types.IsFloat != 0:
			return UF("itof", SInt, t)
		case fi&types.IsFloat != 0 && ti&types.IsFloat != 0:
			return t
		case fi&types.IsFloat != 0 && ti&types.IsInteger != 0:
			r := UF("ftoi_"+tb.Name(), SInt, t)
			x.assumeWF(st, r, to)
			return r
		}
		return t
	}
	// string <-> []byte / []rune
	if fok && fb.Info()&types.IsString != 0 {
		if s, ok := to.Underlying().(*types.Slice); ok {
			return x.bytesFromString(st, asTerm(v), s.Elem())
		}
	}
	if tok && tb.Info()&types.IsString != 0 {
		if s, ok := from.Underlying().(*types.Slice); ok {
			return x.stringFromSlice(st, asTerm(v), s.Elem())
		}
	}
	return v
}

// bytesFromString models []byte(s) and []rune(s).
func (x *Exec) bytesFromString(st *State, s *Term, et types.Type) *Term {
	key := elemKey(et)
	r := st.alloc()
	if isByte(et) {
		n := StrLen(s)
		var cont *Term
		if seqBytes {
			cont = s
		} else {
			cont = UF("strbytes", SArr(SInt, SInt), s)
		}
		x.setHeap(st, key, r, Store(st.heap(key), r, cont))
		return dSlice.mk(r, Int(0), n, n)
	}
	n := UF("runecount", SInt, s)
	noteRange(n, new(big.Int), bigMaxLen)
	st.assume(And(Le(Int(0), n), Le(n, StrLen(s))))
	cont := UF("strrunes", SArr(SInt, SInt), s)
	x.setHeap(st, key, r, Store(st.heap(key), r, cont))
	return dSlice.mk(r, Int(0), n, n)
}

func (x *Exec) stringFromSlice(st *State, s *Term, et types.Type) *Term {
	key := elemKey(et)
	cont := hsel(st.heap(key), SlArr(s))
	if isByte(et) {
		if seqBytes {
			x.ctx(st)
			return StrSub(cont, SlOff(s), Add(SlOff(s), SlLen(s)))
		}
		if cont.is("strbytes") && SlOff(s) == Int(0) {
			if d, ok := constDiff(SlLen(s), StrLen(cont.args[0])); ok && d.Sign() == 0 {
				return cont.args[0]
			}
		}
		r := UF("bytesstr", SStr, cont, SlOff(s), SlLen(s))
		st.assume(Eq(StrLen(r), SlLen(s)))
		return r
	}
	r := UF("runesstr", SStr, cont, SlOff(s), SlLen(s))
	st.assume(And(Le(SlLen(s), StrLen(r)), Le(StrLen(r), Mul(Int(4), SlLen(s)))))
	return r
}

// ---- iteration ----

func (x *Exec) next(fr *Frame, in *ssa.Next, st *State, k func(fr *Frame, st *State, r Val)) bool {
	it, ok := x.val(fr, in.Iter).(*iter)
	if !ok {
		unsup("next on %T", x.val(fr, in.Iter))
	}
	if it.isStr {
		pos := st.heap(it.key)
		n := StrLen(it.str)
		more := Lt(pos, n)
		x.branch(fr, st, more, in.Name(), func(fr *Frame, st *State) {
			var r, w *Term
			if it.str.kind == KLit && pos.kind == KInt {
				rr, ww := decodeRune(it.str.op[pos.i64():])
				r, w = Int(int64(rr)), Int(int64(ww))
			} else {
				r = UF("decR", SInt, it.str, pos)
				w = UF("decW", SInt, it.str, pos)
				noteRange(r, new(big.Int), big.NewInt(0x10ffff))
				noteRange(w, one, big.NewInt(4))
				st.assume(And(Le(Int(0), r), Le(r, Int(0x10ffff)), Le(Int(1), w), Le(w, Int(4)), Le(Add(pos, w), n)))
			}
			x.setHeap(st, it.key, nil, Add(pos, w))
			x.setHeap(st, it.last, nil, pos)
			k(fr, st, Tuple{True, pos, r})
		}, func(fr *Frame, st *State) {
			k(fr, st, Tuple{False, Int(0), Int(0)})
		})
		return false
	}
	d := mapDT(it.mt)
	now := x.mapContent(st, it.m, it.mt)
	seen := st.heap(it.key)
	// one more key
	s1 := st.clone()
	f1 := fr.clone()
	kv := NewVar("k", sortOf(it.mt.Key()))
	x.assumeWF(s1, kv, it.mt.Key())
	s1.assume(And(mapHas(d, now, kv), Not(Select(seen, kv)), Lt(Int(0), d.get(now, 2))))
	s1.path += in.Name() + "T"
	x.setHeap(s1, it.key, nil, Store(seen, kv, True))
	v := mapGet(d, now, kv)
	x.assumeWF(s1, v, it.mt.Elem())
	s2 := st
	s2.path += in.Name() + "F"
	kb := NewBound("k", sortOf(it.mt.Key()))
	s2.assume(Forall([]*Term{kb}, Imp(And(mapHas(d, it.cont0, kb), mapHas(d, now, kb)), Select(seen, kb)), []*Term{Select(seen, kb)}, []*Term{mapHas(d, now, kb)}))
	// exhausted over an empty seen set means the map is empty
	if seen.is("constarr") {
		if now == it.cont0 {
			s2.assume(Eq(d.get(now, 2), Int(0)))
		}
	}
	if !(now.is(d.ctor) && d.get(now, 2) == Int(0)) && x.feasible(s1) {
		k(f1, s1, Tuple{True, kv, valOfTerm(v, it.mt.Elem())})
	}
	k(fr, s2, Tuple{False, zeroOf(it.mt.Key()), zeroOf(it.mt.Elem())})
	return false
}

func decodeRune(s string) (rune, int) {
	for i, r := range s {
		if i == 0 {
			n := len(s)
			for j := range s {
				if j > 0 {
					n = j
					break
				}
			}
			return r, n
		}
	}
	return 0, 0
}

func (x *Exec) goStmt(fr *Frame, in *ssa.Go, st *State) {
	x.safetyNote("goroutine started at " + x.pos(in.Pos()) + " not modelled")
}

func sortedKeys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
