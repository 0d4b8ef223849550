package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type ret struct{ v Val }

// call executes a call instruction; nil means the continuation was used.
func (x *Exec) call(fr *Frame, in ssa.Value, c *ssa.CallCommon, st *State, k func(st *State, r Val)) *ret {
	var fv Val
	var args []Val
	if c.IsInvoke() {
		fv = x.val(fr, c.Value)
	} else if _, ok := c.Value.(*ssa.Builtin); !ok {
		fv = x.val(fr, c.Value)
	}
	for _, a := range c.Args {
		args = append(args, x.val(fr, a))
	}
	pos := c.Pos()
	return x.callVals(fr, in, c, fv, args, st, pos, k)
}

func (x *Exec) callVals(fr *Frame, in ssa.Value, c *ssa.CallCommon, fv Val, args []Val, st *State, pos token.Pos, k func(st *State, r Val)) *ret {
	if b, ok := c.Value.(*ssa.Builtin); ok && !c.IsInvoke() {
		return x.builtin(fr, b, c, args, st, pos, k)
	}
	sig := c.Signature()
	if c.IsInvoke() {
		recv := asTerm(fv)
		if recv.kind == KApp && strings.HasPrefix(recv.op, "box$") {
			if bt := boxType[recv.op]; bt != nil {
				if m := x.prog.LookupMethod(bt, c.Method.Pkg(), c.Method.Name()); m != nil {
					return x.callFn(fr, m, nil, append([]Val{valOfTerm(recv.args[0], bt)}, args...), st, pos, sig, k)
				}
			}
		}
		nm := "(" + types.TypeString(c.Value.Type(), nil) + ")." + c.Method.Name()
		x.safety(st, "interface value not nil", pos, Not(Eq(recv, Int(0))))
		if u := x.w.sp.units[nm]; u != nil {
			return x.contractCall(fr, u, nil, sig, c.Value.Type(), append([]Val{fv}, args...), st, pos, k)
		}
		return x.external(fr, nm, sig, append([]Val{fv}, args...), st, pos)
	}
	switch f := fv.(type) {
	case *Closure:
		return x.callFn(fr, f.fn, f.binds, args, st, pos, sig, k)
	case *Term:
		x.safety(st, "function value not nil", pos, Not(Eq(f, Int(0))))
		if p, ok := c.Value.(*ssa.Parameter); ok {
			if u := x.w.sp.units["callback:"+p.Parent().String()+":"+p.Name()]; u != nil {
				return x.contractCall(fr, u, nil, sig, nil, args, st, pos, k)
			}
		}
		if r, ok := x.fieldCall(fr, c, sig, f, args, st, pos, k); ok {
			return r
		}
		return x.external(fr, "dynamic call of "+shortType(c.Value.Type())+" at "+x.pos(pos), sig, args, st, pos)
	}
	unsup("call of %T", fv)
	return nil
}

// fieldCall calls a function value kept in a struct field by the contract
// "field:TYPE.FIELD", whose first parameter is the struct.
func (x *Exec) fieldCall(fr *Frame, c *ssa.CallCommon, sig *types.Signature, f *Term, args []Val, st *State, pos token.Pos, k func(st *State, r Val)) (*ret, bool) {
	var owner *Term
	var ot types.Type
	var field int
	switch v := c.Value.(type) {
	case *ssa.Field:
		ot, field = v.X.Type(), v.Field
		owner = x.T(fr, v.X)
	case *ssa.UnOp:
		fa, ok := v.X.(*ssa.FieldAddr)
		if !ok {
			return nil, false
		}
		a, ok := fr.env[fa].(*Addr)
		if !ok || len(a.path) == 0 {
			return nil, false
		}
		ot, field = fa.X.Type().Underlying().(*types.Pointer).Elem(), fa.Field
		n := *a
		n.path = a.path[:len(a.path)-1]
		n.typ = ot
		owner = x.load(st, &n)
		if structDT(ot).get(owner, field) != f {
			return nil, false
		}
	default:
		return nil, false
	}
	u := x.w.sp.units["field:"+types.TypeString(ot, nil)+"."+ot.Underlying().(*types.Struct).Field(field).Name()]
	if u == nil {
		return nil, false
	}
	return x.contractCall(fr, u, nil, sig, ot, append([]Val{valOfTerm(owner, ot)}, args...), st, pos, k), true
}

func fnFull(fn *ssa.Function) string { return fn.String() }

func (x *Exec) callFn(fr *Frame, fn *ssa.Function, binds []Val, args []Val, st *State, pos token.Pos, sig *types.Signature, k func(st *State, r Val)) *ret {
	name := fnFull(fn)
	if x.skipInits && strings.HasPrefix(fn.Name(), "init#") {
		k(st, Tuple{})
		return nil
	}
	if u := x.w.sp.units[name]; u != nil && !u.inline {
		return x.contractCallB(fr, u, fn, fn.Signature, nil, binds, args, st, pos, k)
	}
	if m, ok := models[name]; ok {
		x.trusted["model of "+name] = true
		if r := m(x, fr, st, args, pos, fn.Signature); r != nil {
			return &ret{r}
		}
	}
	inRepo := fn.Pkg != nil && x.w.isRepo(fn.Pkg.Pkg) || fn.Pkg == nil && fn.Blocks != nil && x.repoParent(fn)
	if fn.Blocks != nil && inRepo {
		for _, g := range fr.chain {
			if g == fn {
				return x.external(fr, "recursive call of "+name, fn.Signature, args, st, pos)
			}
		}
		if fr.depth > 14 {
			return x.external(fr, "deep call of "+name, fn.Signature, args, st, pos)
		}
		x.inlined[shortFn(fn)] = true
		nf := &Frame{fn: fn, env: map[ssa.Value]Val{}, depth: fr.depth + 1, active: map[*loop]*activeLoop{}}
		nf.chain = append(append([]*ssa.Function(nil), fr.chain...), fn)
		if len(args) != len(fn.Params) {
			unsup("arity of %s", name)
		}
		for i, p := range fn.Params {
			nf.env[p] = args[i]
		}
		for i, p := range fn.FreeVars {
			nf.env[p] = binds[i]
		}
		nf.k = func(st *State, res []Val) {
			switch len(res) {
			case 0:
				k(st, Tuple{})
			case 1:
				k(st, res[0])
			default:
				k(st, Tuple(res))
			}
		}
		x.run(nf, fn.Blocks[0], 0, st)
		return nil
	}
	return x.external(fr, name, fn.Signature, args, st, pos)
}

func (x *Exec) repoParent(fn *ssa.Function) bool {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil && x.w.isRepo(f.Pkg.Pkg) {
			return true
		}
	}
	// wrappers and bound methods
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return x.w.isRepo(o.Pkg())
	}
	return strings.Contains(fn.String(), modPath)
}

func shortFn(fn *ssa.Function) string {
	return strings.ReplaceAll(strings.ReplaceAll(fn.String(), modPath+"/", ""), modPath, "main")
}

// ---- external calls ----

var noEffect = []string{"fmt.", "strings.", "strconv.", "unicode.", "unicode/utf8.", "errors.", "path/filepath.", "path.", "math.", "(error).", "time.", "(time.", "bytes.", "(*strings.Builder)", "encoding/hex.", "encoding/base64.", "os.Get", "github.com/pkg/errors."}

// external havocs everything reachable in one step from the arguments.
func (x *Exec) external(fr *Frame, name string, sig *types.Signature, args []Val, st *State, pos token.Pos) *ret {
	short := strings.ReplaceAll(name, modPath+"/", "")
	effect := true
	for _, p := range noEffect {
		if strings.HasPrefix(name, p) {
			effect = false
		}
	}
	x.trusted["external "+short] = true
	if effect {
		w := newWriteSet()
		for _, a := range args {
			x.reach(st, a, nil, w, 0)
		}
		// parameter types tell what the references are
		off := 0
		if sig.Recv() != nil && len(args) == sig.Params().Len()+1 {
			x.reach(st, args[0], sig.Recv().Type(), w, 0)
			off = 1
		} else if len(args) == sig.Params().Len()+1 {
			off = 1
		}
		for i := 0; i < sig.Params().Len() && i+off < len(args); i++ {
			x.reach(st, args[i+off], sig.Params().At(i).Type(), w, 0)
		}
		if w.size() > 0 {
			x.havoc(st, w)
		}
	}
	if sig.Results().Len() == 0 {
		return &ret{Tuple{}}
	}
	// allocations of the callee are new
	na := NewAlloc()
	st.assume(Le(st.allocNow(), na))
	st.al, st.alN = na, 0
	var rt types.Type = sig.Results()
	if sig.Results().Len() == 1 {
		rt = sig.Results().At(0).Type()
	}
	nm := name[strings.LastIndex(name, ".")+1:]
	r := x.fresh(st, nm, rt)
	if tp, ok := r.(Tuple); ok && len(tp) >= 2 {
		last := sig.Results().At(len(tp) - 1).Type()
		if types.TypeString(last, nil) == "error" {
			for i := 0; i < len(tp)-1; i++ {
				switch sig.Results().At(i).Type().Underlying().(type) {
				case *types.Pointer, *types.Interface, *types.Map:
					if types.TypeString(sig.Results().At(i).Type(), nil) != "error" {
						st.assume(Imp(Eq(asTerm(tp[len(tp)-1]), Int(0)), Not(Eq(asTerm(tp[i]), Int(0)))))
					}
				}
			}
		}
	}
	return &ret{r}
}

// reach adds to w what a callee may write given an argument.
func (x *Exec) reach(st *State, v Val, t types.Type, w *writeSet, depth int) {
	if depth > 2 {
		return
	}
	switch a := v.(type) {
	case *Closure:
		for i, b := range a.binds {
			if ad, ok := b.(*Addr); ok {
				w.noteRaw(ad.key, ad.ref)
			} else if i < len(a.fn.FreeVars) {
				x.reach(st, b, a.fn.FreeVars[i].Type(), w, depth+1)
			}
		}
	case *Addr:
		w.noteRaw(a.key, a.ref)
	case *Term:
		if a.kind == KApp && strings.HasPrefix(a.op, "box$") {
			bt := boxType[a.op]
			if ad, ok := ifaceAddr[a.args[0].id]; ok {
				w.noteRaw(ad.key, ad.ref)
				return
			}
			x.reach(st, a.args[0], bt, w, depth+1)
			return
		}
		if t == nil {
			return
		}
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			if a.kind == KInt && a.ival.Sign() >= 0 {
				return
			}
			if n, ok := types.Unalias(u.Elem()).(*types.Named); ok && n.Obj().Pkg() != nil && !x.w.isRepo(n.Obj().Pkg()) {
				// a foreign object: its state is not tracked
				if _, isStruct := u.Elem().Underlying().(*types.Struct); isStruct {
					return
				}
			}
			if arr, ok := u.Elem().Underlying().(*types.Array); ok {
				w.noteRaw(elemKey(arr.Elem()), a)
				return
			}
			w.noteRaw(cellKey(u.Elem()), a)
			x.reach(st, hsel(st.heap(cellKey(u.Elem())), a), u.Elem(), w, depth+1)
		case *types.Slice:
			w.noteRaw(elemKey(u.Elem()), SlArr(a))
			// variadic interface slices: look at the boxed elements
			if _, ok := u.Elem().Underlying().(*types.Interface); ok && SlLen(a).kind == KInt {
				cont := hsel(st.heap(elemKey(u.Elem())), SlArr(a))
				n := SlLen(a).i64()
				for i := int64(0); i < n && i < 16; i++ {
					x.reach(st, Select(cont, Add(SlOff(a), Int(i))), u.Elem(), w, depth+1)
				}
			}
		case *types.Map:
			w.noteRaw(mapKey(u), a)
		case *types.Struct:
			d := structDT(t)
			for i := 0; i < u.NumFields(); i++ {
				x.reach(st, d.get(a, i), u.Field(i).Type(), w, depth+1)
			}
		}
	}
}

func (w *writeSet) noteRaw(key string, ref *Term) {
	if ref.kind == KInt && ref.ival.Sign() == 0 {
		return
	}
	if w.refs[key] == nil {
		w.refs[key] = map[int]*Term{}
	}
	w.refs[key][ref.id] = ref
}

// ---- contracts ----

func (x *Exec) contractCall(fr *Frame, u *Unit, fn *ssa.Function, sig *types.Signature, recvT types.Type, args []Val, st *State, pos token.Pos, k func(st *State, r Val)) *ret {
	return x.contractCallB(fr, u, fn, sig, recvT, nil, args, st, pos, k)
}

func (x *Exec) contractCallB(fr *Frame, u *Unit, fn *ssa.Function, sig *types.Signature, recvT types.Type, binds []Val, args []Val, st *State, pos token.Pos, k func(st *State, r Val)) *ret {
	if u.trusted {
		x.trusted["contract of "+u.full] = true
	} else {
		x.tUnits[u.full] = true
	}
	x.ctx(st)
	c := &specCtx{x: x, st: st, pkg: u.pkg, vars: map[string]SV{}}
	if strings.HasPrefix(u.full, "callback:") {
		for _, p := range fr.fn.Params {
			if t, ok := fr.env[p].(*Term); ok {
				c.vars[p.Name()] = SV{t, p.Type()}
			} else if a, ok := fr.env[p].(*Addr); ok && a.idx == nil && len(a.path) == 0 {
				c.vars[p.Name()] = SV{a.ref, p.Type()}
			}
		}
	}
	x.bindParams(c, u, fn, sig, recvT, args)
	bindCells(c, fn, binds)
	for _, r := range u.req {
		g := c.boolean(r.ex)
		x.oblige(st, "call precondition", fmt.Sprintf("%s requires %s (%s) at %s", u.Name, r.name, r.src, x.pos(pos)), pos, g)
		st.assume(g)
	}
	for _, r := range u.panics {
		g := c.boolean(r.ex)
		x.safety(st, u.Name+" does not panic ("+r.src+")", pos, Not(g))
	}
	if !u.nopanic && !u.trusted && len(u.panics) == 0 && x.unit.nopanic {
		// the callee's contract says nothing about panics
		x.safetyNote("panic freedom of callee " + u.Name + " not part of its contract")
	}
	old := st.clone()
	if u.anyMod {
		unsup("call of %s, which may modify anything", u.Name)
	}
	w := newWriteSet()
	for _, m := range u.mods {
		x.modSet(c, m, w)
	}
	x.havoc(st, w)
	var rt types.Type = sig.Results()
	n := sig.Results().Len()
	var r Val = Tuple{}
	if n == 1 {
		rt = sig.Results().At(0).Type()
	}
	if n > 0 {
		if u.pure {
			r = x.pureResult(u, c, sig, args, st)
		} else {
			r = x.fresh(st, "r_"+u.Name[strings.LastIndex(u.Name, ".")+1:], rt)
		}
	}
	c2 := *c
	c2.st = st
	c2.old = old
	c2.oldVars = nil
	c3 := &c2
	x.bindResults(c3, u, sig, r)
	for _, e := range u.ens {
		st.assume(c3.boolean(e.ex))
	}
	if tp, ok := r.(Tuple); ok {
		nt := make(Tuple, len(tp))
		for i := range tp {
			nt[i] = valOfTerm(asTerm(tp[i]), sig.Results().At(i).Type())
		}
		r = nt
	}
	return &ret{r}
}

// pureResult: results are functions of the argument values.
func (x *Exec) pureResult(u *Unit, c *specCtx, sig *types.Signature, args []Val, st *State) Val {
	var ts []*Term
	np := sig.Params().Len()
	off := len(args) - np
	for i, a := range args {
		t := asTerm(a)
		var ty types.Type
		if i-off >= 0 && i-off < np {
			ty = sig.Params().At(i - off).Type()
		}
		if t.sort == SSlice && ty != nil {
			et := ty.Underlying().(*types.Slice).Elem()
			if seqBytes && isByte(et) {
				ts = append(ts, x.bytesOf(st, t, et))
			} else {
				ts = append(ts, hsel(st.heap(elemKey(et)), SlArr(t)), SlOff(t), SlLen(t))
			}
			continue
		}
		ts = append(ts, t)
	}
	nm := "fn$" + sanitize(strings.NewReplacer("/", ".", "(", "", ")", "", "*", "").Replace(u.full))
	n := sig.Results().Len()
	if n == 1 {
		r := UF(nm, sortOf(sig.Results().At(0).Type()), ts...)
		x.assumeWF(st, r, sig.Results().At(0).Type())
		return r
	}
	var tp Tuple
	for i := 0; i < n; i++ {
		r := UF(fmt.Sprintf("%s$%d", nm, i), sortOf(sig.Results().At(i).Type()), ts...)
		x.assumeWF(st, r, sig.Results().At(i).Type())
		tp = append(tp, r)
	}
	return tp
}

func (x *Exec) bindParams(c *specCtx, u *Unit, fn *ssa.Function, sig *types.Signature, recvT types.Type, args []Val) {
	var names []string
	var typs []types.Type
	if sig.Recv() != nil || recvT != nil {
		if len(args) == sig.Params().Len()+1 {
			n := "recv"
			t := recvT
			if sig.Recv() != nil {
				if sig.Recv().Name() != "" {
					n = sig.Recv().Name()
				}
				if t == nil {
					t = sig.Recv().Type()
				}
			}
			names = append(names, n)
			typs = append(typs, t)
		}
	}
	for i := 0; i < sig.Params().Len(); i++ {
		names = append(names, sig.Params().At(i).Name())
		typs = append(typs, sig.Params().At(i).Type())
	}
	if len(u.params) > 0 {
		// positional names of the contract
		for i := range u.params {
			if i < len(names) {
				names[i] = u.params[i]
			}
		}
		if len(u.params) == len(names)-1 && len(typs) == len(args) && (sig.Recv() != nil || recvT != nil) {
			names = append([]string{"recv"}, u.params...)
		}
	}
	for i, a := range args {
		if i >= len(names) {
			break
		}
		c.vars[names[i]] = SV{argTerm(a), typs[i]}
		c.vars[fmt.Sprintf("arg%d", i)] = SV{argTerm(a), typs[i]}
	}
}

func argTerm(v Val) *Term {
	switch a := v.(type) {
	case *Addr:
		if a.idx != nil || len(a.path) > 0 {
			t := NewVar("iptr", SInt)
			ifaceAddr[t.id] = a
			return t
		}
	}
	return asTerm(v)
}

func (x *Exec) bindResults(c *specCtx, u *Unit, sig *types.Signature, r Val) {
	n := sig.Results().Len()
	vs := map[string]SV{}
	for k, v := range c.vars {
		vs[k] = v
	}
	bind := func(i int, t *Term) {
		ty := sig.Results().At(i).Type()
		sv := SV{t, ty}
		vs[fmt.Sprintf("result%d", i)] = sv
		if n == 1 {
			vs["result"] = sv
		}
		if i < len(u.results) {
			vs[u.results[i]] = sv
		} else if nm := sig.Results().At(i).Name(); nm != "" && nm != "_" {
			vs[nm] = sv
		} else if types.TypeString(ty, nil) == "error" {
			if _, ok := vs["err"]; !ok {
				vs["err"] = sv
			}
		}
	}
	switch v := r.(type) {
	case Tuple:
		for i := range v {
			bind(i, asTerm(v[i]))
		}
	default:
		if n == 1 {
			bind(0, asTerm(v))
		}
	}
	c.vars = vs
}

// modSet evaluates a modifies entry into a write set.
func (x *Exec) modSet(c *specCtx, m *Clause, w *writeSet) {
	switch e := m.ex.(type) {
	case interface{ Pos() token.Pos }:
		_ = e
	}
	key, ref := x.modTarget(c, m)
	if ref == nil {
		w.any[key] = true
		return
	}
	w.noteRaw(key, ref)
}

// ---- builtins ----

func (x *Exec) builtin(fr *Frame, b *ssa.Builtin, c *ssa.CallCommon, args []Val, st *State, pos token.Pos, k func(st *State, r Val)) *ret {
	switch b.Name() {
	case "len":
		t := asTerm(args[0])
		switch u := c.Args[0].Type().Underlying().(type) {
		case *types.Slice:
			return &ret{SlLen(t)}
		case *types.Map:
			ct := x.mapContent(st, t, u)
			r := mapDT(u).get(ct, 2)
			if t.kind != KInt {
				st.assume(Imp(Eq(t, Int(0)), Eq(r, Int(0))))
			}
			noteRange(r, new(big.Int), bigMaxLen)
			st.assume(And(Le(Int(0), r), Le(r, Int(maxLen))))
			return &ret{r}
		case *types.Basic:
			r := StrLen(t)
			st.assume(And(Le(Int(0), r), Le(r, Int(maxLen))))
			return &ret{r}
		case *types.Array:
			return &ret{Int(u.Len())}
		case *types.Pointer:
			return &ret{Int(u.Elem().Underlying().(*types.Array).Len())}
		}
		r := NewVar("len", SInt)
		st.assume(Le(Int(0), r))
		return &ret{r}
	case "cap":
		t := asTerm(args[0])
		if t.sort == SSlice {
			return &ret{SlCap(t)}
		}
		r := NewVar("cap", SInt)
		return &ret{r}
	case "append":
		return x.appendBuiltin(fr, c, args, st, pos, k)
	case "copy":
		return x.copyBuiltin(fr, c, args, st, pos, k)
	case "delete":
		m := c.Args[0].Type().Underlying().(*types.Map)
		ref := asTerm(args[0])
		if ref.kind == KInt && ref.ival.Sign() == 0 {
			return &ret{Tuple{}}
		}
		ct := x.mapContent(st, ref, m)
		key := mapKey(m)
		d := mapDT(m)
		kk := asTerm(args[1])
		x.setHeap(st, key, ref, Store(st.heap(key), ref, mapDel(d, ct, kk)))
		if ref.kind != KInt && !isAllocTerm(ref) {
			st.assume(Imp(Eq(ref, Int(0)), Not(mapHas(d, ct, kk))))
		}
		return &ret{Tuple{}}
	case "panic":
		if x.unit.nopanic {
			x.oblige(st, "safety", "explicit panic unreachable at "+x.pos(pos), pos, False)
		}
		return nil
	case "print", "println":
		return &ret{Tuple{}}
	case "recover":
		return &ret{Int(0)}
	case "close":
		return &ret{Tuple{}}
	case "min", "max":
		r := asTerm(args[0])
		for _, a := range args[1:] {
			t := asTerm(a)
			if b.Name() == "min" {
				r = Ite(Le(r, t), r, t)
			} else {
				r = Ite(Le(r, t), t, r)
			}
		}
		return &ret{r}
	case "clear":
		if m, ok := c.Args[0].Type().Underlying().(*types.Map); ok {
			ref := asTerm(args[0])
			key := mapKey(m)
			x.setHeap(st, key, ref, Store(st.heap(key), ref, emptyMap(mapDT(m))))
			return &ret{Tuple{}}
		}
	case "ssa:wrapnilchk":
		return &ret{args[0]}
	}
	unsup("builtin %s", b.Name())
	return nil
}

func (x *Exec) appendBuiltin(fr *Frame, c *ssa.CallCommon, args []Val, st *State, pos token.Pos, k func(st *State, r Val)) *ret {
	et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
	s := asTerm(args[0])
	key := elemKey(et)
	t := asTerm(args[1])
	x.ctx(st)
	if seqBytes && isByte(et) {
		return x.appendBytes(fr, c, s, t, key, et, st, pos, k)
	}
	var n, src, soff *Term
	isStr := t.sort == SStr
	if isStr {
		n = StrLen(t)
		src = UF("strbytes", SArr(SInt, SInt), t)
		soff = Int(0)
	} else {
		n = SlLen(t)
		src = hsel(st.heap(key), SlArr(t))
		soff = SlOff(t)
	}
	if n.kind == KInt && n.ival.Sign() == 0 {
		return &ret{s}
	}
	l := SlLen(s)
	nl := Add(l, n)
	x.safetyLen(st, nl)
	old := hsel(st.heap(key), SlArr(s))
	build := func(base *Term, off *Term) *Term {
		cont := base
		if n.kind == KInt && n.ival.IsInt64() && n.i64() <= 16 {
			for i := int64(0); i < n.i64(); i++ {
				cont = Store(cont, Add(off, l, Int(i)), Select(src, Add(soff, Int(i))))
			}
			return cont
		}
		nc := NewVar("app", base.sort)
		i := NewBound("i", SInt)
		st.assume(Forall([]*Term{i}, Eq(Select(nc, i), Ite(And(Le(Add(off, l), i), Lt(i, Add(off, nl))), Select(src, Add(i, Sub(soff, Add(off, l)))), Select(base, i))), []*Term{Select(nc, i)}))
		return nc
	}
	r := st.alloc()
	inplace := Le(nl, SlCap(s))
	// decided cases
	if SlArr(s) == Int(0) || SlCap(s) == Int(0) {
		inplace = False
	} else if inplace != True && inplace != False && x.quick(st, inplace) {
		inplace = True
	} else if inplace != True && inplace != False && x.quick(st, Not(inplace)) {
		inplace = False
	}
	if inplace == True {
		x.setHeap(st, key, SlArr(s), Store(st.heap(key), SlArr(s), build(old, SlOff(s))))
		return &ret{dSlice.mk(SlArr(s), SlOff(s), nl, SlCap(s))}
	}
	nc := NewVar("cap", SInt)
	noteRange(nc, new(big.Int), bigMaxLen)
	if inplace == False {
		st.assume(And(Le(nl, nc), Le(nc, Int(maxLen))))
		var base *Term
		if SlOff(s) == Int(0) {
			base = old
		} else {
			base = NewVar("shift", old.sort)
			i := NewBound("i", SInt)
			st.assume(Forall([]*Term{i}, Imp(And(Le(Int(0), i), Lt(i, l)), Eq(Select(base, i), Select(old, Add(SlOff(s), i)))), []*Term{Select(base, i)}))
		}
		if SlArr(s) == Int(0) {
			base = ConstArr(SInt, zeroOf(et))
		}
		x.setHeap(st, key, r, Store(st.heap(key), r, build(base, Int(0))))
		return &ret{dSlice.mk(r, Int(0), nl, nc)}
	}
	if SlOff(s) == Int(0) {
		// one encoding for both cases
		na := NewVar("arr", SInt)
		st.assume(And(Imp(inplace, And(Eq(na, SlArr(s)), Eq(nc, SlCap(s)))), Imp(Not(inplace), Eq(na, r)), Le(nl, nc), Le(nc, Int(maxLen)), Lt(Int(0), na)))
		cont := build(old, Int(0))
		for _, w := range x.recs {
			w.note(key, SlArr(s))
			w.note(key, r)
		}
		st.heaps[key] = Store(st.heap(key), na, cont)
		return &ret{dSlice.mk(na, Int(0), nl, nc)}
	}
	if _, ok := x.unit.opts["mergeappend"]; ok {
		na, no := NewVar("arr", SInt), NewVar("off", SInt)
		st.assume(And(Imp(inplace, And(Eq(na, SlArr(s)), Eq(nc, SlCap(s)), Eq(no, SlOff(s)))), Imp(Not(inplace), And(Eq(na, r), Eq(no, Int(0)))), Le(nl, nc), Le(nc, Int(maxLen)), Lt(Int(0), na)))
		cont := NewVar("app", old.sort)
		i := NewBound("i", SInt)
		st.assume(Forall([]*Term{i}, Imp(Or(inplace, Lt(i, Add(no, nl))), Eq(Select(cont, i), Ite(And(Le(Add(no, l), i), Lt(i, Add(no, nl))), Select(src, Add(i, Sub(soff, Add(no, l)))), Select(old, Add(i, Sub(SlOff(s), no)))))), []*Term{Select(cont, i)}))
		for _, w := range x.recs {
			w.note(key, SlArr(s))
			w.note(key, r)
		}
		st.heaps[key] = Store(st.heap(key), na, cont)
		return &ret{dSlice.mk(na, no, nl, nc)}
	}
	// fork
	s1 := st.clone()
	s1.assume(inplace)
	s1.path += "aT"
	st.assume(Not(inplace))
	st.path += "aF"
	if x.feasible(s1) {
		x.setHeap(s1, key, SlArr(s), Store(s1.heap(key), SlArr(s), build(old, SlOff(s))))
		k(s1, dSlice.mk(SlArr(s), SlOff(s), nl, SlCap(s)))
	}
	if x.feasible(st) {
		st.assume(And(Le(nl, nc), Le(nc, Int(maxLen))))
		base := NewVar("shift", old.sort)
		i := NewBound("i", SInt)
		st.assume(Forall([]*Term{i}, Imp(And(Le(Int(0), i), Lt(i, l)), Eq(Select(base, i), Select(old, Add(SlOff(s), i)))), []*Term{Select(base, i)}))
		x.setHeap(st, key, r, Store(st.heap(key), r, build(base, Int(0))))
		k(st, dSlice.mk(r, Int(0), nl, nc))
	}
	return nil
}

// safetyLen: lengths stay below the assumed bound.
func (x *Exec) safetyLen(st *State, n *Term) { st.assume(Le(n, Int(maxLen))) }

func (x *Exec) appendBytes(fr *Frame, c *ssa.CallCommon, s, t *Term, key string, et types.Type, st *State, pos token.Pos, k func(st *State, r Val)) *ret {
	var add *Term
	if t.sort == SStr {
		add = t
	} else {
		add = x.bytesOf(st, t, et)
	}
	n := StrLen(add)
	if n.kind == KInt && n.ival.Sign() == 0 {
		return &ret{s}
	}
	l := SlLen(s)
	nl := Add(l, n)
	x.safetyLen(st, nl)
	cur := hsel(st.heap(key), SlArr(s))
	inplace := Le(nl, SlCap(s))
	if SlArr(s) == Int(0) || SlCap(s) == Int(0) {
		inplace = False
	} else if inplace != True && inplace != False && x.quick(st, inplace) {
		inplace = True
	} else if inplace != True && inplace != False && x.quick(st, Not(inplace)) {
		inplace = False
	}
	doIn := func(st *State) Val {
		x.ctx(st)
		e := Add(SlOff(s), l)
		no := StrConcat(StrSub(cur, Int(0), e), add, StrSub(cur, Add(e, n), StrLen(cur)))
		x.setHeap(st, key, SlArr(s), Store(st.heap(key), SlArr(s), no))
		return dSlice.mk(SlArr(s), SlOff(s), nl, SlCap(s))
	}
	doNew := func(st *State) Val {
		x.ctx(st)
		r := st.alloc()
		nc := NewVar("cap", SInt)
		noteRange(nc, new(big.Int), bigMaxLen)
		st.assume(And(Le(nl, nc), Le(nc, Int(maxLen))))
		prev := StrSub(cur, SlOff(s), Add(SlOff(s), l))
		if l == Int(0) {
			prev = strEmpty
		}
		x.setHeap(st, key, r, Store(st.heap(key), r, StrConcat(prev, add, RepStr(Int(0), Sub(nc, nl)))))
		return dSlice.mk(r, Int(0), nl, nc)
	}
	switch inplace {
	case True:
		return &ret{doIn(st)}
	case False:
		return &ret{doNew(st)}
	}
	s1 := st.clone()
	s1.assume(inplace)
	s1.path += "aT"
	st.assume(Not(inplace))
	st.path += "aF"
	if x.feasible(s1) {
		v := doIn(s1)
		k(s1, v)
	}
	if x.feasible(st) {
		v := doNew(st)
		k(st, v)
	}
	return nil
}

func (x *Exec) copyBuiltin(fr *Frame, c *ssa.CallCommon, args []Val, st *State, pos token.Pos, k func(st *State, r Val)) *ret {
	et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
	key := elemKey(et)
	d, s := asTerm(args[0]), asTerm(args[1])
	var sl *Term
	if s.sort == SStr {
		sl = StrLen(s)
	} else {
		sl = SlLen(s)
	}
	dl := SlLen(d)
	x.ctx(st)
	var n *Term
	switch {
	case x.quick(st, Le(sl, dl)):
		n = sl
	case x.quick(st, Le(dl, sl)):
		n = dl
	case !(seqBytes && isByte(et)):
		n = Ite(Le(sl, dl), sl, dl)
	default:
		s1 := st.clone()
		s1.assume(Le(sl, dl))
		s1.path += "cT"
		st.assume(Lt(dl, sl))
		st.path += "cF"
		if x.feasible(s1) {
			x.doCopy(s1, key, et, d, s, sl)
			k(s1, sl)
		}
		if x.feasible(st) {
			x.doCopy(st, key, et, d, s, dl)
			k(st, dl)
		}
		return nil
	}
	x.doCopy(st, key, et, d, s, n)
	return &ret{n}
}

func (x *Exec) doCopy(st *State, key string, et types.Type, d, s, n *Term) {
	if n.kind == KInt && n.ival.Sign() == 0 {
		return
	}
	x.ctx(st)
	cur := hsel(st.heap(key), SlArr(d))
	if seqBytes && isByte(et) {
		var src *Term
		if s.sort == SStr {
			src = StrSub(s, Int(0), n)
		} else {
			h := hsel(st.heap(key), SlArr(s))
			src = StrSub(h, SlOff(s), Add(SlOff(s), n))
		}
		no := StrConcat(StrSub(cur, Int(0), SlOff(d)), src, StrSub(cur, Add(SlOff(d), n), StrLen(cur)))
		x.setHeap(st, key, SlArr(d), Store(st.heap(key), SlArr(d), no))
		return
	}
	var src, so *Term
	if s.sort == SStr {
		src, so = UF("strbytes", SArr(SInt, SInt), s), Int(0)
	} else {
		src, so = hsel(st.heap(key), SlArr(s)), SlOff(s)
	}
	nc := NewVar("cpy", cur.sort)
	i := NewBound("i", SInt)
	st.assume(Forall([]*Term{i}, Eq(Select(nc, i), Ite(And(Le(SlOff(d), i), Lt(i, Add(SlOff(d), n))), Select(src, Add(i, Sub(so, SlOff(d)))), Select(cur, i))), []*Term{Select(nc, i)}))
	x.setHeap(st, key, SlArr(d), Store(st.heap(key), SlArr(d), nc))
}
