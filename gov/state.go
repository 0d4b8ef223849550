package main

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"runtime/debug"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is the symbolic value of an SSA register: *Term, *Addr, *Closure, Tuple, *iter.
type Val interface{}

type Tuple []Val

// Addr is an address known by construction.
type Addr struct {
	key  string
	ref  *Term
	idx  *Term // element index inside an element heap
	path []pstep
	typ  types.Type // type of the addressed object
}

type pstep struct {
	st    types.Type // struct type, when field selection
	field int
	idx   *Term // array index otherwise
}

type Closure struct {
	fn    *ssa.Function
	binds []Val
}

type iter struct {
	key   string // ghost key
	last  string // ghost key: the position of the character at hand
	outer *iter  // the string iteration around it
	isStr bool
	str   *Term
	m     *Term // map reference
	mt    *types.Map
	cont0 *Term // map contents at the start
}

// heapInfo describes one heap component.
type heapInfo struct {
	key  string
	sort Sort
	kind byte // 'c' cell, 'e' elements, 'm' map, 'g' ghost
	typ  types.Type
}

var heapTab = map[string]*heapInfo{}

func typeKey(t types.Type) string { return types.TypeString(t.Underlying(), nil) }

func cellKey(t types.Type) string {
	if a, ok := t.Underlying().(*types.Array); ok {
		return elemKey(a.Elem())
	}
	k := "c|" + typeKey(t)
	if heapTab[k] == nil {
		heapTab[k] = &heapInfo{k, SArr(SInt, sortOf(t)), 'c', t}
	}
	return k
}

func elemKey(t types.Type) string {
	k := "e|" + typeKey(t)
	if heapTab[k] == nil {
		if seqBytes && isByte(t) {
			heapTab[k] = &heapInfo{k, SArr(SInt, SStr), 'e', t}
		} else {
			heapTab[k] = &heapInfo{k, SArr(SInt, SArr(SInt, sortOf(t))), 'e', t}
		}
	}
	return k
}

func mapKey(m *types.Map) string {
	k := "m|" + typeKey(m.Key()) + "|" + typeKey(m.Elem())
	if heapTab[k] == nil {
		heapTab[k] = &heapInfo{k, SArr(SInt, mapDT(m).sort), 'm', m}
	}
	return k
}

func ghostKey(name string, s Sort) string {
	k := "g|" + name
	if h := heapTab[k]; h == nil {
		heapTab[k] = &heapInfo{k, s, 'g', nil}
	} else if h.sort != s {
		panic("ghost " + name + " used at sorts " + string(h.sort) + " and " + string(s))
	}
	return k
}

// State is one symbolic path state.
type State struct {
	pc    *PC
	heaps map[string]*Term
	al    *Term
	alN   int64
	wf    map[int]bool
	path  string
	steps int
}

func (st *State) clone() *State {
	n := *st
	n.heaps = make(map[string]*Term, len(st.heaps))
	for k, v := range st.heaps {
		n.heaps[k] = v
	}
	n.wf = make(map[int]bool, len(st.wf))
	for k := range st.wf {
		n.wf[k] = true
	}
	return &n
}

func (st *State) assume(t *Term) {
	if t.is("and") {
		for _, a := range t.args {
			st.assume(a)
		}
		return
	}
	if t == False && os.Getenv("GOV_DEAD") != "" {
		debug.PrintStack()
	}
	st.pc = st.pc.add(t)
}

func initHeap(key string) *Term {
	h := heapTab[key]
	if h == nil {
		panic("unknown heap " + key)
	}
	return Const0("H0|"+key, h.sort)
}

func (st *State) heap(key string) *Term {
	if t, ok := st.heaps[key]; ok {
		return t
	}
	return initHeap(key)
}

// frameOf: heap variables introduced by a havoc that keeps older references.
type frameInfo struct {
	base    *Term
	mods    []*Term
	al      *Term // references below al+n are framed
	alN     int64
	maxV    int
	immOnly bool // only program-wide immutable objects are framed
}

var frames = map[int]*frameInfo{}

// hsel selects from a heap, looking through framed havocs.
func hsel(h, r *Term) *Term {
	for {
		t := Select(h, r)
		if !t.is("select") || t.args[1] != r {
			return t
		}
		f := frames[t.args[0].id]
		if f == nil || r.hasBV {
			return t
		}
		if !olderRef(r, f) {
			return t
		}
		ok := true
		for _, m := range f.mods {
			if !definitelyNeq(m, r) {
				ok = false
			}
		}
		if !ok {
			return t
		}
		h = f.base
	}
}

func olderRef(r *Term, f *frameInfo) bool {
	if r.kind == KInt && r.ival.Sign() <= 0 {
		return !f.immOnly || immutableRef(r)
	}
	if f.immOnly {
		return false
	}
	if b, k := allocBase(r); b != nil {
		if b == f.al {
			return k < f.alN
		}
		return b.maxV < f.al.maxV
	}
	return r.maxV <= f.maxV
}

// immutableRef: an object built by package initialisation and never written afterwards.
var immutableRef = func(r *Term) bool { return false }

func (st *State) alloc() *Term {
	r := Add(st.al, Int(st.alN))
	st.alN++
	return r
}

func (st *State) allocNow() *Term { return Add(st.al, Int(st.alN)) }

// ---- writes recording ----

type writeSet struct {
	refs  map[string]map[int]*Term
	any   map[string]bool
	fresh map[string]bool
	// references at or beyond this base are fresh in the recorded region
	maxV int // creation index bound: terms above are region-local
	al   *Term
	alN  int64
}

func newWriteSet() *writeSet {
	return &writeSet{refs: map[string]map[int]*Term{}, any: map[string]bool{}, fresh: map[string]bool{}}
}

func (w *writeSet) note(key string, ref *Term) {
	if ref == nil {
		w.any[key] = true
		return
	}
	if b, k := allocBase(ref); b != nil {
		if b == w.al && k >= w.alN || b.maxV > w.al.maxV {
			w.fresh[key] = true
			return
		}
	}
	if ref.maxV > w.maxV {
		w.any[key] = true
		return
	}
	if w.refs[key] == nil {
		w.refs[key] = map[int]*Term{}
	}
	w.refs[key][ref.id] = ref
}

func (w *writeSet) size() int {
	n := len(w.any) + len(w.fresh)
	for _, m := range w.refs {
		n += len(m)
	}
	return n
}

func (x *Exec) setHeap(st *State, key string, ref *Term, h *Term) {
	for _, w := range x.recs {
		w.note(key, ref)
	}
	st.heaps[key] = h
}

// ---- well-formedness of values read from the heap ----

var rng = map[int][2]*big.Int{}

func noteRange(t *Term, lo, hi *big.Int) {
	if _, ok := rng[t.id]; !ok && t.kind != KInt {
		rng[t.id] = [2]*big.Int{lo, hi}
	}
}

var bigMaxLen = big.NewInt(maxLen)

// assumeWF adds what every value of the Go type satisfies.
func (x *Exec) assumeWF(st *State, v *Term, t types.Type) {
	if v.hasBV || v.kind == KInt || v.kind == KLit {
		return
	}
	if st.wf[v.id] {
		return
	}
	st.wf[v.id] = true
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if lo, hi, ok := intRange(t); ok {
			if isAllocTerm(v) {
				return
			}
			if l, h := bounds(v); l != nil && h != nil && l.Cmp(lo) >= 0 && h.Cmp(hi) <= 0 {
				return
			}
			if v.kind == KVar || v.kind == KApp && v.op != "+" && v.op != "ite" && v.op != "*" {
				noteRange(v, lo, hi)
			}
			st.assume(And(Le(BigInt(lo), v), Le(v, BigInt(hi))))
		} else if v.sort == SStr {
			st.assume(Le(StrLen(v), Int(maxLen)))
		}
	case *types.Pointer, *types.Map, *types.Interface, *types.Chan:
		if isAllocTerm(v) || v.kind == KInt {
			return
		}
		st.assume(Lt(v, st.allocNow()))
	case *types.Slice:
		if v.is(dSlice.ctor) && isAllocTerm(SlArr(v)) {
			return
		}
		a, o, l, c := SlArr(v), SlOff(v), SlLen(v), SlCap(v)
		for _, y := range []*Term{o, l, c} {
			if y.kind != KInt {
				noteRange(y, new(big.Int), bigMaxLen)
			}
		}
		st.assume(And(Le(Int(0), o), Le(Int(0), l), Le(l, c), Le(Add(o, c), Int(maxLen)), Imp(Eq(a, Int(0)), Eq(c, Int(0)))))
		if a.kind != KInt {
			// package initialisation uses negative references
			st.assume(Lt(a, st.allocNow()))
			if initSt != nil {
				st.assume(Le(Int(0), a))
			}
		}
		if seqBytes && isByte(u.Elem()) {
			cont := hsel(st.heap(elemKey(u.Elem())), a)
			st.assume(Le(Add(o, c), StrLen(cont)))
		}
	case *types.Struct:
		d := structDT(t)
		if v.is(d.ctor) {
			for i := 0; i < u.NumFields(); i++ {
				x.assumeWF(st, v.args[i], u.Field(i).Type())
			}
			return
		}
		for i := 0; i < u.NumFields(); i++ {
			x.assumeWF(st, d.get(v, i), u.Field(i).Type())
		}
	case *types.Array:
		if v.sort == SStr {
			st.assume(Eq(StrLen(v), Int(u.Len())))
		}
	}
}

// mapWF: contents of a map object.
func (x *Exec) mapWF(st *State, c *Term, m *types.Map) {
	if c.hasBV || st.wf[c.id] {
		return
	}
	d := mapDT(m)
	if c.is(d.ctor) {
		return
	}
	st.wf[c.id] = true
	st.assume(mapWFTerm(c, d))
}

func mapWFTerm(c *Term, d *DT) *Term {
	dom, val, card := d.get(c, 0), d.get(c, 1), d.get(c, 2)
	ks, _ := splitArr(dom.sort)
	_, vs := splitArr(val.sort)
	k := NewBound("k", ks)
	z := zeroSort(vs)
	return And(
		Forall([]*Term{k}, Imp(Not(Select(dom, k)), Eq(Select(val, k), z)), []*Term{Select(val, k)}),
		Le(Int(0), card), Le(card, Int(maxLen)),
		Forall([]*Term{k}, Imp(Select(dom, k), Lt(Int(0), card)), []*Term{Select(dom, k)}),
		Imp(Lt(Int(0), card), Select(dom, UF("anykey_"+string(d.sort), ks, c))),
	)
}

// bounds is a quick interval.
func bounds(t *Term) (lo, hi *big.Int) {
	if t.kind == KInt {
		return t.ival, t.ival
	}
	if r, ok := rng[t.id]; ok {
		return r[0], r[1]
	}
	if t.kind == KApp {
		switch t.op {
		case "str.len":
			return new(big.Int), bigMaxLen
		case "str.at":
			return new(big.Int), big.NewInt(255)
		case "mod":
			if t.args[1].kind == KInt && t.args[1].ival.Sign() > 0 {
				return new(big.Int), new(big.Int).Sub(t.args[1].ival, one)
			}
		case "div":
			if t.args[1].kind == KInt && t.args[1].ival.Sign() > 0 {
				l, h := bounds(t.args[0])
				if l != nil && h != nil {
					q1, m := new(big.Int), new(big.Int)
					q1.DivMod(l, t.args[1].ival, m)
					q2 := new(big.Int)
					q2.DivMod(h, t.args[1].ival, m)
					return q1, q2
				}
			}
		case "+":
			l, h := new(big.Int), new(big.Int)
			for _, a := range t.args {
				al, ah := bounds(a)
				if al == nil || ah == nil {
					return nil, nil
				}
				l.Add(l, al)
				h.Add(h, ah)
			}
			return l, h
		case "*":
			if t.args[0].kind == KInt {
				l, h := bounds(t.args[1])
				if l == nil || h == nil {
					return nil, nil
				}
				a, b := new(big.Int).Mul(l, t.args[0].ival), new(big.Int).Mul(h, t.args[0].ival)
				if a.Cmp(b) > 0 {
					a, b = b, a
				}
				return a, b
			}
		case "ite":
			l1, h1 := bounds(t.args[1])
			l2, h2 := bounds(t.args[2])
			if l1 == nil || l2 == nil || h1 == nil || h2 == nil {
				return nil, nil
			}
			l, h := l1, h1
			if l2.Cmp(l) < 0 {
				l = l2
			}
			if h2.Cmp(h) > 0 {
				h = h2
			}
			return l, h
		}
	}
	return nil, nil
}

// ---- loads and stores ----

func walk(v *Term, path []pstep) *Term {
	for _, s := range path {
		if s.idx != nil {
			if v.sort == SStr {
				v = StrAt(v, s.idx)
			} else {
				v = Select(v, s.idx)
			}
		} else {
			v = structDT(s.st).get(v, s.field)
		}
	}
	return v
}

func put(v *Term, path []pstep, nv *Term) *Term {
	if len(path) == 0 {
		return nv
	}
	s := path[0]
	if s.idx != nil {
		if v.sort == SStr {
			return strSet(v, s.idx, nv)
		}
		return Store(v, s.idx, put(Select(v, s.idx), path[1:], nv))
	}
	d := structDT(s.st)
	return d.set(v, s.field, put(d.get(v, s.field), path[1:], nv))
}

func strSet(s, i, b *Term) *Term {
	return StrConcat(StrSub(s, Int(0), i), StrUnit(b), StrSub(s, Add(i, Int(1)), StrLen(s)))
}

func (x *Exec) addrOf(v Val, pt types.Type) *Addr {
	switch a := v.(type) {
	case *Addr:
		return a
	case *Term:
		return &Addr{key: cellKey(pt), ref: a, typ: pt}
	}
	panic(fmt.Sprintf("addrOf %T", v))
}

func (x *Exec) rootVal(st *State, a *Addr) *Term {
	h := st.heap(a.key)
	o := hsel(h, a.ref)
	if a.idx != nil {
		if o.sort == SStr {
			return StrAt(o, a.idx)
		}
		return Select(o, a.idx)
	}
	return o
}

func (x *Exec) load(st *State, a *Addr) *Term {
	v := walk(x.rootVal(st, a), a.path)
	x.assumeWF(st, v, a.typ)
	return v
}

func (x *Exec) store(st *State, a *Addr, v *Term) {
	h := st.heap(a.key)
	o := hsel(h, a.ref)
	var no *Term
	if a.idx != nil {
		if o.sort == SStr {
			no = strSet(o, a.idx, v)
		} else {
			no = Store(o, a.idx, put(Select(o, a.idx), a.path, v))
		}
	} else {
		no = put(o, a.path, v)
	}
	x.setHeap(st, a.key, a.ref, Store(h, a.ref, no))
}

// mapContent reads the contents datatype of a map reference.
func (x *Exec) mapContent(st *State, ref *Term, m *types.Map) *Term {
	d := mapDT(m)
	if ref.kind == KInt && ref.ival.Sign() == 0 {
		return emptyMap(d)
	}
	c := hsel(st.heap(mapKey(m)), ref)
	x.mapWF(st, c, m)
	if !ref.hasBV && !c.hasBV && !c.is(d.ctor) && !isAllocTerm(ref) {
		// the nil map is empty
		nf := Imp(Eq(ref, Int(0)), Eq(c, emptyMap(d)))
		if !st.wf[nf.id] {
			st.wf[nf.id] = true
			st.assume(nf)
		}
	}
	return c
}

func mapHas(d *DT, c, k *Term) *Term { return Select(d.get(c, 0), k) }
func mapGet(d *DT, c, k *Term) *Term { return Select(d.get(c, 1), k) }

func mapPut(d *DT, c, k, v *Term) *Term {
	dom, val, card := d.get(c, 0), d.get(c, 1), d.get(c, 2)
	return d.mk(Store(dom, k, True), Store(val, k, v), Add(card, Ite(Select(dom, k), Int(0), Int(1))))
}

func mapDel(d *DT, c, k *Term) *Term {
	dom, val, card := d.get(c, 0), d.get(c, 1), d.get(c, 2)
	_, vs := splitArr(val.sort)
	return d.mk(Store(dom, k, False), Store(val, k, zeroSort(vs)), Sub(card, Ite(Select(dom, k), Int(1), Int(0))))
}

// sliceContent is the byte content of a byte slice (seq mode).
func (x *Exec) bytesOf(st *State, s *Term, elem types.Type) *Term {
	c := hsel(st.heap(elemKey(elem)), SlArr(s))
	return StrSub(c, SlOff(s), Add(SlOff(s), SlLen(s)))
}

func keyDesc(k string) string {
	return strings.ReplaceAll(k, "github.com/aarondl/bpass/", "")
}
