package main

// Hash-consed first-order terms with local simplification, printed as SMT-LIB.

import (
	"fmt"
	"math/big"
	"regexp"
	"sort"
	"strings"
)

// Sort is the SMT-LIB text of a sort.
type Sort string

const (
	SInt  Sort = "Int"
	SBool Sort = "Bool"
	SStr  Sort = "Str" // byte strings and byte contents
)

func SArr(k, v Sort) Sort { return Sort("(Array " + string(k) + " " + string(v) + ")") }

// splitArr splits "(Array K V)" in K and V.
func splitArr(s Sort) (Sort, Sort) {
	t := string(s)
	if !strings.HasPrefix(t, "(Array ") {
		panic("not an array sort: " + t)
	}
	t = t[7 : len(t)-1]
	depth := 0
	for i, c := range t {
		switch c {
		case '(':
			depth++
		case ')':
			depth--
		case ' ':
			if depth == 0 {
				return Sort(t[:i]), Sort(t[i+1:])
			}
		}
	}
	panic("bad array sort " + t)
}

type TKind int

const (
	KVar TKind = iota
	KInt
	KApp
	KQuant
	KLit // string literal
)

// Term is an immutable hash-consed term.
type Term struct {
	id    int
	kind  TKind
	op    string // variable name, function name, "forall"/"exists"; for KLit the Go string
	ival  *big.Int
	args  []*Term
	sort  Sort
	bound []*Term // quantifier variables
	pats  [][]*Term
	hasBV bool // contains a bound variable
	isBV  bool
	maxV  int  // highest creation index of a free variable
	hasAl bool // contains an allocation-base variable
	isAl  bool
}

var (
	termTab  = map[string]*Term{}
	termCnt  int
	varCnt   int
	varByNm  = map[string]*Term{}
	funSorts = map[string]*FunDecl{}
)

// FunDecl is an uninterpreted function symbol.
type FunDecl struct {
	name string
	args []Sort
	ret  Sort
}

func intern(k string, mk func() *Term) *Term {
	if t, ok := termTab[k]; ok {
		return t
	}
	t := mk()
	termCnt++
	t.id = termCnt
	for _, a := range t.args {
		if a.hasBV {
			t.hasBV = true
		}
		if a.maxV > t.maxV {
			t.maxV = a.maxV
		}
		if a.hasAl {
			t.hasAl = true
		}
	}
	termTab[k] = t
	return t
}

func sanitize(n string) string {
	var b strings.Builder
	for _, c := range n {
		switch {
		case c >= 'a' && c <= 'z', c >= 'A' && c <= 'Z', c >= '0' && c <= '9', c == '_', c == '.', c == '@', c == '!', c == '$', c == '%':
			b.WriteRune(c)
		default:
			b.WriteByte('_')
		}
	}
	return b.String()
}

// NewVar makes a fresh free constant.
func NewVar(name string, s Sort) *Term {
	varCnt++
	n := fmt.Sprintf("%s!%d", sanitize(name), varCnt)
	t := &Term{kind: KVar, op: n, sort: s, maxV: varCnt}
	termCnt++
	t.id = termCnt
	varByNm[n] = t
	return t
}

// NewAlloc makes a fresh allocation base.
func NewAlloc() *Term {
	t := NewVar("al", SInt)
	t.isAl = true
	t.hasAl = true
	return t
}

// NewBound makes a bound variable.
func NewBound(name string, s Sort) *Term {
	termCnt++
	t := &Term{kind: KVar, op: fmt.Sprintf("%s?%d", sanitize(name), termCnt), sort: s, hasBV: true, isBV: true, id: termCnt}
	return t
}

// Const0 is a fixed (rigid) constant, the same everywhere.
func Const0(name string, s Sort) *Term {
	n := sanitize(name)
	return intern("V"+n, func() *Term { t := &Term{kind: KVar, op: n, sort: s}; varByNm[n] = t; return t })
}

func Int(v int64) *Term { return BigInt(big.NewInt(v)) }
func BigInt(v *big.Int) *Term {
	return intern("I"+v.String(), func() *Term { return &Term{kind: KInt, ival: new(big.Int).Set(v), sort: SInt} })
}

var (
	True  = intern("True", func() *Term { return &Term{kind: KApp, op: "true", sort: SBool} })
	False = intern("False", func() *Term { return &Term{kind: KApp, op: "false", sort: SBool} })
)

func Bool(b bool) *Term {
	if b {
		return True
	}
	return False
}

// StrLit is a string literal.
func StrLit(s string) *Term {
	return intern("S"+s, func() *Term { return &Term{kind: KLit, op: s, sort: SStr} })
}

func app(op string, s Sort, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString("A")
	b.WriteString(op)
	b.WriteByte(':')
	b.WriteString(string(s))
	for _, a := range args {
		fmt.Fprintf(&b, ",%d", a.id)
	}
	return intern(b.String(), func() *Term { return &Term{kind: KApp, op: op, args: args, sort: s} })
}

// UF applies an uninterpreted function, declaring it on first use.
func UF(name string, ret Sort, args ...*Term) *Term {
	if name == "EqualFold" && len(args) == 2 && args[0].kind == KLit && args[1].kind == KLit {
		return Bool(strings.EqualFold(args[0].op, args[1].op))
	}
	name = sanitize(name)
	if d, ok := funSorts[name]; ok {
		if len(d.args) != len(args) || d.ret != ret {
			panic(fmt.Sprintf("UF %s used with %d args -> %s, declared %d -> %s", name, len(args), ret, len(d.args), d.ret))
		}
		for i, a := range args {
			if a.sort != d.args[i] {
				panic(fmt.Sprintf("UF %s arg %d: sort %s, declared %s", name, i, a.sort, d.args[i]))
			}
		}
	} else {
		d := &FunDecl{name: name, ret: ret}
		for _, a := range args {
			d.args = append(d.args, a.sort)
		}
		funSorts[name] = d
	}
	if len(args) == 0 {
		return Const0(name, ret)
	}
	return app(name, ret, args...)
}

func (t *Term) isInt() bool { return t.kind == KInt }
func (t *Term) is(op string) bool {
	return t.kind == KApp && t.op == op
}

func (t *Term) i64() int64 { return t.ival.Int64() }

// ---- boolean ----

func Not(a *Term) *Term {
	switch {
	case a == True:
		return False
	case a == False:
		return True
	case a.is("not"):
		return a.args[0]
	case a.is("<="):
		return Lt(a.args[1], a.args[0])
	case a.is("<"):
		return Le(a.args[1], a.args[0])
	}
	return app("not", SBool, a)
}

func And(xs ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	for _, x := range xs {
		if x == False {
			return False
		}
		if x == True || seen[x.id] {
			continue
		}
		if x.is("and") {
			for _, y := range x.args {
				if !seen[y.id] {
					seen[y.id] = true
					out = append(out, y)
				}
			}
			continue
		}
		seen[x.id] = true
		out = append(out, x)
	}
	for _, x := range out {
		if seen[Not(x).id] && Not(x) != x {
			for _, y := range out {
				if y == Not(x) {
					return False
				}
			}
		}
	}
	switch len(out) {
	case 0:
		return True
	case 1:
		return out[0]
	}
	return app("and", SBool, out...)
}

func Or(xs ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	for _, x := range xs {
		if x == True {
			return True
		}
		if x == False || seen[x.id] {
			continue
		}
		if x.is("or") {
			for _, y := range x.args {
				if !seen[y.id] {
					seen[y.id] = true
					out = append(out, y)
				}
			}
			continue
		}
		seen[x.id] = true
		out = append(out, x)
	}
	for _, x := range out {
		n := Not(x)
		for _, y := range out {
			if y == n {
				return True
			}
		}
	}
	switch len(out) {
	case 0:
		return False
	case 1:
		return out[0]
	}
	return app("or", SBool, out...)
}

func Imp(a, b *Term) *Term {
	if a == True {
		return b
	}
	if a == False || b == True || a == b {
		return True
	}
	if b == False {
		return Not(a)
	}
	return app("=>", SBool, a, b)
}

func Ite(c, a, b *Term) *Term {
	if c == True || a == b {
		return a
	}
	if c == False {
		return b
	}
	if a.sort == SBool {
		if a == True && b == False {
			return c
		}
		if a == False && b == True {
			return Not(c)
		}
		if a == True {
			return Or(c, b)
		}
		if b == False {
			return And(c, a)
		}
		if a == False {
			return And(Not(c), b)
		}
		if b == True {
			return Or(Not(c), a)
		}
	}
	if c.is("not") {
		return Ite(c.args[0], b, a)
	}
	return app("ite", a.sort, c, a, b)
}

// ---- linear integer arithmetic normal form ----

type lin struct {
	k  *big.Int
	co map[int]*big.Int
	tm map[int]*Term
}

func newLin() *lin { return &lin{k: new(big.Int), co: map[int]*big.Int{}, tm: map[int]*Term{}} }

func (l *lin) add(t *Term, c *big.Int) {
	switch {
	case t.kind == KInt:
		l.k.Add(l.k, new(big.Int).Mul(t.ival, c))
	case t.is("+"):
		for _, a := range t.args {
			l.add(a, c)
		}
	case t.is("*") && t.args[0].kind == KInt:
		l.add(t.args[1], new(big.Int).Mul(c, t.args[0].ival))
	default:
		if o, ok := l.co[t.id]; ok {
			o.Add(o, c)
			if o.Sign() == 0 {
				delete(l.co, t.id)
				delete(l.tm, t.id)
			}
		} else {
			l.co[t.id] = new(big.Int).Set(c)
			l.tm[t.id] = t
		}
	}
}

func (l *lin) term() *Term {
	ids := make([]int, 0, len(l.co))
	for id := range l.co {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	var parts []*Term
	for _, id := range ids {
		c := l.co[id]
		if c.Sign() == 0 {
			continue
		}
		if c.Cmp(big.NewInt(1)) == 0 {
			parts = append(parts, l.tm[id])
		} else {
			parts = append(parts, app("*", SInt, BigInt(c), l.tm[id]))
		}
	}
	if l.k.Sign() != 0 || len(parts) == 0 {
		parts = append(parts, BigInt(l.k))
	}
	if len(parts) == 1 {
		return parts[0]
	}
	return app("+", SInt, parts...)
}

var one = big.NewInt(1)
var mone = big.NewInt(-1)

func linOf(t *Term) *lin { l := newLin(); l.add(t, one); return l }

func Add(xs ...*Term) *Term {
	l := newLin()
	for _, x := range xs {
		l.add(x, one)
	}
	return l.term()
}
func Sub(a, b *Term) *Term {
	l := newLin()
	l.add(a, one)
	l.add(b, mone)
	return l.term()
}
func Neg(a *Term) *Term { return Sub(Int(0), a) }
func Mul(a, b *Term) *Term {
	if a.kind == KInt {
		l := newLin()
		l.add(b, a.ival)
		return l.term()
	}
	if b.kind == KInt {
		return Mul(b, a)
	}
	return app("*", SInt, a, b)
}

// constDiff returns a-b when it is a constant.
func constDiff(a, b *Term) (*big.Int, bool) {
	l := newLin()
	l.add(a, one)
	l.add(b, mone)
	if len(l.co) == 0 {
		return l.k, true
	}
	return nil, false
}

func Le(a, b *Term) *Term {
	if d, ok := constDiff(a, b); ok {
		return Bool(d.Sign() <= 0)
	}
	return app("<=", SBool, a, b)
}
func Lt(a, b *Term) *Term {
	if d, ok := constDiff(a, b); ok {
		return Bool(d.Sign() < 0)
	}
	return app("<", SBool, a, b)
}

// definitelyNeq reports syntactic disequality.
func definitelyNeq(a, b *Term) bool {
	if a == b || a.sort != b.sort {
		return false
	}
	if a.kind == KLit && b.kind == KLit {
		return true
	}
	if a.sort == SInt {
		if d, ok := constDiff(a, b); ok {
			return d.Sign() != 0
		}
		if freshOver(a, b) || freshOver(b, a) {
			return true
		}
		// immutable program-wide objects are negative constants, every other reference is not
		if a.kind == KInt && a.ival.Sign() < 0 && isAllocTerm(b) || b.kind == KInt && b.ival.Sign() < 0 && isAllocTerm(a) {
			return true
		}
		if a.kind == KInt && a.ival.Sign() == 0 && isAllocTerm(b) || b.kind == KInt && b.ival.Sign() == 0 && isAllocTerm(a) {
			return true
		}
	}
	return false
}

// isAllocTerm: al_n + k, k >= 0.
func isAllocTerm(t *Term) bool { b, _ := allocBase(t); return b != nil }

func allocBase(t *Term) (*Term, int64) {
	if t.isAl {
		return t, 0
	}
	if t.is("+") && len(t.args) == 2 && t.args[0].isAl && t.args[1].kind == KInt && t.args[1].ival.Sign() >= 0 {
		return t.args[0], t.args[1].i64()
	}
	return nil, 0
}

// freshOver: a is a freshly allocated reference and b is a reference value that
// was determined before a's allocation base existed.
func freshOver(a, b *Term) bool {
	base, _ := allocBase(a)
	if base == nil || b.hasBV {
		return false
	}
	if bb, _ := allocBase(b); bb != nil {
		// later bases are beyond everything allocated before, but an older base
		// with a large offset was only allocated before the newer base was made
		return bb != base
	}
	if b.kind == KInt {
		return b.ival.Sign() <= 0
	}
	return b.maxV < base.maxV
}

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("Eq of sorts %s and %s: %s = %s", a.sort, b.sort, a, b))
	}
	if definitelyNeq(a, b) {
		return False
	}
	if a.sort == SBool {
		if a == True {
			return b
		}
		if b == True {
			return a
		}
		if a == False {
			return Not(b)
		}
		if b == False {
			return Not(a)
		}
	}
	if d, ok := dtOfSort[a.sort]; ok && a.is(d.ctor) && b.is(d.ctor) {
		var cs []*Term
		for i := range a.args {
			cs = append(cs, Eq(a.args[i], b.args[i]))
		}
		return And(cs...)
	}
	if a.sort == SStr {
		if r := seqEqSimp(a, b); r != nil {
			return r
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return app("=", SBool, a, b)
}

// ---- arrays ----

func Select(a, i *Term) *Term {
	_, v := splitArr(a.sort)
	for {
		if a.is("store") {
			if a.args[1] == i {
				return a.args[2]
			}
			if definitelyNeq(a.args[1], i) {
				a = a.args[0]
				continue
			}
			if i.hasBV || a.hasBV {
				return Ite(Eq(a.args[1], i), a.args[2], Select(a.args[0], i))
			}
			break
		}
		if a.is("constarr") {
			return a.args[0]
		}
		if a.is("ite") {
			return Ite(a.args[0], Select(a.args[1], i), Select(a.args[2], i))
		}
		break
	}
	if a.kind == KVar && i.kind == KInt && i.ival.Sign() <= 0 {
		if c := immutableSelect(a, i); c != nil {
			return c
		}
	}
	return app("select", v, a, i)
}

// immutableSelect is set by the executor: contents of objects built by package
// initialisation and never written afterwards.
var immutableSelect = func(a, i *Term) *Term { return nil }

func Store(a, i, v *Term) *Term {
	_, vs := splitArr(a.sort)
	if vs != v.sort {
		panic(fmt.Sprintf("store of %s in %s", v.sort, a.sort))
	}
	if a.is("store") && a.args[1] == i {
		return Store(a.args[0], i, v)
	}
	if v.is("select") && v.args[0] == a && v.args[1] == i {
		return a
	}
	return app("store", a.sort, a, i, v)
}

func ConstArr(k Sort, v *Term) *Term { return app("constarr", SArr(k, v.sort), v) }

// ---- datatypes ----

// DT is a single-constructor datatype.
type DT struct {
	sort   Sort
	ctor   string
	fields []string
	sorts  []Sort
}

var (
	dtOfSort = map[Sort]*DT{}
	dtOrder  []*DT
	selOf    = map[string]struct {
		d *DT
		i int
	}{}
)

func newDT(sortName string, fields []string, sorts []Sort) *DT {
	if d, ok := dtOfSort[Sort(sortName)]; ok {
		return d
	}
	d := &DT{sort: Sort(sortName), ctor: "mk_" + sortName, sorts: sorts}
	for i, f := range fields {
		fn := sortName + "." + f
		d.fields = append(d.fields, fn)
		selOf[fn] = struct {
			d *DT
			i int
		}{d, i}
	}
	dtOfSort[d.sort] = d
	dtOrder = append(dtOrder, d)
	return d
}

func (d *DT) mk(args ...*Term) *Term {
	if len(args) != len(d.sorts) {
		panic("datatype arity " + string(d.sort))
	}
	for i, a := range args {
		if a.sort != d.sorts[i] {
			panic(fmt.Sprintf("datatype %s field %d: sort %s want %s", d.sort, i, a.sort, d.sorts[i]))
		}
	}
	// eta: mk(f0(x),...,fn(x)) = x
	if len(args) > 0 && args[0].is(d.fields[0]) {
		base := args[0].args[0]
		all := true
		for i, a := range args {
			if !(a.is(d.fields[i]) && a.args[0] == base) {
				all = false
				break
			}
		}
		if all {
			return base
		}
	}
	return app(d.ctor, d.sort, args...)
}

func (d *DT) get(t *Term, i int) *Term {
	if t.sort != d.sort {
		panic(fmt.Sprintf("field %s of sort %s", d.fields[i], t.sort))
	}
	if t.is(d.ctor) {
		return t.args[i]
	}
	if t.is("ite") {
		return Ite(t.args[0], d.get(t.args[1], i), d.get(t.args[2], i))
	}
	return app(d.fields[i], d.sorts[i], t)
}

func (d *DT) set(t *Term, i int, v *Term) *Term {
	args := make([]*Term, len(d.sorts))
	for j := range args {
		if j == i {
			args[j] = v
		} else {
			args[j] = d.get(t, j)
		}
	}
	return d.mk(args...)
}

// Slice values.
var dSlice = newDT("Slice", []string{"arr", "off", "len", "cap"}, []Sort{SInt, SInt, SInt, SInt})

const SSlice Sort = "Slice"

func SlArr(t *Term) *Term { return dSlice.get(t, 0) }
func SlOff(t *Term) *Term { return dSlice.get(t, 1) }
func SlLen(t *Term) *Term { return dSlice.get(t, 2) }
func SlCap(t *Term) *Term { return dSlice.get(t, 3) }

// ---- byte strings (sequences) ----

var strEmpty = StrLit("")

func StrLen(s *Term) *Term {
	switch {
	case s.kind == KLit:
		return Int(int64(len(s.op)))
	case s.is("str.++"):
		var ls []*Term
		for _, a := range s.args {
			ls = append(ls, StrLen(a))
		}
		return Add(ls...)
	case s.is("str.unit"):
		return Int(1)
	case s.is("str.sub"):
		return Sub(s.args[2], s.args[1])
	case s.is("ite"):
		return Ite(s.args[0], StrLen(s.args[1]), StrLen(s.args[2]))
	}
	if n := knownLen(s); n != nil {
		return n
	}
	return app("str.len", SInt, s)
}

// knownLen gives the length of applications of functions with a declared length.
func knownLen(s *Term) *Term {
	if s.kind == KApp {
		if f, ok := lenOf[s.op]; ok {
			return f(s)
		}
	}
	return nil
}

var lenOf = map[string]func(*Term) *Term{}

func StrConcat(xs ...*Term) *Term {
	var out []*Term
	var addOne func(x *Term)
	addOne = func(x *Term) {
		if x.is("str.++") {
			for _, a := range x.args {
				addOne(a)
			}
			return
		}
		if x == strEmpty {
			return
		}
		if l := StrLen(x); l.kind == KInt && l.ival.Sign() == 0 {
			return
		}
		if n := len(out); n > 0 {
			if p := out[n-1]; isRep(p) && isRep(x) && p.args[0] == x.args[0] {
				out[n-1] = RepStr(x.args[0], Add(p.args[1], x.args[1]))
				return
			}
			if out[n-1].kind == KLit && x.kind == KLit {
				out[n-1] = StrLit(out[n-1].op + x.op)
				return
			}
			// adjacent extracts of the same string are joined
			if p := out[n-1]; p.is("str.sub") && x.is("str.sub") && p.args[0] == x.args[0] && p.args[2] == x.args[1] {
				out[n-1] = StrSub(p.args[0], p.args[1], x.args[2])
				return
			}
		}
		out = append(out, x)
	}
	for _, x := range xs {
		addOne(x)
	}
	switch len(out) {
	case 0:
		return strEmpty
	case 1:
		return out[0]
	}
	return app("str.++", SStr, out...)
}

// StrSub is s[lo:hi]; meaningful when 0<=lo<=hi<=len(s).
func StrSub(s, lo, hi *Term) *Term {
	if d, ok := constDiff(hi, lo); ok && d.Sign() == 0 {
		return strEmpty
	}
	if lo.kind == KInt && lo.ival.Sign() == 0 {
		if d, ok := constDiff(StrLen(s), hi); ok && d.Sign() == 0 {
			return s
		}
	}
	switch {
	case s.kind == KLit && lo.kind == KInt && hi.kind == KInt:
		a, b := lo.i64(), hi.i64()
		if 0 <= a && a <= b && b <= int64(len(s.op)) {
			return StrLit(s.op[a:b])
		}
	case isRep(s):
		return RepStr(s.args[0], Sub(hi, lo))
	case s.is("str.sub"):
		// s = u[l:h] => u[l+lo:l+hi]
		return StrSub(s.args[0], Add(s.args[1], lo), Add(s.args[1], hi))
	case s.is("str.++"):
		// split at piece boundaries
		pos := Int(0)
		var out []*Term
		started := false
		for _, p := range s.args {
			l := StrLen(p)
			end := Add(pos, l)
			from := Int(0)
			if !started {
				if geZero(Sub(lo, end)) {
					pos = end
					continue
				}
				if !geZero(Sub(lo, pos)) || !geZero(Sub(end, lo)) {
					goto give
				}
				started = true
				from = Sub(lo, pos)
			}
			if geZero(Sub(hi, end)) {
				out = append(out, StrSub(p, from, l))
				pos = end
				if d, ok := constDiff(hi, end); ok && d.Sign() == 0 {
					return StrConcat(out...)
				}
				continue
			}
			if geZero(Sub(end, hi)) {
				out = append(out, StrSub(p, from, Sub(hi, pos)))
				return StrConcat(out...)
			}
			goto give
		}
		if started {
			return StrConcat(out...)
		}
	case s.is("ite"):
		return Ite(s.args[0], StrSub(s.args[1], lo, hi), StrSub(s.args[2], lo, hi))
	}
give:
	return app("str.sub", SStr, s, lo, hi)
}

func isRep(s *Term) bool { return s.is("rep") && s.sort == SStr }

func subPiece(p, lo, hi *Term) *Term { return StrSub(p, lo, hi) }

// ctxNonNeg is set by the executor: t >= 0 follows from the current path condition.
var ctxNonNeg func(t *Term) bool

// geZero: t is known to be non-negative.
func geZero(t *Term) bool {
	if geZeroSyn(t) {
		return true
	}
	if t.kind == KInt || ctxNonNeg == nil || t.hasBV {
		return false
	}
	return ctxNonNeg(t)
}

// geZeroSyn: t is syntactically non-negative (a sum of lengths with non-negative coefficients).
func geZeroSyn(t *Term) bool {
	l := linOf(t)
	if l.k.Sign() < 0 {
		return false
	}
	for id, c := range l.co {
		x := l.tm[id]
		if c.Sign() < 0 {
			return false
		}
		if !(x.is("str.len") || x.is("Slice.len") || nonNegVar[x.id]) {
			return false
		}
	}
	return true
}

var nonNegVar = map[int]bool{}

// StrAt is the byte at index i.
func StrAt(s, i *Term) *Term {
	if s.kind == KLit && i.kind == KInt && i.ival.Sign() >= 0 && i.i64() < int64(len(s.op)) {
		return Int(int64(s.op[i.i64()]))
	}
	if s.is("str.unit") && i.kind == KInt && i.ival.Sign() == 0 {
		return s.args[0]
	}
	if isRep(s) {
		return s.args[0]
	}
	if s.is("str.sub") {
		return StrAt(s.args[0], Add(s.args[1], i))
	}
	if s.is("str.++") {
		pos := Int(0)
		for _, p := range s.args {
			end := Add(pos, StrLen(p))
			if geZero(Sub(i, end)) {
				pos = end
				continue
			}
			if geZero(Sub(i, pos)) && geZero(Sub(Sub(end, i), Int(1))) {
				return StrAt(p, Sub(i, pos))
			}
			break
		}
	}
	if s.is("ite") {
		return Ite(s.args[0], StrAt(s.args[1], i), StrAt(s.args[2], i))
	}
	return app("str.at", SInt, s, i)
}

func StrUnit(b *Term) *Term {
	if b.kind == KInt && b.ival.Sign() >= 0 && b.i64() < 256 {
		return StrLit(string([]byte{byte(b.i64())}))
	}
	return app("str.unit", SStr, b)
}

func pieces(s *Term) []*Term {
	if s.is("str.++") {
		return s.args
	}
	if s == strEmpty {
		return nil
	}
	return []*Term{s}
}

// seqEqSimp cancels common prefixes and suffixes.
func seqEqSimp(a, b *Term) *Term {
	pa, pb := pieces(a), pieces(b)
	n0 := len(pa) + len(pb)
	for len(pa) > 0 && len(pb) > 0 && pa[0] == pb[0] {
		pa, pb = pa[1:], pb[1:]
	}
	for len(pa) > 0 && len(pb) > 0 && pa[len(pa)-1] == pb[len(pb)-1] {
		pa, pb = pa[:len(pa)-1], pb[:len(pb)-1]
	}
	ra, rb := StrConcat(pa...), StrConcat(pb...)
	if ra == rb {
		return True
	}
	if d, ok := constDiff(StrLen(ra), StrLen(rb)); ok && d.Sign() != 0 {
		return False
	}
	if len(pa)+len(pb) < n0 {
		return Eq(ra, rb)
	}
	return nil
}

// ---- quantifiers ----

func quant(q string, vars []*Term, body *Term, pats ...[]*Term) *Term {
	if body == True || body == False || len(vars) == 0 {
		return body
	}
	fv := map[int]bool{}
	freeVars(body, fv)
	var vs []*Term
	for _, v := range vars {
		if fv[v.id] {
			vs = append(vs, v)
		}
	}
	if len(vs) == 0 {
		return body
	}
	var b strings.Builder
	b.WriteString("Q" + q)
	for _, v := range vs {
		fmt.Fprintf(&b, ",%d", v.id)
	}
	fmt.Fprintf(&b, ":%d", body.id)
	for _, p := range pats {
		b.WriteString("|")
		for _, t := range p {
			fmt.Fprintf(&b, ",%d", t.id)
		}
	}
	t := intern(b.String(), func() *Term {
		return &Term{kind: KQuant, op: q, args: []*Term{body}, bound: vs, pats: pats, sort: SBool}
	})
	// closed?
	fv = map[int]bool{}
	freeVars(t, fv)
	t.hasBV = false
	for id := range fv {
		if bvById[id] {
			t.hasBV = true
		}
	}
	return t
}

var bvById = map[int]bool{}

func Forall(vars []*Term, body *Term, pats ...[]*Term) *Term {
	return quant("forall", vars, body, pats...)
}
func Exists(vars []*Term, body *Term, pats ...[]*Term) *Term {
	return quant("exists", vars, body, pats...)
}

var fvCache = map[int]map[int]bool{}

func freeVars(t *Term, out map[int]bool) {
	for id := range fvOf(t) {
		out[id] = true
	}
}

// fvOf: the bound-style variables occurring free in t.
func fvOf(t *Term) map[int]bool {
	if t.isBV {
		bvById[t.id] = true
		return map[int]bool{t.id: true}
	}
	if !t.hasBV && t.kind != KQuant {
		return nil
	}
	if c, ok := fvCache[t.id]; ok {
		return c
	}
	m := map[int]bool{}
	for _, a := range t.args {
		for id := range fvOf(a) {
			m[id] = true
		}
	}
	for _, v := range t.bound {
		delete(m, v.id)
	}
	fvCache[t.id] = m
	return m
}

// Subst replaces variables.
func Subst(t *Term, m map[int]*Term) *Term {
	cache := map[int]*Term{}
	return subst(t, m, cache)
}

func subst(t *Term, m map[int]*Term, cache map[int]*Term) *Term {
	if r, ok := m[t.id]; ok {
		return r
	}
	if len(t.args) == 0 {
		return t
	}
	if r, ok := cache[t.id]; ok {
		return r
	}
	args := make([]*Term, len(t.args))
	ch := false
	for i, a := range t.args {
		args[i] = subst(a, m, cache)
		if args[i] != a {
			ch = true
		}
	}
	r := t
	if t.kind == KQuant {
		pats := make([][]*Term, len(t.pats))
		for i, p := range t.pats {
			for _, x := range p {
				y := subst(x, m, cache)
				if y != x {
					ch = true
				}
				pats[i] = append(pats[i], y)
			}
		}
		if ch {
			r = quant(t.op, t.bound, args[0], okPats(pats)...)
		}
	} else if ch {
		r = rebuild(t, args)
	}
	cache[t.id] = r
	return r
}

func okPats(pats [][]*Term) [][]*Term {
	var out [][]*Term
	for _, p := range pats {
		ok := true
		for _, t := range p {
			if !goodPat(t) {
				ok = false
			}
		}
		if ok {
			out = append(out, p)
		}
	}
	return out
}

// goodPat: usable as a trigger (no boolean connectives, ite or quantifiers inside).
func goodPat(t *Term) bool {
	if t.kind == KVar || t.kind == KInt || t.kind == KLit {
		return !t.isBV || true
	}
	if t.kind == KQuant {
		return false
	}
	if t.is("ite") && !t.hasBV && t.sort != SBool {
		return true // printed as a named constant
	}
	switch t.op {
	case "and", "or", "not", "=>", "ite", "=", "<=", "<":
		return false
	}
	for _, a := range t.args {
		if !goodPat(a) {
			return false
		}
	}
	return true
}

func rebuild(t *Term, args []*Term) *Term {
	switch t.op {
	case "and":
		return And(args...)
	case "or":
		return Or(args...)
	case "not":
		return Not(args[0])
	case "=>":
		return Imp(args[0], args[1])
	case "ite":
		return Ite(args[0], args[1], args[2])
	case "=":
		return Eq(args[0], args[1])
	case "<=":
		return Le(args[0], args[1])
	case "<":
		return Lt(args[0], args[1])
	case "+":
		return Add(args...)
	case "*":
		return Mul(args[0], args[1])
	case "div":
		return DivE(args[0], args[1])
	case "mod":
		return ModE(args[0], args[1])
	case "select":
		return Select(args[0], args[1])
	case "store":
		return Store(args[0], args[1], args[2])
	case "str.len":
		return StrLen(args[0])
	case "str.++":
		return StrConcat(args...)
	case "str.sub":
		return StrSub(args[0], args[1], args[2])
	case "str.at":
		return StrAt(args[0], args[1])
	case "str.unit":
		return StrUnit(args[0])
	}
	if s, ok := selOf[t.op]; ok {
		return s.d.get(args[0], s.i)
	}
	if d, ok := dtOfSort[t.sort]; ok && d.ctor == t.op {
		return d.mk(args...)
	}
	return app(t.op, t.sort, args...)
}

// Euclidean division (SMT-LIB div/mod).
func DivE(a, b *Term) *Term {
	if a.kind == KInt && b.kind == KInt && b.ival.Sign() != 0 {
		q, m := new(big.Int), new(big.Int)
		q.DivMod(a.ival, b.ival, m)
		return BigInt(q)
	}
	if b.kind == KInt && b.ival.Cmp(one) == 0 {
		return a
	}
	return app("div", SInt, a, b)
}
func ModE(a, b *Term) *Term {
	if a.kind == KInt && b.kind == KInt && b.ival.Sign() != 0 {
		q, m := new(big.Int), new(big.Int)
		q.DivMod(a.ival, b.ival, m)
		return BigInt(m)
	}
	if b.kind == KInt && b.ival.Cmp(one) == 0 {
		return Int(0)
	}
	return app("mod", SInt, a, b)
}

// ---- printing ----

func (t *Term) String() string {
	var b strings.Builder
	printTerm(&b, t, nil, 0)
	s := b.String()
	if len(s) > 4000 {
		s = s[:4000] + "..."
	}
	return s
}

func quoteSym(n string) string {
	for _, c := range n {
		switch c {
		case '?', '!', '@', '$', '%', '.', '_', '-', '+', '*', '/', '<', '>', '=', '~', '&', '^':
		default:
			if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9') {
				return "|" + n + "|"
			}
		}
	}
	return n
}

// printMode selects the encoding of byte strings: native sequences or an opaque sort.
type printer struct {
	seq   bool
	names map[int]string // shared definitions
}

func printTerm(b *strings.Builder, t *Term, p *printer, depth int) {
	if p != nil {
		if n, ok := p.names[t.id]; ok {
			b.WriteString(n)
			return
		}
	}
	if depth > 200 && p == nil {
		b.WriteString("...")
		return
	}
	switch t.kind {
	case KVar:
		b.WriteString(quoteSym(t.op))
	case KInt:
		if t.ival.Sign() < 0 {
			fmt.Fprintf(b, "(- %s)", new(big.Int).Neg(t.ival))
		} else {
			b.WriteString(t.ival.String())
		}
	case KLit:
		if p == nil {
			fmt.Fprintf(b, "%q", t.op)
			return
		}
		if p.seq {
			switch len(t.op) {
			case 0:
				b.WriteString("(as seq.empty (Seq Int))")
			case 1:
				fmt.Fprintf(b, "(seq.unit %d)", t.op[0])
			default:
				b.WriteString("(seq.++")
				for i := 0; i < len(t.op); i++ {
					fmt.Fprintf(b, " (seq.unit %d)", t.op[i])
				}
				b.WriteString(")")
			}
		} else {
			fmt.Fprintf(b, "lit$%d", t.id)
		}
	case KQuant:
		pats := cleanPats(t)
		b.WriteString("(" + t.op + " (")
		for _, v := range t.bound {
			fmt.Fprintf(b, "(%s %s)", quoteSym(v.op), p.sortText(v.sort))
		}
		b.WriteString(") ")
		if len(pats) > 0 {
			b.WriteString("(! ")
		}
		printTerm(b, t.args[0], p, depth+1)
		if len(pats) > 0 {
			for _, pt := range pats {
				b.WriteString(" :pattern (")
				for i, x := range pt {
					if i > 0 {
						b.WriteByte(' ')
					}
					printTerm(b, x, p, depth+1)
				}
				b.WriteString(")")
			}
			b.WriteString(")")
		}
		b.WriteString(")")
	case KApp:
		if len(t.args) == 0 {
			b.WriteString(t.op)
			return
		}
		op := t.op
		switch op {
		case "constarr":
			fmt.Fprintf(b, "((as const %s) ", p.sortText(t.sort))
			printTerm(b, t.args[0], p, depth+1)
			b.WriteString(")")
			return
		case "str.len", "str.++", "str.at", "str.unit", "str.sub":
			if p != nil && p.seq {
				switch op {
				case "str.len":
					op = "seq.len"
				case "str.++":
					op = "seq.++"
				case "str.at":
					op = "seq.nth"
				case "str.unit":
					op = "seq.unit"
				case "str.sub":
					b.WriteString("(seq.extract ")
					printTerm(b, t.args[0], p, depth+1)
					b.WriteByte(' ')
					printTerm(b, t.args[1], p, depth+1)
					b.WriteByte(' ')
					printTerm(b, Sub(t.args[2], t.args[1]), p, depth+1)
					b.WriteString(")")
					return
				}
			} else if p != nil {
				op = map[string]string{"str.len": "s_len", "str.++": "s_cat", "str.at": "s_at", "str.unit": "s_unit", "str.sub": "s_sub"}[op]
				if op == "s_cat" && len(t.args) > 2 {
					// right fold
					for i, a := range t.args {
						if i < len(t.args)-1 {
							b.WriteString("(s_cat ")
						}
						printTerm(b, a, p, depth+1)
						b.WriteByte(' ')
					}
					b.WriteString(strings.Repeat(")", len(t.args)-1))
					return
				}
			}
		}
		b.WriteString("(" + quoteOp(op))
		for _, a := range t.args {
			b.WriteByte(' ')
			printTerm(b, a, p, depth+1)
		}
		b.WriteString(")")
	}
}

func quoteOp(op string) string {
	return quoteSym(op)
}

var strTok = regexp.MustCompile(`(^|[ (])Str($|[ )])`)

func (p *printer) sortText(s Sort) string {
	if p == nil {
		return string(s)
	}
	if p.seq {
		return strTok.ReplaceAllString(string(s), "${1}(Seq Int)${2}")
	}
	return string(s)
}

// cleanPats returns the patterns of a quantifier with the terms a solver refuses in
// patterns (conditionals and connectives) replaced by the applications inside them.
func cleanPats(t *Term) [][]*Term {
	bad := map[string]bool{"ite": true, "and": true, "or": true, "not": true, "=": true, "=>": true, "<": true, "<=": true, "distinct": true, "+": true, "-": true, "*": true}
	var dirty func(x *Term) bool
	dirty = func(x *Term) bool {
		if x.kind == KQuant || x.kind == KApp && bad[x.op] && x.op != "+" && x.op != "-" && x.op != "*" {
			return true
		}
		for _, a := range x.args {
			if dirty(a) {
				return true
			}
		}
		return false
	}
	var uses func(x, v *Term) bool
	uses = func(x, v *Term) bool {
		if x == v {
			return true
		}
		for _, a := range x.args {
			if uses(a, v) {
				return true
			}
		}
		return false
	}
	any := func(x *Term) bool {
		for _, v := range t.bound {
			if uses(x, v) {
				return true
			}
		}
		return false
	}
	var out [][]*Term
	for _, g := range t.pats {
		var ng []*Term
		var add func(x *Term)
		add = func(x *Term) {
			if x.kind == KQuant || !any(x) {
				return
			}
			if x.kind == KApp && len(x.args) > 0 && !bad[x.op] && !dirty(x) {
				for _, y := range ng {
					if y == x {
						return
					}
				}
				ng = append(ng, x)
				return
			}
			for _, a := range x.args {
				add(a)
			}
		}
		isDirty := false
		for _, x := range g {
			if dirty(x) {
				isDirty = true
			}
		}
		if !isDirty {
			out = append(out, g)
			continue
		}
		for _, x := range g {
			add(x)
		}
		covers := len(ng) > 0
		for _, v := range t.bound {
			ok := false
			for _, x := range ng {
				if uses(x, v) {
					ok = true
				}
			}
			covers = covers && ok
		}
		if covers {
			out = append(out, ng)
		}
	}
	return out
}
