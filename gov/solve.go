package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Axiom is a closed fact about uninterpreted symbols, added to a query when one
// of its trigger symbols occurs in it.
type Axiom struct {
	name string
	trig []string
	f    *Term
	lem  bool // proved lemma rather than an assumption
}

var (
	axioms []*Axiom
	// recursive spec functions: one unfolding of a ground application
	recDefs = map[string]func(args []*Term) *Term{}
	// ground facts attached to applications of a symbol
	groundFacts = map[string]func(t *Term) *Term{}
	usedAxioms  = map[string]bool{}
	usedLemmas  = map[string]bool{}
	recFuel     = 2
)

type PC struct {
	up  *PC
	t   *Term
	n   int
	id  int
	tag string
}

var pcCnt int

func (p *PC) add(t *Term) *PC {
	if t == True {
		return p
	}
	for q := p; q != nil && q.n > p.n-40; q = q.up {
		if q.t == t {
			return p
		}
	}
	n := 0
	if p != nil {
		n = p.n
	}
	pcCnt++
	return &PC{up: p, t: t, n: n + 1, id: pcCnt}
}

func (p *PC) list() []*Term {
	var out []*Term
	if p == nil {
		return nil
	}
	out = make([]*Term, p.n)
	for q := p; q != nil; q = q.up {
		out[q.n-1] = q.t
	}
	return out
}

func (p *PC) has(t *Term) bool {
	for q := p; q != nil; q = q.up {
		if q.t == t {
			return true
		}
	}
	return false
}

// ---- script generation ----

type script struct {
	seq    bool
	roots  []*Term
	syms   map[string]*Term // free constants
	ufs    map[string]bool
	sorts  map[Sort]bool
	lits   map[int]*Term
	seen   map[int]bool
	ref    map[int]int
	order  []*Term
	ground []*Term // ground applications in order of discovery
}

func (s *script) visit(t *Term) {
	s.ref[t.id]++
	if s.seen[t.id] {
		return
	}
	s.seen[t.id] = true
	s.useSort(t.sort)
	for _, v := range t.bound {
		s.useSort(v.sort)
	}
	for _, p := range t.pats {
		for _, x := range p {
			s.visit(x)
		}
	}
	for _, a := range t.args {
		s.visit(a)
	}
	switch t.kind {
	case KVar:
		if !t.isBV {
			s.syms[t.op] = t
		}
	case KLit:
		s.lits[t.id] = t
	case KApp:
		if _, ok := funSorts[t.op]; ok {
			s.ufs[t.op] = true
		}
		if !t.hasBV {
			s.ground = append(s.ground, t)
		}
	}
	s.order = append(s.order, t)
}

func (s *script) useSort(x Sort) {
	if s.sorts[x] {
		return
	}
	s.sorts[x] = true
	if d, ok := dtOfSort[x]; ok {
		for _, f := range d.sorts {
			s.useSort(f)
		}
		return
	}
	if strings.HasPrefix(string(x), "(Array ") {
		k, v := splitArr(x)
		s.useSort(k)
		s.useSort(v)
	}
}

// buildScript renders hyps /\ not goal.
func buildScript(hyps []*Term, goal *Term, seq bool, axiomsOn bool) string {
	s := &script{seq: seq, syms: map[string]*Term{}, ufs: map[string]bool{}, sorts: map[Sort]bool{}, lits: map[int]*Term{}, seen: map[int]bool{}, ref: map[int]int{}}
	s.useSort(SInt)
	s.useSort(SBool)
	var asserts []*Term
	var eqs [][2]*Term
	addA := func(t *Term) {
		for _, f := range assertForms(t) {
			f = normQuant(f)
			if f == True {
				continue
			}
			asserts = append(asserts, f)
			if seq && f.is("=") && f.args[0].sort == SStr && !f.hasBV {
				eqs = append(eqs, [2]*Term{f.args[0], f.args[1]}, [2]*Term{f.args[1], f.args[0]})
			}
			s.visit(f)
		}
	}
	for _, h := range hyps {
		addA(h)
	}
	addA(Not(goal))
	// closure under axioms, recursive definitions and ground facts
	doneAx := map[*Axiom]bool{}
	atDone := map[int]bool{}
	atRounds := 0
	depth := map[int]int{}
	next := 0
	for {
		ch := false
		for ; next < len(s.ground); next++ {
			t := s.ground[next]
			if gf, ok := groundFacts[t.op]; ok {
				if f := gf(t); f != nil && f != True {
					ch = true
					addA(f)
				}
			}
			if f, ok := recDefs[t.op]; ok && depth[t.id] < recFuel {
				before := len(s.ground)
				body := f(t.args)
				if body == nil {
					continue
				}
				eq := Eq(t, body)
				addA(eq)
				for _, x := range s.ground[before:] {
					if _, ok := depth[x.id]; !ok {
						depth[x.id] = depth[t.id] + 1
					}
				}
				ch = true
			}
			if seq {
				if t.sort == SStr && t.kind == KApp {
					if f, ok := lenOf[t.op]; ok {
						l := f(t)
						addA(Imp(Le(Int(0), l), app("=", SBool, app("str.len", SInt, t), l)))
					}
				}
				if t.is("str.at") {
					addA(And(Le(Int(0), t), Le(t, Int(255))))
				}
			}
		}
		if axiomsOn {
			for _, a := range axioms {
				if doneAx[a] {
					continue
				}
				for _, tr := range a.trig {
					if s.ufs[tr] {
						doneAx[a] = true
						if !a.lem {
							usedAxioms[a.name] = true
						} else {
							usedLemmas[a.name] = true
						}
						addA(a.f)
						ch = true
						break
					}
				}
			}
		}
		if !ch && next >= len(s.ground) && seq && len(eqs) > 0 && axiomsOn && atRounds < 3 {
			// elements of strings that are equal to each other
			atRounds++
			for _, t := range append([]*Term(nil), s.ground...) {
				if !t.is("str.at") {
					continue
				}
				for _, e := range eqs {
					if f := atThrough(e[0], e[1], t); f != nil && !atDone[f.id] {
						atDone[f.id] = true
						addA(f)
						ch = true
					}
				}
			}
		}
		if !ch && next >= len(s.ground) {
			break
		}
	}
	inPat := map[int]bool{}
	var markPat func(t *Term)
	markPat = func(t *Term) {
		if inPat[t.id] {
			return
		}
		inPat[t.id] = true
		if t.is("ite") {
			return
		}
		for _, a := range t.args {
			markPat(a)
		}
	}
	for _, t := range s.order {
		for _, ps := range t.pats {
			for _, x := range ps {
				markPat(x)
			}
		}
	}
	p := &printer{seq: seq, names: map[int]string{}}
	var b strings.Builder
	b.WriteString("(set-logic ALL)\n")
	if !seq {
		b.WriteString("(declare-sort Str 0)\n")
	}
	for _, d := range dtOrder {
		if !s.sorts[d.sort] {
			continue
		}
		fmt.Fprintf(&b, "(declare-datatypes ((%s 0)) (((%s", d.sort, d.ctor)
		for i, f := range d.fields {
			fmt.Fprintf(&b, " (%s %s)", quoteSym(f), p.sortText(d.sorts[i]))
		}
		b.WriteString("))))\n")
	}
	if !seq {
		writeOpaqueStr(&b, s)
	}
	var names []string
	for n := range s.syms {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		fmt.Fprintf(&b, "(declare-const %s %s)\n", quoteSym(n), p.sortText(s.syms[n].sort))
	}
	names = names[:0]
	for n := range s.ufs {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		d := funSorts[n]
		fmt.Fprintf(&b, "(declare-fun %s (", quoteSym(n))
		for i, a := range d.args {
			if i > 0 {
				b.WriteByte(' ')
			}
			b.WriteString(p.sortText(a))
		}
		fmt.Fprintf(&b, ") %s)\n", p.sortText(d.ret))
	}
	for _, t := range s.order {
		if t.is("ite") && !t.hasBV && t.sort != SBool && inPat[t.id] {
			// a name that may occur in a trigger
			fmt.Fprintf(&b, "(declare-const d$%d %s)\n(assert (= d$%d ", t.id, p.sortText(t.sort), t.id)
			printTerm(&b, t, p, 0)
			b.WriteString("))\n")
			p.names[t.id] = fmt.Sprintf("d$%d", t.id)
			continue
		}
		if t.hasBV || t.kind == KVar || t.kind == KInt || t.kind == KLit || len(t.args) == 0 || s.ref[t.id] < 2 || t.kind == KQuant {
			continue
		}
		fmt.Fprintf(&b, "(define-fun d$%d () %s ", t.id, p.sortText(t.sort))
		printTerm(&b, t, p, 0)
		b.WriteString(")\n")
		p.names[t.id] = fmt.Sprintf("d$%d", t.id)
	}
	for _, a := range asserts {
		b.WriteString("(assert ")
		printTerm(&b, a, p, 0)
		b.WriteString(")\n")
	}
	return b.String()
}

// atThrough: an element of a piece of a equals the element of b at the same place,
// where a = b is known.
func atThrough(a, b, at *Term) *Term {
	base, idx := at.args[0], at.args[1]
	pos := Int(0)
	ps := []*Term{a}
	if a.is("str.++") {
		ps = a.args
	}
	for _, p := range ps {
		n := rawLen(p)
		switch {
		case p == base:
			return Imp(And(Le(Int(0), idx), Lt(idx, n)), rawEq(at, atX(b, Add(pos, idx))))
		case p.is("str.sub") && p.args[0] == base:
			lo, hi := p.args[1], p.args[2]
			return Imp(And(Le(lo, idx), Lt(idx, hi), Le(Int(0), lo), Le(hi, rawLen(base))), rawEq(at, atX(b, Add(pos, Sub(idx, lo)))))
		}
		pos = Add(pos, n)
	}
	return nil
}

func rawEq(a, b *Term) *Term { return app("=", SBool, a, b) }

func rawLen(p *Term) *Term {
	switch {
	case p.is("str.sub"):
		return Sub(p.args[2], p.args[1])
	}
	return StrLen(p)
}

// atX is the element i of t, expanded over concatenations (0 <= i < len(t)).
func atX(t, i *Term) *Term {
	switch {
	case t.is("str.++"):
		pos := Int(0)
		var rec func(k int, pos *Term) *Term
		rec = func(k int, pos *Term) *Term {
			p := t.args[k]
			if k == len(t.args)-1 {
				return atX(p, Sub(i, pos))
			}
			end := Add(pos, rawLen(p))
			return Ite(Lt(i, end), atX(p, Sub(i, pos)), rec(k+1, end))
		}
		return rec(0, pos)
	case t.is("str.sub"):
		return app("str.at", SInt, t.args[0], Add(t.args[1], i))
	case isRep(t):
		return t.args[0]
	case t.is("str.unit"):
		return t.args[0]
	}
	return app("str.at", SInt, t, i)
}

var nqCache = map[int]*Term{}

// normQuant rewrites quantified facts about elements A[o+i] into facts about A[j],
// one copy per offset o (an equivalence: the shift is a bijection on the integers),
// because instantiation cannot solve o+i = index.
func normQuant(t *Term) *Term {
	if !hasQuant(t) {
		return t
	}
	if r, ok := nqCache[t.id]; ok {
		return r
	}
	r := t
	if t.kind != KQuant {
		args := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			args[i] = normQuant(a)
			ch = ch || args[i] != a
		}
		if ch {
			r = rebuild(t, args)
		}
	} else {
		body := normQuant(t.args[0])
		offs := map[int][]*Term{}
		var scan func(x *Term)
		seen := map[int]bool{}
		scan = func(x *Term) {
			if !x.hasBV || seen[x.id] {
				return
			}
			seen[x.id] = true
			if (x.is("select") || x.is("str.at")) && x.args[1].sort == SInt {
				for _, b := range t.bound {
					if b.sort != SInt {
						continue
					}
					l := linOf(x.args[1])
					c, ok := l.co[b.id]
					if !ok || c.Cmp(one) != 0 {
						continue
					}
					rest := Sub(x.args[1], b)
					if rest.hasBV {
						continue
					}
					dup := false
					for _, o := range offs[b.id] {
						if o == rest {
							dup = true
						}
					}
					if !dup {
						offs[b.id] = append(offs[b.id], rest)
					}
				}
			}
			for _, a := range x.args {
				scan(a)
			}
		}
		scan(body)
		need := false
		n := 1
		for _, o := range offs {
			for _, x := range o {
				if x != Int(0) {
					need = true
				}
			}
			if len(o) > n {
				n = len(o)
			}
		}
		if !need {
			if body != t.args[0] {
				r = quant(t.op, t.bound, body, t.pats...)
			}
		} else {
			if n > 3 {
				n = 3
			}
			var vs []*Term
			for k := 0; k < n; k++ {
				m := map[int]*Term{}
				nb := make([]*Term, len(t.bound))
				for i, b := range t.bound {
					nb[i] = b
					if o := offs[b.id]; len(o) > 0 {
						j := NewBound(strings.SplitN(b.op, "?", 2)[0], SInt)
						nb[i] = j
						m[b.id] = Sub(j, o[k%len(o)])
					}
				}
				bd := Subst(body, m)
				var ps [][]*Term
				for _, p := range t.pats {
					var q []*Term
					for _, x := range p {
						y := Subst(x, m)
						if !arithBV(y) {
							q = append(q, y)
						}
					}
					if len(q) == len(p) {
						ps = append(ps, q)
					}
				}
				ps = append(ps, autoPats(bd, nb)...)
				vs = append(vs, quant(t.op, nb, bd, ps...))
			}
			if t.op == "forall" {
				r = And(vs...)
			} else {
				r = vs[0]
			}
		}
	}
	nqCache[t.id] = r
	return r
}

// arithBV: a bound variable occurs under arithmetic.
func arithBV(t *Term) bool {
	if !t.hasBV || t.isBV {
		return false
	}
	if t.is("+") || t.is("*") {
		return true
	}
	for _, a := range t.args {
		if arithBV(a) {
			return true
		}
	}
	return false
}

// autoPats: element terms A[j] that determine the bound variables.
func autoPats(body *Term, bound []*Term) [][]*Term {
	var cands []*Term
	seen := map[int]bool{}
	var scan func(x *Term)
	scan = func(x *Term) {
		if !x.hasBV || seen[x.id] || x.kind == KQuant {
			return
		}
		seen[x.id] = true
		if (x.is("select") || x.is("str.at")) && x.args[1].isBV && !arithBV(x) && goodPat(x) {
			cands = append(cands, x)
		}
		for _, a := range x.args {
			scan(a)
		}
	}
	scan(body)
	if len(bound) == 1 {
		var out [][]*Term
		for _, c := range cands {
			f := fvOf(c)
			if len(f) == 1 && f[bound[0].id] && len(out) < 3 {
				out = append(out, []*Term{c})
			}
		}
		return out
	}
	// one term per variable
	var p []*Term
	for _, b := range bound {
		ok := false
		for _, c := range cands {
			f := fvOf(c)
			if len(f) == 1 && f[b.id] {
				p = append(p, c)
				ok = true
				break
			}
		}
		if !ok {
			return nil
		}
	}
	return [][]*Term{p}
}

var skCache = map[int]*Term{}

// assertForms splits an asserted formula into conjuncts and replaces top-level
// existentially quantified variables by constants.
func assertForms(t *Term) []*Term {
	switch {
	case t.is("and"):
		var out []*Term
		for _, a := range t.args {
			out = append(out, assertForms(a)...)
		}
		return out
	case t.kind == KQuant && t.op == "exists":
		return assertForms(skolemize(t))
	case t.is("not"):
		a := t.args[0]
		switch {
		case a.is("or"):
			var out []*Term
			for _, b := range a.args {
				out = append(out, assertForms(Not(b))...)
			}
			return out
		case a.is("=>"):
			return append(assertForms(a.args[0]), assertForms(Not(a.args[1]))...)
		case a.is("not"):
			return assertForms(a.args[0])
		case a.kind == KQuant && a.op == "forall":
			return assertForms(Not(skolemize(a)))
		}
	}
	return []*Term{t}
}

func skolemize(t *Term) *Term {
	if r, ok := skCache[t.id]; ok {
		return r
	}
	m := map[int]*Term{}
	for _, b := range t.bound {
		m[b.id] = NewVar(strings.SplitN(b.op, "?", 2)[0]+"_sk", b.sort)
	}
	r := Subst(t.args[0], m)
	if len(fvOf(t)) == 0 {
		skCache[t.id] = r
	}
	return r
}

func writeOpaqueStr(b *strings.Builder, s *script) {
	b.WriteString(`(declare-fun s_len (Str) Int)
(declare-fun s_at (Str Int) Int)
(declare-fun s_cat (Str Str) Str)
(declare-fun s_sub (Str Int Int) Str)
(declare-fun s_unit (Int) Str)
(declare-const s_empty Str)
(assert (= (s_len s_empty) 0))
(assert (forall ((s Str)) (! (and (>= (s_len s) 0) (=> (= (s_len s) 0) (= s s_empty))) :pattern ((s_len s)))))
(assert (forall ((s Str) (i Int)) (! (and (<= 0 (s_at s i)) (<= (s_at s i) 255)) :pattern ((s_at s i)))))
`)
	has := map[string]bool{}
	for id := range s.seen {
		_ = id
	}
	for _, t := range s.order {
		if t.kind == KApp {
			has[t.op] = true
		}
	}
	if has["str.++"] {
		b.WriteString(`(assert (forall ((a Str) (b Str)) (! (= (s_len (s_cat a b)) (+ (s_len a) (s_len b))) :pattern ((s_cat a b)))))
(assert (forall ((a Str) (b Str) (i Int)) (! (=> (and (<= 0 i) (< i (+ (s_len a) (s_len b)))) (= (s_at (s_cat a b) i) (ite (< i (s_len a)) (s_at a i) (s_at b (- i (s_len a)))))) :pattern ((s_at (s_cat a b) i)))))
(assert (forall ((a Str) (b Str) (c Str)) (! (=> (= (s_cat a b) (s_cat a c)) (= b c)) :pattern ((s_cat a b) (s_cat a c)))))
`)
	}
	if has["str.sub"] {
		b.WriteString(`(assert (forall ((a Str) (l Int) (h Int)) (! (=> (and (<= 0 l) (<= l h) (<= h (s_len a))) (= (s_len (s_sub a l h)) (- h l))) :pattern ((s_sub a l h)))))
(assert (forall ((a Str) (l Int) (h Int) (i Int)) (! (=> (and (<= 0 l) (<= l h) (<= h (s_len a)) (<= 0 i) (< i (- h l))) (= (s_at (s_sub a l h) i) (s_at a (+ l i)))) :pattern ((s_at (s_sub a l h) i)))))
`)
	}
	if has["str.unit"] {
		b.WriteString(`(assert (forall ((x Int)) (! (and (= (s_len (s_unit x)) 1) (=> (and (<= 0 x) (<= x 255)) (= (s_at (s_unit x) 0) x))) :pattern ((s_unit x)))))
`)
	}
	var ids []int
	for id := range s.lits {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	var ls []string
	for _, id := range ids {
		t := s.lits[id]
		n := fmt.Sprintf("lit$%d", id)
		if t.op == "" {
			fmt.Fprintf(b, "(define-fun %s () Str s_empty)\n", n)
		} else {
			fmt.Fprintf(b, "(declare-const %s Str)\n(assert (= (s_len %s) %d))\n", n, n, len(t.op))
			if len(t.op) <= 40 {
				for i := 0; i < len(t.op); i++ {
					fmt.Fprintf(b, "(assert (= (s_at %s %d) %d))\n", n, i, t.op[i])
				}
			}
		}
		ls = append(ls, n)
	}
	if len(ls) > 1 {
		fmt.Fprintf(b, "(assert (distinct %s))\n", strings.Join(ls, " "))
	}
}

// ---- solver processes ----

type Verdict int

const (
	Unknown Verdict = iota
	Unsat
	Sat
)

type proc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	bin string
}

var z3bin = "z3-new"

func startProc(bin string) *proc {
	cmd := exec.Command(bin, "-in", "-smt2", "-memory:6000")
	in, err := cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	cmd.Stderr = os.Stderr
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	return &proc{cmd: cmd, in: in, out: bufio.NewReaderSize(out, 1<<16), bin: bin}
}

func (p *proc) kill() {
	p.in.Close()
	p.cmd.Process.Kill()
	go p.cmd.Wait()
}

type pool struct {
	free chan *proc
	bin  string
}

var (
	solverPool *pool
	olderPool  *pool
	solverTime time.Duration
	solverCnt  int
	solverMu   sync.Mutex
	procMu     sync.Mutex
	allProcs   = map[*proc]bool{}
)

func newPool(n int, bin string) *pool {
	p := &pool{free: make(chan *proc, n), bin: bin}
	for i := 0; i < n; i++ {
		p.free <- nil
	}
	return p
}

// ask runs one script with a time limit in milliseconds.
func (pl *pool) ask(scr string, opts string, ms int) (Verdict, string) {
	return pl.askC(scr, opts, ms, nil)
}

func (pl *pool) askC(scr string, opts string, ms int, cancel chan bool) (Verdict, string) {
	p := <-pl.free
	select {
	case <-cancel:
		pl.free <- p
		return Unknown, "cancelled"
	default:
	}
	if p == nil {
		p = startProc(pl.bin)
		procMu.Lock()
		allProcs[p] = true
		procMu.Unlock()
	}
	t0 := time.Now()
	type ans struct {
		v Verdict
		s string
	}
	ch := make(chan ans, 1)
	go func() {
		var b strings.Builder
		b.WriteString("(reset)\n")
		fmt.Fprintf(&b, "(set-option :timeout %d)\n", ms)
		b.WriteString(opts)
		b.WriteString(scr)
		b.WriteString("(check-sat)\n(echo \"<<done>>\")\n")
		if _, err := io.WriteString(p.in, b.String()); err != nil {
			ch <- ans{Unknown, "solver died: " + err.Error()}
			return
		}
		var out []string
		for {
			l, err := p.out.ReadString('\n')
			l = strings.TrimSpace(l)
			if strings.Contains(l, "<<done>>") {
				break
			}
			if l != "" {
				out = append(out, l)
			}
			if err != nil {
				ch <- ans{Unknown, "solver died: " + err.Error() + " " + strings.Join(out, " ")}
				return
			}
		}
		v := Unknown
		if len(out) > 0 {
			switch out[len(out)-1] {
			case "unsat":
				v = Unsat
			case "sat":
				v = Sat
			}
		}
		txt := strings.Join(out, "\n")
		if strings.Contains(txt, "error") {
			v = Unknown
		}
		ch <- ans{v, txt}
	}()
	var a ans
	dead := false
	select {
	case a = <-ch:
		if strings.HasPrefix(a.s, "solver died") {
			dead = true
		}
	case <-time.After(time.Duration(ms)*time.Millisecond + 3*time.Second):
		a = ans{Unknown, "timeout (hard)"}
		dead = true
	case <-cancel:
		a = ans{Unknown, "cancelled"}
		dead = true
	}
	if dead {
		p.kill()
		procMu.Lock()
		delete(allProcs, p)
		procMu.Unlock()
		p = nil
	}
	solverMu.Lock()
	solverTime += time.Since(t0)
	solverCnt++
	solverMu.Unlock()
	pl.free <- p
	return a.v, a.s
}

var msSem = make(chan bool, 6)

// oneShot runs another solver on a file.
func oneShot(bin string, args []string, scr string, ms int, cancel chan bool) (Verdict, string) {
	msSem <- true
	defer func() { <-msSem }()
	select {
	case <-cancel:
		return Unknown, "cancelled"
	default:
	}
	f, err := os.CreateTemp("", "gov*.smt2")
	if err != nil {
		return Unknown, err.Error()
	}
	defer os.Remove(f.Name())
	f.WriteString(scr)
	f.WriteString("(check-sat)\n")
	f.Close()
	t0 := time.Now()
	cmd := exec.Command(bin, append(args, f.Name())...)
	var out strings.Builder
	cmd.Stdout = &out
	cmd.Stderr = &out
	if err := cmd.Start(); err != nil {
		return Unknown, err.Error()
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case <-done:
	case <-time.After(time.Duration(ms) * time.Millisecond):
		cmd.Process.Kill()
		<-done
	case <-cancel:
		cmd.Process.Kill()
		<-done
		return Unknown, "cancelled"
	}
	solverMu.Lock()
	solverTime += time.Since(t0)
	solverCnt++
	solverMu.Unlock()
	o := strings.TrimSpace(out.String())
	switch {
	case strings.HasPrefix(o, "unsat"):
		return Unsat, o
	case strings.HasPrefix(o, "sat"):
		return Sat, o
	}
	return Unknown, o
}

func killProcs() {
	procMu.Lock()
	defer procMu.Unlock()
	for p := range allProcs {
		p.cmd.Process.Kill()
	}
}

var dbgDir = os.Getenv("GOV_DUMP")
var dumpCnt int

// decide tries to prove goal from hyps. full: escalate over several configurations,
// raced against each other.
func decide(scr string, full bool, ms int) (Verdict, string, string) {
	if full && atomic.LoadInt32(&failCount) >= 3 && ms > 2000 {
		// the unit has failed already: only look for quick answers
		v, out := solverPool.ask(scr, "", 2000)
		return v, "z3", out
	}
	v, by, out := decide1(scr, full, ms)
	if full && v != Unsat {
		atomic.AddInt32(&failCount, 1)
	}
	return v, by, out
}

var failCount int32

func decide1(scr string, full bool, ms int) (Verdict, string, string) {
	first := ms
	if full && first > 1000 {
		first = 1000
	}
	v, out := solverPool.ask(scr, "", first)
	if v != Unknown || !full {
		return v, "z3", out
	}
	type res struct {
		v         Verdict
		name, out string
	}
	cancel := make(chan bool)
	ch := make(chan res, 8)
	n := 0
	for _, c := range []struct{ name, opts string }{
		{"z3", ""},
		{"z3/mbqi=false", "(set-option :smt.mbqi false)\n"},
		{"z3/seed", "(set-option :smt.random_seed 7)\n(set-option :smt.mbqi false)\n(set-option :smt.arith.solver 2)\n"},
	} {
		c := c
		n++
		go func() {
			v, out := solverPool.askC(scr, c.opts, ms*2, cancel)
			ch <- res{v, c.name, out}
		}()
	}
	n += 2
	go func() {
		v, out := oneShot("cvc5", []string{"--tlimit=" + fmt.Sprint(ms*2), "--strings-exp"}, scr, ms*2+2000, cancel)
		ch <- res{v, "cvc5", out}
	}()
	go func() {
		v, out := olderPool.askC(scr, "(set-option :smt.mbqi false)\n", ms*2, cancel)
		ch <- res{v, "z3-4.8.12", out}
	}()
	log := "z3: " + out
	last := Unknown
	for i := 0; i < n; i++ {
		r := <-ch
		if r.v == Unsat {
			close(cancel)
			return r.v, r.name, r.out
		}
		if r.v == Sat {
			last = Sat
		}
		log += "\n" + r.name + ": " + r.out
	}
	return last, "none", log
}

// race asks two generations of the solver at once.
func race(scr string, ms int) Verdict {
	cancel := make(chan bool)
	ch := make(chan Verdict, 2)
	go func() {
		v, _ := solverPool.askC(scr, "(set-option :smt.mbqi false)\n", ms, cancel)
		ch <- v
	}()
	go func() {
		v, _ := olderPool.askC(scr, "(set-option :smt.mbqi false)\n", ms, cancel)
		ch <- v
	}()
	for i := 0; i < 2; i++ {
		if <-ch == Unsat {
			close(cancel)
			return Unsat
		}
	}
	return Unknown
}
