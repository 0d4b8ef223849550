package main

// Contract files: one statement per keyword; expressions are Go expressions plus
// the specification functions evaluated below.

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Clause struct {
	name string
	src  string
	ex   ast.Expr
	vars []declVar // for invariants
	exact bool
	in   string    // invariants: the function whose loops it is for
	loc  string
	props []string // empty: all of the unit's
}

type declVar struct {
	name string
	typ  string
}

// Unit is a function with a contract.
type Unit struct {
	Name    string // as printed by ssa.Function.String without the module prefix
	full    string
	fn      *ssa.Function
	pkg     *types.Package
	props   []string
	nopanic bool
	nopProps []string
	trusted bool
	inline  bool
	pure    bool
	seq     bool
	panics  []*Clause
	req     []*Clause
	ens     []*Clause
	mods    []*Clause
	invs    []*Clause
	uses    []string
	nobody  bool // extern
	params  []string
	results []string
	file    string
	line    int
	lemmas  []string
	assumes []*Clause
	opts    map[string]string
	anyMod  bool
	bounded string
	noframe bool
	variant bool // a second contract of the same function, verified but not used by callers
}

type specFn struct {
	name   string
	params []declVar
	ret    string
	body   ast.Expr
	src    string
	rec    bool
	uf     bool
	pkg    *types.Package
	file   string
	loc    string
}

type lemma struct {
	name   string
	params []declVar
	induct string
	body   ast.Expr
	trig   [][]ast.Expr
	pkg    *types.Package
	axiom  bool
	loc    string
	file   string
	uses   []string
	src    string
	seq    bool
	inst   []ast.Expr
	opaque bool // not added automatically
	done   bool
	props  []string
}

type Specs struct {
	units   map[string]*Unit // by full ssa name
	order   []*Unit
	fns     map[string]*specFn
	lemmas  []*lemma
	ghosts  map[string]string
	sorts   map[string]string
	invsets map[string][]*Clause
	files   []string
}

const modPath = "github.com/aarondl/bpass"

var keywords = map[string]bool{"package": true, "seq": true, "def": true, "rec": true, "ufn": true, "axiom": true, "lemma": true, "ghost": true, "sort": true, "unit": true, "extern": true, "props": true, "nopanic": true, "panics": true,
	"requires": true, "ensures": true, "modifies": true, "inv": true, "invset": true, "uses": true, "trusted": true, "inline": true, "pure": true, "end": true, "induct": true, "trigger": true, "params": true, "results": true, "by": true, "opaque": true, "opt": true, "bounded": true, "noframe": true}

func loadSpecs(w *World, dir string) (*Specs, error) {
	sp := &Specs{units: map[string]*Unit{}, fns: map[string]*specFn{}, ghosts: map[string]string{}, sorts: map[string]string{}, invsets: map[string][]*Clause{}}
	fs, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(fs)
	for _, f := range fs {
		if err := sp.load(w, f); err != nil {
			return nil, err
		}
	}
	return sp, nil
}

func (sp *Specs) load(w *World, file string) error {
	data, err := os.ReadFile(file)
	if err != nil {
		return err
	}
	base := filepath.Base(file)
	sp.files = append(sp.files, base)
	type stmt struct {
		kw, rest string
		line     int
	}
	var sts []stmt
	for i, l := range strings.Split(string(data), "\n") {
		l = strings.TrimSpace(l)
		l = strings.TrimPrefix(l, "//@")
		l = strings.TrimSpace(l)
		if l == "" || strings.HasPrefix(l, "#") || strings.HasPrefix(l, "//") {
			continue
		}
		if j := strings.Index(l, " // "); j >= 0 {
			l = strings.TrimSpace(l[:j])
		}
		f := strings.Fields(l)[0]
		if keywords[f] {
			sts = append(sts, stmt{f, strings.TrimSpace(l[len(f):]), i + 1})
		} else {
			if len(sts) == 0 {
				return fmt.Errorf("%s:%d: unexpected text", base, i+1)
			}
			sts[len(sts)-1].rest += " " + l
		}
	}
	pkgName := ""
	var pkg *types.Package
	var cur *Unit
	var curSet string
	var curLem *lemma
	seq := false
	for _, s := range sts {
		loc := fmt.Sprintf("%s:%d", base, s.line)
		fail := func(f string, a ...interface{}) error { return fmt.Errorf("%s: %s", loc, fmt.Sprintf(f, a...)) }
		clause := func(txt string) (*Clause, error) {
			c := &Clause{loc: loc}
			if strings.HasPrefix(txt, "[") {
				j := strings.Index(txt, "]")
				c.props = strings.Fields(strings.ReplaceAll(txt[1:j], ",", " "))
				txt = strings.TrimSpace(txt[j+1:])
			}
			// optional "name:" label
			if j := strings.Index(txt, ":"); j > 0 && isLabel(txt[:j]) && (j+1 >= len(txt) || txt[j+1] != '=') {
				c.name = strings.TrimSpace(txt[:j])
				txt = strings.TrimSpace(txt[j+1:])
			}
			c.src = txt
			ex, err := parseSpec(txt)
			if err != nil {
				return nil, fail("%v in %q", err, txt)
			}
			c.ex = ex
			if c.name == "" {
				c.name = loc
			}
			return c, nil
		}
		switch s.kw {
		case "package":
			pkgName = s.rest
			pkg = w.pkgByShort(pkgName)
			if pkg == nil {
				return fail("no package %s", pkgName)
			}
			cur, curSet, curLem = nil, "", nil
			seq = false
		case "seq":
			seq = true
			if cur != nil {
				cur.seq = true
			}
		case "ghost":
			f := strings.SplitN(s.rest, " ", 2)
			sp.ghosts[f[0]] = strings.TrimSpace(f[1])
			cur, curSet, curLem = nil, "", nil
		case "sort":
			f := strings.SplitN(s.rest, "=", 2)
			sp.sorts[strings.TrimSpace(f[0])] = strings.TrimSpace(f[1])
		case "def", "rec", "ufn":
			cur, curSet, curLem = nil, "", nil
			fn := &specFn{pkg: pkg, rec: s.kw == "rec", uf: s.kw == "ufn", file: base, loc: loc, src: s.rest}
			open := strings.Index(s.rest, "(")
			cl := matchParen(s.rest, open)
			if open < 0 || cl < 0 {
				return fail("bad definition")
			}
			fn.name = strings.TrimSpace(s.rest[:open])
			fn.params, err = parseDecls(s.rest[open+1 : cl])
			if err != nil {
				return fail("%v", err)
			}
			rest := s.rest[cl+1:]
			if fn.uf {
				fn.ret = strings.TrimSpace(rest)
			} else {
				j := strings.Index(rest, ":=")
				if j < 0 {
					return fail("definition without :=")
				}
				fn.ret = strings.TrimSpace(rest[:j])
				fn.body, err = parseSpec(rest[j+2:])
				if err != nil {
					return fail("%v", err)
				}
			}
			if sp.fns[fn.name] != nil {
				return fail("%s redefined", fn.name)
			}
			sp.fns[fn.name] = fn
		case "axiom", "lemma":
			cur, curSet = nil, ""
			lm := &lemma{pkg: pkg, axiom: s.kw == "axiom", loc: loc, file: base, src: s.rest, seq: seq}
			open := strings.Index(s.rest, "(")
			cl := matchParen(s.rest, open)
			if open < 0 || cl < 0 {
				return fail("bad lemma")
			}
			lm.name = strings.TrimSpace(s.rest[:open])
			lm.params, err = parseDecls(s.rest[open+1 : cl])
			if err != nil {
				return fail("%v", err)
			}
			rest := strings.TrimSpace(s.rest[cl+1:])
			rest = strings.TrimPrefix(rest, ":")
			lm.body, err = parseSpec(rest)
			if err != nil {
				return fail("%v in %q", err, rest)
			}
			sp.lemmas = append(sp.lemmas, lm)
			curLem = lm
		case "induct":
			curLem.induct = s.rest
		case "opaque":
			curLem.opaque = true
		case "by":
			if curLem != nil && strings.Contains(s.rest, "(") {
				// an instance of a lemma
				ex, err := parseSpec(s.rest)
				if err != nil {
					return fail("%v", err)
				}
				curLem.inst = append(curLem.inst, ex)
			} else if curLem != nil {
				curLem.uses = append(curLem.uses, strings.Fields(strings.ReplaceAll(s.rest, ",", " "))...)
			} else if cur != nil {
				cur.lemmas = append(cur.lemmas, strings.Fields(strings.ReplaceAll(s.rest, ",", " "))...)
			}
		case "trigger":
			var tr []ast.Expr
			ex, err := parseSpec("trig(" + s.rest + ")")
			if err != nil {
				return fail("%v", err)
			}
			tr = ex.(*ast.CallExpr).Args
			curLem.trig = append(curLem.trig, tr)
		case "invset":
			cur, curLem = nil, nil
			curSet = s.rest
		case "end":
			cur, curSet, curLem = nil, "", nil
		case "unit", "extern":
			curLem, curSet = nil, ""
			u := &Unit{file: base, line: s.line, pkg: pkg, nobody: s.kw == "extern", seq: seq, opts: map[string]string{}}
			name := s.rest
			if s.kw == "extern" {
				u.trusted = true
				// extern name (a, b) (r, err)
				if j := strings.Index(name, " "); j > 0 {
					rest := strings.TrimSpace(name[j:])
					name = name[:j]
					cl := matchParen(rest, 0)
					u.params = splitNames(rest[1:cl])
					rest = strings.TrimSpace(rest[cl+1:])
					if rest != "" {
						u.results = splitNames(rest[1:matchParen(rest, 0)])
					}
				}
				u.full = name
			} else {
				base := name
				if j := strings.Index(name, "#"); j > 0 {
					base = name[:j]
					u.variant = true
				}
				u.full = fullName(pkg, base)
			}
			u.Name = name
			if s.kw == "unit" {
				u.Name = pkgName + "." + name
				if strings.HasPrefix(name, "(") {
					u.Name = strings.Replace(strings.Replace(name, "(*", "(*"+pkgName+".", 1), "(", "(", 1)
					if !strings.HasPrefix(name, "(*") {
						u.Name = "(" + pkgName + "." + name[1:]
					}
				}
			}
			if !u.variant {
				if sp.units[u.full] != nil {
					return fail("unit %s redefined", name)
				}
				sp.units[u.full] = u
			}
			sp.order = append(sp.order, u)
			cur = u
		case "props":
			ps := strings.Fields(strings.ReplaceAll(s.rest, ",", " "))
			if cur != nil {
				cur.props = append(cur.props, ps...)
			} else if curLem != nil {
				curLem.props = ps
			}
		case "opt":
			f := strings.SplitN(s.rest, " ", 2)
			if len(f) == 1 {
				f = append(f, "1")
			}
			cur.opts[f[0]] = f[1]
		case "bounded":
			cur.bounded = s.rest
		case "nopanic":
			cur.nopanic = true
			cur.nopProps = strings.Fields(strings.Trim(strings.ReplaceAll(s.rest, ",", " "), "[]"))
		case "noframe":
			cur.noframe = true
		case "trusted":
			cur.trusted = true
		case "inline":
			cur.inline = true
		case "pure":
			cur.pure = true
		case "params":
			cur.params = splitNames(s.rest)
		case "results":
			cur.results = splitNames(s.rest)
		case "panics", "requires", "ensures":
			c, err := clause(s.rest)
			if err != nil {
				return err
			}
			switch s.kw {
			case "panics":
				cur.panics = append(cur.panics, c)
			case "requires":
				cur.req = append(cur.req, c)
			case "ensures":
				cur.ens = append(cur.ens, c)
			}
		case "modifies":
			if s.rest == "*" {
				cur.anyMod = true
				break
			}
			for _, p := range splitTop(s.rest, ',') {
				c, err := clause(p)
				if err != nil {
					return err
				}
				cur.mods = append(cur.mods, c)
			}
		case "uses":
			cur.uses = append(cur.uses, strings.Fields(strings.ReplaceAll(s.rest, ",", " "))...)
		case "inv":
			rest := s.rest
			in := ""
			exact := false
			if strings.HasPrefix(rest, "exact ") {
				// only for variables of these names
				exact = true
				rest = rest[6:]
			}
			if strings.HasPrefix(rest, "in ") {
				// only for loops of one function
				f := strings.SplitN(rest[3:], " ", 2)
				in, rest = strings.TrimSuffix(f[0], ":"), strings.TrimSpace(f[1])
			}
			var vars []declVar
			if strings.HasPrefix(rest, "(") {
				cl := matchParen(rest, 0)
				if strings.HasPrefix(strings.TrimSpace(rest[cl+1:]), ":") {
					vars, err = parseDecls(rest[1:cl])
					if err != nil {
						return fail("%v", err)
					}
					rest = strings.TrimSpace(strings.TrimSpace(rest[cl+1:])[1:])
				}
			}
			c := &Clause{loc: loc, src: rest, name: loc, vars: vars, in: in, exact: exact}
			c.ex, err = parseSpec(rest)
			if err != nil {
				return fail("%v in %q", err, rest)
			}
			if curSet != "" {
				sp.invsets[curSet] = append(sp.invsets[curSet], c)
			} else {
				cur.invs = append(cur.invs, c)
			}
		default:
			return fail("unknown keyword %s", s.kw)
		}
	}
	return nil
}

func isLabel(s string) bool {
	for _, c := range s {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '-' || c == ' ') {
			return false
		}
	}
	return true
}

// fullName maps "(*DB).Rollback" in package p to the ssa name.
func fullName(pkg *types.Package, name string) string {
	if strings.HasPrefix(name, "(*") {
		return "(*" + pkg.Path() + "." + name[2:]
	}
	if strings.HasPrefix(name, "(") {
		return "(" + pkg.Path() + "." + name[1:]
	}
	return pkg.Path() + "." + name
}

func splitNames(s string) []string {
	var out []string
	for _, p := range strings.Split(s, ",") {
		if p = strings.TrimSpace(p); p != "" {
			out = append(out, p)
		}
	}
	return out
}

func matchParen(s string, i int) int {
	if i < 0 {
		return -1
	}
	d := 0
	inStr := byte(0)
	for ; i < len(s); i++ {
		c := s[i]
		if inStr != 0 {
			if c == '\\' {
				i++
			} else if c == inStr {
				inStr = 0
			}
			continue
		}
		switch c {
		case '"', '\'', '`':
			inStr = c
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
			if d == 0 {
				return i
			}
		}
	}
	return -1
}

func splitTop(s string, sep byte) []string {
	var out []string
	d, last := 0, 0
	inStr := byte(0)
	for i := 0; i < len(s); i++ {
		c := s[i]
		if inStr != 0 {
			if c == '\\' {
				i++
			} else if c == inStr {
				inStr = 0
			}
			continue
		}
		switch c {
		case '"', '\'', '`':
			inStr = c
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
		case sep:
			if d == 0 {
				out = append(out, strings.TrimSpace(s[last:i]))
				last = i + 1
			}
		}
	}
	if r := strings.TrimSpace(s[last:]); r != "" {
		out = append(out, r)
	}
	return out
}

func parseDecls(s string) ([]declVar, error) {
	var out []declVar
	for _, p := range splitTop(s, ',') {
		j := strings.IndexAny(p, " \t")
		if j < 0 {
			return nil, fmt.Errorf("bad declaration %q", p)
		}
		out = append(out, declVar{p[:j], strings.TrimSpace(p[j:])})
	}
	return out, nil
}

// parseSpec handles A ==> B and A <==> B on top of Go expressions.
func parseSpec(s string) (ast.Expr, error) {
	return parser.ParseExpr(preproc(s))
}

func preproc(s string) string {
	// split at top level into comma parts, then implications
	parts := splitTop(s, ',')
	for i, p := range parts {
		parts[i] = preImp(p)
	}
	return strings.Join(parts, ", ")
}

func findTop(s, op string) int {
	d := 0
	inStr := byte(0)
	for i := 0; i < len(s); i++ {
		c := s[i]
		if inStr != 0 {
			if c == '\\' {
				i++
			} else if c == inStr {
				inStr = 0
			}
			continue
		}
		switch c {
		case '"', '\'', '`':
			inStr = c
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
		}
		if d == 0 && strings.HasPrefix(s[i:], op) {
			if op == "==>" && i > 0 && s[i-1] == '<' {
				continue
			}
			return i
		}
	}
	return -1
}

func preImp(s string) string {
	if i := findTop(s, "<==>"); i >= 0 {
		return "iff(" + preImp(s[:i]) + ", " + preImp(s[i+4:]) + ")"
	}
	if i := findTop(s, "==>"); i >= 0 {
		return "imp(" + preImp(s[:i]) + ", " + preImp(s[i+3:]) + ")"
	}
	// recurse in groups
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch c {
		case '"', '\'', '`':
			j := i + 1
			for j < len(s) && s[j] != c {
				if s[j] == '\\' {
					j++
				}
				j++
			}
			b.WriteString(s[i:min(j+1, len(s))])
			i = j
		case '(', '[', '{':
			j := matchParen(s, i)
			if j < 0 {
				b.WriteString(s[i:])
				return b.String()
			}
			b.WriteByte(c)
			b.WriteString(preproc(s[i+1 : j]))
			b.WriteByte(s[j])
			i = j
		default:
			b.WriteByte(c)
		}
	}
	return b.String()
}

// ---- evaluation ----

// SV is a specification value.
type SV struct {
	t   *Term
	typ types.Type
}

type specCtx struct {
	x    *Exec
	st   *State
	old  *State
	pre  *specCtx
	vars map[string]SV
	pkg  *types.Package
	it   *Term
	iter *iter
	depth int
	noWF bool
	oldVars map[string]SV
	cells   map[string]SV // captured variables
}

type specErr struct{ msg string }

func (c *specCtx) fail(f string, a ...interface{}) {
	panic(specErr{fmt.Sprintf(f, a...)})
}

// carry adds to the current state the typing facts noted while an earlier state was read.
func (c *specCtx) carry(old *State, from *PC) {
	if c.st == nil {
		return
	}
	n0 := 0
	if from != nil {
		n0 = from.n
	}
	var ts []*Term
	for p := old.pc; p != nil && p.n > n0; p = p.up {
		ts = append(ts, p.t)
	}
	for i := len(ts) - 1; i >= 0; i-- {
		c.st.assume(ts[i])
	}
}

func (c *specCtx) with(vars map[string]SV) *specCtx {
	n := *c
	n.vars = map[string]SV{}
	for k, v := range c.vars {
		n.vars[k] = v
	}
	for k, v := range vars {
		n.vars[k] = v
	}
	return &n
}

var tInt = types.Typ[types.Int]
var tBool = types.Typ[types.Bool]
var tString = types.Typ[types.String]

// resolveType gives the Go type (possibly nil) and the sort of a type expression.
func (x *Exec) resolveType(pkg *types.Package, s string) (types.Type, Sort) {
	s = strings.TrimSpace(s)
	if d, ok := x.w.sp.sorts[s]; ok {
		return x.resolveType(pkg, d)
	}
	switch {
	case s == "bytes" || s == "str":
		return tString, SStr
	case s == "ref":
		return nil, SInt
	case strings.HasPrefix(s, "arr("): // contents of a slice
		et, es := x.resolveType(pkg, s[4:len(s)-1])
		if seqBytes && et != nil && isByte(et) {
			return nil, SStr
		}
		return nil, SArr(SInt, es)
	case strings.HasPrefix(s, "fun("): // total function
		ps := splitTop(s[4:len(s)-1], ',')
		_, ks := x.resolveType(pkg, ps[0])
		_, vs := x.resolveType(pkg, ps[1])
		return nil, SArr(ks, vs)
	case strings.HasPrefix(s, "mapval("):
		ps := splitTop(s[7:len(s)-1], ',')
		_, ks := x.resolveType(pkg, ps[0])
		_, vs := x.resolveType(pkg, ps[1])
		return nil, mapDTsorts(ks, vs).sort
	}
	tv, err := types.Eval(x.w.prog.Fset, pkg, token.NoPos, s)
	if err != nil {
		// qualified by another package of the program
		if j := strings.LastIndex(s, "."); j >= 0 {
			pre := strings.TrimLeft(s[:j], "*[]")
			if p := x.w.pkgByShort(pre); p != nil {
				if o := p.Scope().Lookup(s[j+1:]); o != nil {
					t := o.Type()
					rest := s[:j-len(pre)]
					for strings.HasSuffix(rest, "*") || strings.HasSuffix(rest, "[]") {
						if strings.HasSuffix(rest, "*") {
							t = types.NewPointer(t)
							rest = rest[:len(rest)-1]
						} else {
							t = types.NewSlice(t)
							rest = rest[:len(rest)-2]
						}
					}
					return t, sortOf(t)
				}
			}
		}
		panic(specErr{"type " + s + ": " + err.Error()})
	}
	return tv.Type, sortOf(tv.Type)
}

func (c *specCtx) boolean(e ast.Expr) *Term {
	v := c.eval(e)
	if v.t.sort != SBool {
		c.fail("boolean expected: %s", exprStr(e))
	}
	return v.t
}

func (c *specCtx) integer(e ast.Expr) *Term {
	v := c.eval(e)
	if v.t.sort != SInt {
		c.fail("integer expected: %s", exprStr(e))
	}
	return v.t
}

func exprStr(e ast.Expr) string { return types.ExprString(e) }

func (c *specCtx) load(ref *Term, t types.Type, path []pstep, typ types.Type) SV {
	a := &Addr{key: cellKey(t), ref: ref, path: path, typ: typ}
	v := walk(c.x.rootVal(c.st, a), path)
	if !c.noWF && c.st != nil && typ != nil {
		c.x.assumeWF(c.st, v, typ)
	}
	return SV{v, typ}
}

func (c *specCtx) eval(e ast.Expr) SV {
	switch n := e.(type) {
	case *ast.ParenExpr:
		return c.eval(n.X)
	case *ast.BasicLit:
		switch n.Kind {
		case token.INT:
			i, ok := new(big.Int).SetString(n.Value, 0)
			if !ok {
				c.fail("literal %s", n.Value)
			}
			return SV{BigInt(i), tInt}
		case token.STRING:
			s, err := strconv.Unquote(n.Value)
			if err != nil {
				c.fail("literal %s", n.Value)
			}
			return SV{StrLit(s), tString}
		case token.CHAR:
			r, _, _, err := strconv.UnquoteChar(n.Value[1:len(n.Value)-1], '\'')
			if err != nil {
				c.fail("literal %s", n.Value)
			}
			return SV{Int(int64(r)), tInt}
		}
	case *ast.Ident:
		return c.ident(n.Name)
	case *ast.SelectorExpr:
		return c.selector(n)
	case *ast.StarExpr:
		v := c.eval(n.X)
		p, ok := v.typ.Underlying().(*types.Pointer)
		if !ok {
			c.fail("dereference of %s", v.typ)
		}
		return c.load(v.t, p.Elem(), nil, p.Elem())
	case *ast.UnaryExpr:
		switch n.Op {
		case token.NOT:
			return SV{Not(c.boolean(n.X)), tBool}
		case token.SUB:
			return SV{Neg(c.integer(n.X)), tInt}
		}
	case *ast.BinaryExpr:
		return c.binary(n)
	case *ast.IndexExpr:
		return c.index(n)
	case *ast.SliceExpr:
		v := c.eval(n.X)
		var lo, hi *Term
		if n.Low != nil {
			lo = c.integer(n.Low)
		} else {
			lo = Int(0)
		}
		if v.t.sort == SStr {
			if n.High != nil {
				hi = c.integer(n.High)
			} else {
				hi = StrLen(v.t)
			}
			return SV{StrSub(v.t, lo, hi), tString}
		}
		if v.t.sort == SSlice {
			if n.High != nil {
				hi = c.integer(n.High)
			} else {
				hi = SlLen(v.t)
			}
			return SV{dSlice.mk(SlArr(v.t), Add(SlOff(v.t), lo), Sub(hi, lo), Sub(SlCap(v.t), lo)), v.typ}
		}
	case *ast.CallExpr:
		return c.call(n)
	}
	c.fail("unsupported expression %s", exprStr(e))
	return SV{}
}

func (c *specCtx) ident(n string) SV {
	switch n {
	case "true":
		return SV{True, tBool}
	case "false":
		return SV{False, tBool}
	case "nil":
		return SV{nil, nil}
	case "it":
		if c.it != nil {
			return SV{c.it, tInt}
		}
	}
	if v, ok := c.vars[n]; ok {
		return v
	}
	if v, ok := c.cells[n]; ok {
		// a captured variable: its value in the state at hand
		return c.load(v.t, v.typ, nil, v.typ)
	}
	if s, ok := c.x.w.sp.ghosts[n]; ok {
		t, so := c.x.resolveType(c.pkg, s)
		return SV{c.st.heap(ghostKey(n, so)), t}
	}
	if v, ok := c.x.specGlobal(c.pkg, n, c.st); ok {
		return v
	}
	c.fail("unknown name %s", n)
	return SV{}
}

func (x *Exec) specGlobal(pkg *types.Package, n string, st *State) (SV, bool) {
	if pkg == nil {
		return SV{}, false
	}
	switch o := pkg.Scope().Lookup(n).(type) {
	case *types.Const:
		switch o.Val().Kind() {
		case constant.Int:
			i, _ := new(big.Int).SetString(o.Val().ExactString(), 10)
			return SV{BigInt(i), o.Type()}, true
		case constant.String:
			return SV{StrLit(constant.StringVal(o.Val())), o.Type()}, true
		case constant.Bool:
			return SV{Bool(constant.BoolVal(o.Val())), o.Type()}, true
		}
	case *types.Var:
		sp := x.prog.Package(pkg)
		if sp == nil {
			return SV{}, false
		}
		if g, ok := sp.Members[n].(*ssa.Global); ok {
			v := hsel(st.heap(cellKey(o.Type())), globalRef(g))
			x.assumeWF(st, v, o.Type())
			return SV{v, o.Type()}, true
		}
	}
	return SV{}, false
}

func (c *specCtx) selector(n *ast.SelectorExpr) SV {
	if id, ok := n.X.(*ast.Ident); ok {
		if _, isVar := c.vars[id.Name]; !isVar {
			if p := c.x.w.pkgByShort(id.Name); p != nil {
				if v, ok := c.x.specGlobal(p, n.Sel.Name, c.st); ok {
					return v
				}
				c.fail("unknown %s.%s", id.Name, n.Sel.Name)
			}
		}
	}
	v := c.eval(n.X)
	t := v.typ
	if t == nil {
		// a datatype value without Go type
		if d, ok := dtOfSort[v.t.sort]; ok {
			if st, ok := structType[v.t.sort]; ok {
				for i := 0; i < st.NumFields(); i++ {
					if st.Field(i).Name() == n.Sel.Name {
						return SV{d.get(v.t, i), st.Field(i).Type()}
					}
				}
			}
		}
		c.fail("selector on untyped value %s", exprStr(n))
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		i, ft := findField(p.Elem(), n.Sel.Name)
		if i == nil {
			c.fail("no field %s in %s", n.Sel.Name, p.Elem())
		}
		var path []pstep
		bt := p.Elem()
		ref := v.t
		// embedded pointers along the path
		for k, fi := range i {
			path = append(path, pstep{st: bt, field: fi})
			ft2 := bt.Underlying().(*types.Struct).Field(fi).Type()
			if k < len(i)-1 {
				if pp, ok := ft2.Underlying().(*types.Pointer); ok {
					r := c.load(ref, p.Elem(), path, ft2)
					ref = r.t
					p = pp
					path = nil
					ft2 = pp.Elem()
				}
			}
			bt = ft2
		}
		return c.load(ref, p.Elem(), path, ft)
	}
	if _, ok := t.Underlying().(*types.Struct); ok {
		i, ft := findField(t, n.Sel.Name)
		if i == nil {
			c.fail("no field %s in %s", n.Sel.Name, t)
		}
		tt := v.t
		bt := t
		for k, fi := range i {
			tt = structDT(bt).get(tt, fi)
			bt = bt.Underlying().(*types.Struct).Field(fi).Type()
			if pp, ok := bt.Underlying().(*types.Pointer); ok && k < len(i)-1 {
				tt = c.load(tt, pp.Elem(), nil, pp.Elem()).t
				bt = pp.Elem()
			}
		}
		return SV{tt, ft}
	}
	c.fail("selector %s on %s", n.Sel.Name, t)
	return SV{}
}

func findField(t types.Type, name string) ([]int, types.Type) {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil, nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return []int{i}, st.Field(i).Type()
		}
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Embedded() {
			ft := st.Field(i).Type()
			if p, ok := ft.Underlying().(*types.Pointer); ok {
				ft = p.Elem()
			}
			if ix, t2 := findField(ft, name); ix != nil {
				return append([]int{i}, ix...), t2
			}
		}
	}
	return nil, nil
}

func (c *specCtx) binary(n *ast.BinaryExpr) SV {
	switch n.Op {
	case token.LAND:
		return SV{And(c.boolean(n.X), c.boolean(n.Y)), tBool}
	case token.LOR:
		return SV{Or(c.boolean(n.X), c.boolean(n.Y)), tBool}
	case token.EQL, token.NEQ:
		a, b := c.eval(n.X), c.eval(n.Y)
		r := c.equal(a, b)
		if n.Op == token.NEQ {
			r = Not(r)
		}
		return SV{r, tBool}
	}
	a, b := c.eval(n.X), c.eval(n.Y)
	if a.t == nil || b.t == nil {
		c.fail("nil in %s", exprStr(n))
	}
	if a.t.sort == SStr && n.Op == token.ADD {
		return SV{StrConcat(a.t, b.t), tString}
	}
	if a.t.sort == SStr && n.Op == token.LSS {
		return SV{UF("str_lt", SBool, a.t, b.t), tBool}
	}
	if a.t.sort != SInt || b.t.sort != SInt {
		c.fail("integers expected in %s", exprStr(n))
	}
	switch n.Op {
	case token.LSS:
		return SV{Lt(a.t, b.t), tBool}
	case token.LEQ:
		return SV{Le(a.t, b.t), tBool}
	case token.GTR:
		return SV{Lt(b.t, a.t), tBool}
	case token.GEQ:
		return SV{Le(b.t, a.t), tBool}
	case token.ADD:
		return SV{Add(a.t, b.t), tInt}
	case token.SUB:
		return SV{Sub(a.t, b.t), tInt}
	case token.MUL:
		return SV{Mul(a.t, b.t), tInt}
	case token.QUO:
		return SV{DivE(a.t, b.t), tInt}
	case token.REM:
		return SV{ModE(a.t, b.t), tInt}
	}
	c.fail("operator %s", n.Op)
	return SV{}
}

func (c *specCtx) equal(a, b SV) *Term {
	if a.t == nil {
		a, b = b, a
	}
	if a.t == nil {
		return True
	}
	if b.t == nil { // nil
		if a.t.sort == SSlice {
			return Eq(SlArr(a.t), Int(0))
		}
		return Eq(a.t, Int(0))
	}
	if a.t.sort != b.t.sort {
		c.fail("comparison of sorts %s and %s", a.t.sort, b.t.sort)
	}
	return Eq(a.t, b.t)
}

func (c *specCtx) index(n *ast.IndexExpr) SV {
	v := c.eval(n.X)
	k := c.eval(n.Index)
	return c.indexSV(v, k)
}

func (c *specCtx) indexSV(v, k SV) SV {
	if v.typ != nil {
		switch u := v.typ.Underlying().(type) {
		case *types.Slice:
			h := hsel(c.st.heap(elemKey(u.Elem())), SlArr(v.t))
			if h.sort == SStr {
				return SV{StrAt(h, Add(SlOff(v.t), k.t)), u.Elem()}
			}
			r := Select(h, Add(SlOff(v.t), k.t))
			if !c.noWF {
				c.x.assumeWF(c.st, r, u.Elem())
			}
			return SV{r, u.Elem()}
		case *types.Map:
			ct := c.x.mapContent(c.st, v.t, u)
			r := mapGet(mapDT(u), ct, k.t)
			if !c.noWF {
				c.x.assumeWF(c.st, r, u.Elem())
			}
			return SV{r, u.Elem()}
		case *types.Array:
			if v.t.sort == SStr {
				return SV{StrAt(v.t, k.t), u.Elem()}
			}
			return SV{Select(v.t, k.t), u.Elem()}
		}
	}
	if v.t.sort == SStr {
		return SV{StrAt(v.t, k.t), types.Typ[types.Byte]}
	}
	if strings.HasPrefix(string(v.t.sort), "(Array ") {
		r := Select(v.t, k.t)
		return SV{r, c.x.typeOfSort(r.sort)}
	}
	if d, ok := dtOfSort[v.t.sort]; ok && strings.HasPrefix(string(d.sort), "M_") {
		r := mapGet(d, v.t, k.t)
		return SV{r, c.x.typeOfSort(r.sort)}
	}
	c.fail("index of sort %s", v.t.sort)
	return SV{}
}

// typeOfSort: Go types for spec values where the sort determines enough.
func (x *Exec) typeOfSort(s Sort) types.Type {
	switch s {
	case SStr:
		return tString
	case SBool:
		return tBool
	}
	if t, ok := x.w.sortType[s]; ok {
		return t
	}
	return nil
}

func (c *specCtx) quant(n *ast.CallExpr, all bool) SV {
	vars := map[string]SV{}
	var bs []*Term
	args := n.Args
	var pats [][]ast.Expr
	for len(args) > 0 {
		if ce, ok := args[len(args)-1].(*ast.CallExpr); ok {
			if id, ok := ce.Fun.(*ast.Ident); ok && id.Name == "trig" {
				pats = append(pats, ce.Args)
				args = args[:len(args)-1]
				continue
			}
		}
		break
	}
	body := args[len(args)-1]
	args = args[:len(args)-1]
	if len(args)%2 != 0 {
		c.fail("quantifier %s", exprStr(n))
	}
	for i := 0; i+1 < len(args); i += 2 {
		id, ok := args[i].(*ast.Ident)
		if !ok {
			c.fail("quantified variable %s", exprStr(args[i]))
		}
		t, s := c.x.resolveType(c.pkg, exprStr(args[i+1]))
		b := NewBound(id.Name, s)
		bs = append(bs, b)
		vars[id.Name] = SV{b, t}
	}
	c2 := c.with(vars)
	b := c2.boolean(body)
	var ps [][]*Term
	for _, p := range pats {
		var ts []*Term
		for _, e := range p {
			t := c2.eval(e).t
			if goodPat(t) {
				ts = append(ts, t)
			}
		}
		if len(ts) > 0 {
			ps = append(ps, ts)
		}
	}
	if all {
		return SV{Forall(bs, b, ps...), tBool}
	}
	return SV{Exists(bs, b, ps...), tBool}
}

func (c *specCtx) call(n *ast.CallExpr) SV {
	name := ""
	switch f := n.Fun.(type) {
	case *ast.Ident:
		name = f.Name
	case *ast.SelectorExpr:
		name = exprStr(f)
	default:
		c.fail("call %s", exprStr(n))
	}
	arg := func(i int) SV { return c.eval(n.Args[i]) }
	need := func(k int) {
		if len(n.Args) != k {
			c.fail("%s takes %d arguments", name, k)
		}
	}
	switch name {
	case "imp":
		a := c.boolean(n.Args[0])
		if a == False {
			return SV{True, tBool}
		}
		return SV{Imp(a, c.boolean(n.Args[1])), tBool}
	case "iff":
		return SV{Eq(c.boolean(n.Args[0]), c.boolean(n.Args[1])), tBool}
	case "ite":
		need(3)
		b, d := arg(1), arg(2)
		t := b.typ
		if t == nil {
			t = d.typ
		}
		if b.t == nil {
			b.t = zeroSort(d.t.sort)
		}
		if d.t == nil {
			d.t = zeroSort(b.t.sort)
		}
		return SV{Ite(c.boolean(n.Args[0]), b.t, d.t), t}
	case "forall":
		return c.quant(n, true)
	case "exists":
		return c.quant(n, false)
	case "old":
		if c.old == nil {
			c.fail("old() without an entry state")
		}
		c2 := *c
		c2.st = c.old.clone()
		defer c.carry(c2.st, c2.st.pc)
		if c.oldVars != nil {
			c2.vars = map[string]SV{}
			for k, v := range c.vars {
				c2.vars[k] = v
			}
			for k, v := range c.oldVars {
				c2.vars[k] = v
			}
		}
		return c2.eval(n.Args[0])
	case "pre":
		if c.pre == nil {
			c.fail("pre() outside a loop invariant")
		}
		c2 := *c.pre
		c2.st = c.pre.st.clone()
		defer c.carry(c2.st, c2.st.pc)
		c2.vars = map[string]SV{}
		for k, v := range c.vars {
			c2.vars[k] = v
		}
		for k, v := range c.pre.vars {
			c2.vars[k] = v
		}
		return c2.eval(n.Args[0])
	case "len":
		v := arg(0)
		switch {
		case v.t.sort == SSlice:
			return SV{SlLen(v.t), tInt}
		case v.t.sort == SStr:
			return SV{StrLen(v.t), tInt}
		}
		if v.typ != nil {
			if m, ok := v.typ.Underlying().(*types.Map); ok {
				return SV{mapDT(m).get(c.x.mapContent(c.st, v.t, m), 2), tInt}
			}
			if a, ok := v.typ.Underlying().(*types.Array); ok {
				return SV{Int(a.Len()), tInt}
			}
		}
		if d, ok := dtOfSort[v.t.sort]; ok && strings.HasPrefix(string(d.sort), "M_") {
			return SV{d.get(v.t, 2), tInt}
		}
		c.fail("len of %s", v.t.sort)
	case "cap":
		return SV{SlCap(arg(0).t), tInt}
	case "arrof":
		return SV{SlArr(arg(0).t), nil}
	case "off":
		return SV{SlOff(arg(0).t), tInt}
	case "elems": // contents of the backing array
		v := arg(0)
		et := v.typ.Underlying().(*types.Slice).Elem()
		return SV{hsel(c.st.heap(elemKey(et)), SlArr(v.t)), nil}
	case "bytes": // contents of a byte slice
		v := arg(0)
		if v.t.sort == SStr {
			return SV{v.t, tString}
		}
		et := v.typ.Underlying().(*types.Slice).Elem()
		if !seqBytes {
			h := hsel(c.st.heap(elemKey(et)), SlArr(v.t))
			return SV{UF("bytesstr", SStr, h, SlOff(v.t), SlLen(v.t)), tString}
		}
		return SV{c.x.bytesOf(c.st, v.t, et), tString}
	case "backing": // whole backing array contents of a byte slice
		v := arg(0)
		et := v.typ.Underlying().(*types.Slice).Elem()
		return SV{hsel(c.st.heap(elemKey(et)), SlArr(v.t)), tString}
	case "has":
		v, k := arg(0), arg(1)
		if v.typ != nil {
			if m, ok := v.typ.Underlying().(*types.Map); ok {
				return SV{mapHas(mapDT(m), c.x.mapContent(c.st, v.t, m), k.t), tBool}
			}
		}
		if d, ok := dtOfSort[v.t.sort]; ok && strings.HasPrefix(string(d.sort), "M_") {
			return SV{mapHas(d, v.t, k.t), tBool}
		}
		c.fail("has on %s", v.t.sort)
	case "content": // contents of a map reference
		v := arg(0)
		m, ok := v.typ.Underlying().(*types.Map)
		if !ok {
			c.fail("content of %s", v.typ)
		}
		return SV{c.x.mapContent(c.st, v.t, m), nil}
	case "deep": // a map of maps with the contents of the inner maps in place of their references
		v := arg(0)
		m, ok := v.typ.Underlying().(*types.Map)
		if !ok {
			c.fail("deep of %s", v.typ)
		}
		in, ok := m.Elem().Underlying().(*types.Map)
		if !ok {
			c.fail("deep of %s", v.typ)
		}
		return SV{deepMap(mapDT(m), mapDT(in), c.x.mapContent(c.st, v.t, m), c.st.heap(mapKey(in))), nil}
	case "put":
		v, k, e := arg(0), arg(1), arg(2)
		d := dtOfSort[v.t.sort]
		if d == nil {
			return SV{Store(v.t, k.t, e.t), v.typ}
		}
		return SV{mapPut(d, v.t, k.t, e.t), v.typ}
	case "del":
		v, k := arg(0), arg(1)
		return SV{mapDel(dtOfSort[v.t.sort], v.t, k.t), v.typ}
	case "emptymap":
		_, s := c.x.resolveType(c.pkg, exprStr(n.Args[0]))
		return SV{emptyMap(dtOfSort[s]), nil}
	case "zero":
		t, s := c.x.resolveType(c.pkg, exprStr(n.Args[0]))
		if t != nil {
			return SV{zeroOf(t), t}
		}
		return SV{zeroSort(s), nil}
	case "seen":
		if c.iter == nil || c.iter.isStr {
			c.fail("seen() outside a map range")
		}
		return SV{Select(c.st.heap(c.iter.key), arg(0).t), tBool}
	case "rangemap":
		if c.iter == nil || c.iter.isStr {
			c.fail("rangemap outside a map range")
		}
		return SV{c.iter.cont0, nil}
	case "rangestr":
		if c.iter == nil || !c.iter.isStr {
			c.fail("rangestr outside a string range")
		}
		return SV{c.iter.str, tString}
	case "strpos":
		if c.iter == nil || !c.iter.isStr {
			c.fail("strpos outside a string range")
		}
		return SV{c.st.heap(c.iter.key), tInt}
	case "outerpos": // of the character the enclosing iteration is at
		if c.iter == nil || !c.iter.isStr || c.iter.outer == nil {
			c.fail("outerpos outside nested string ranges")
		}
		return SV{c.st.heap(c.iter.outer.last), tInt}
	case "outerstr":
		if c.iter == nil || !c.iter.isStr || c.iter.outer == nil {
			c.fail("outerstr outside nested string ranges")
		}
		return SV{c.iter.outer.str, tString}
	case "fresh": // allocated since entry
		v := arg(0)
		t := v.t
		if t.sort == SSlice {
			t = SlArr(t)
		}
		return SV{Le(c.old.allocNow(), t), tBool}
	case "freshornil":
		v := arg(0)
		t := v.t
		if t.sort == SSlice {
			t = SlArr(t)
		}
		return SV{Or(Eq(t, Int(0)), Le(c.old.allocNow(), t)), tBool}
	case "allocated":
		v := arg(0)
		t := v.t
		if t.sort == SSlice {
			t = SlArr(t)
		}
		return SV{Lt(t, c.st.allocNow()), tBool}
	case "ref": // reference identity as an integer
		v := arg(0)
		if v.t.sort == SSlice {
			return SV{SlArr(v.t), nil}
		}
		return SV{v.t, nil}
	case "abs":
		a := c.integer(n.Args[0])
		return SV{Ite(Le(Int(0), a), a, Neg(a)), tInt}
	case "rep":
		return SV{RepStr(arg(0).t, arg(1).t), tString}
	case "unit1":
		return SV{StrUnit(arg(0).t), tString}
	case "cat":
		var ts []*Term
		for i := range n.Args {
			ts = append(ts, arg(i).t)
		}
		return SV{StrConcat(ts...), tString}
	case "mkslice":
		return SV{dSlice.mk(arg(0).t, arg(1).t, arg(2).t, arg(3).t), nil}
	case "boxed": // boxed(T, v): interface value holding v
		t, _ := c.x.resolveType(c.pkg, exprStr(n.Args[0]))
		return SV{c.x.box(c.st, arg(1).t, t), nil}
	case "unbox":
		t, s := c.x.resolveType(c.pkg, exprStr(n.Args[0]))
		return SV{UF("unbox$"+sanitize(shortType(t)), s, arg(1).t), t}
	case "istype":
		t, _ := c.x.resolveType(c.pkg, exprStr(n.Args[0]))
		v := arg(1).t
		return SV{And(Not(Eq(v, Int(0))), Eq(UF("itag", SInt, v), typeTag(t))), tBool}
	case "is": // errors of a concrete type
	}
	if f, ok := c.x.w.sp.fns[name]; ok {
		return c.applyFn(f, n)
	}
	// a Go function with a pure contract, or a conversion
	if len(n.Args) == 1 {
		if tv, err := types.Eval(c.x.w.prog.Fset, c.pkg, token.NoPos, name); err == nil && tv.IsType() {
			v := arg(0)
			if v.t.sort == sortOf(tv.Type) {
				return SV{v.t, tv.Type}
			}
		}
	}
	c.fail("unknown function %s", name)
	return SV{}
}

func (c *specCtx) applyFn(f *specFn, n *ast.CallExpr) SV {
	if len(n.Args) != len(f.params) {
		c.fail("%s takes %d arguments", f.name, len(f.params))
	}
	vars := map[string]SV{}
	var ts []*Term
	for i, p := range f.params {
		v := c.eval(n.Args[i])
		t, s := c.x.resolveType(f.pkg, p.typ)
		if v.t == nil {
			v.t = zeroSort(s)
		}
		if v.t.sort != s {
			c.fail("argument %s of %s: sort %s, want %s", p.name, f.name, v.t.sort, s)
		}
		if t == nil {
			t = v.typ
		}
		vars[p.name] = SV{v.t, t}
		ts = append(ts, v.t)
	}
	rt, rs := c.x.resolveType(f.pkg, f.ret)
	if f.rec || f.uf {
		if f.rec {
			c.x.declRec(f)
		}
		t := UF(f.name, rs, ts...)
		return SV{t, rt}
	}
	if c.depth > 60 {
		c.fail("definition %s too deep", f.name)
	}
	c2 := *c
	c2.depth++
	c2.vars = vars
	if f.pkg != nil {
		c2.pkg = f.pkg
	}
	v := c2.eval(f.body)
	if v.t == nil {
		v.t = zeroSort(rs)
	}
	if v.t.sort != rs {
		c.fail("%s returns sort %s, declared %s", f.name, v.t.sort, rs)
	}
	if rt != nil {
		v.typ = rt
	}
	return v
}

func (x *Exec) declRec(f *specFn) {
	if _, ok := recDefs[sanitize(f.name)]; ok {
		return
	}
	recDefs[sanitize(f.name)] = func(args []*Term) *Term {
		c := &specCtx{x: x, pkg: f.pkg, vars: map[string]SV{}, noWF: true, st: nil}
		for i, p := range f.params {
			t, _ := x.resolveType(f.pkg, p.typ)
			c.vars[p.name] = SV{args[i], t}
		}
		v := c.eval(f.body)
		if v.t == nil {
			_, rs := x.resolveType(f.pkg, f.ret)
			v.t = zeroSort(rs)
		}
		return v.t
	}
}
