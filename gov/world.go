package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type World struct {
	repo     string
	prog     *ssa.Program
	pkgs     []*packages.Package
	ssaPkgs  []*ssa.Package
	byShort  map[string]*types.Package
	sp       *Specs
	oblMs    int
	slow     int
	candMs   int
	hints    map[string]map[string]bool // per unit: the loop invariants to try
	feasMs   int
	sortType map[Sort]types.Type
	fns      map[string]*ssa.Function
	loadTime time.Duration
}

func loadWorld(repo string) (*World, error) {
	t0 := time.Now()
	w := &World{repo: repo, byShort: map[string]*types.Package{}, oblMs: 10000, candMs: 3000, feasMs: 200, sortType: map[Sort]types.Type{}, fns: map[string]*ssa.Function{}}
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:  repo,
		Env:  append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off"),
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("%s: %v", p.PkgPath, e)
		}
	}
	w.pkgs = pkgs
	prog, sps := ssautil.Packages(pkgs, ssa.GlobalDebug)
	w.prog = prog
	for _, s := range sps {
		if s != nil {
			s.Build()
			w.ssaPkgs = append(w.ssaPkgs, s)
		}
	}
	add := func(p *types.Package) {
		n := p.Name()
		if o, ok := w.byShort[n]; !ok || w.isRepo(p) && !w.isRepo(o) || !strings.Contains(p.Path(), "/internal/") && strings.Contains(o.Path(), "/internal/") {
			w.byShort[n] = p
		}
	}
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if p.Types != nil && p.Types.Name() != "" {
			add(p.Types)
		}
	})
	for fn := range ssautil.AllFunctions(prog) {
		w.fns[fn.String()] = fn
	}
	w.loadTime = time.Since(t0)
	return w, nil
}

func (w *World) isRepo(p *types.Package) bool {
	return p != nil && (p.Path() == modPath || strings.HasPrefix(p.Path(), modPath+"/"))
}

func (w *World) pkgByShort(n string) *types.Package { return w.byShort[n] }

// modTarget evaluates the target of a modifies clause.
func (x *Exec) modTarget(c *specCtx, m *Clause) (string, *Term) {
	switch e := m.ex.(type) {
	case *ast.StarExpr:
		v := c.eval(e.X)
		p, ok := v.typ.Underlying().(*types.Pointer)
		if !ok {
			c.fail("modifies %s: not a pointer", m.src)
		}
		return cellKey(p.Elem()), v.t
	case *ast.Ident:
		if v, ok := c.cells[e.Name]; ok {
			return cellKey(v.typ), v.t
		}
		if s, ok := x.w.sp.ghosts[e.Name]; ok {
			_, so := x.resolveType(c.pkg, s)
			return ghostKey(e.Name, so), nil
		}
		// global variable
		if o, ok := c.pkg.Scope().Lookup(e.Name).(*types.Var); ok {
			if g, ok := x.prog.Package(c.pkg).Members[e.Name].(*ssa.Global); ok {
				return cellKey(o.Type()), globalRef(g)
			}
		}
	case *ast.CallExpr:
		switch exprStr(e.Fun) {
		case "elems":
			v := c.eval(e.Args[0])
			return elemKey(v.typ.Underlying().(*types.Slice).Elem()), SlArr(v.t)
		case "content":
			v := c.eval(e.Args[0])
			return mapKey(v.typ.Underlying().(*types.Map)), v.t
		case "anymap":
			t, _ := x.resolveType(c.pkg, exprStr(e.Args[0]))
			return mapKey(t.Underlying().(*types.Map)), nil
		case "anycell":
			t, _ := x.resolveType(c.pkg, exprStr(e.Args[0]))
			return cellKey(t), nil
		case "anyelems":
			t, _ := x.resolveType(c.pkg, exprStr(e.Args[0]))
			return elemKey(t), nil
		}
	}
	c.fail("modifies target %s", m.src)
	return "", nil
}

// panicCond: the condition under which the unit may panic, at entry.
func (x *Exec) panicCond() *Term {
	c := x.unitCtx(x.entry)
	g := False
	for _, p := range x.unit.panics {
		g = Or(g, c.boolean(p.ex))
	}
	return g
}

var entryArgs, entryCells []Val

func (x *Exec) unitCtx(st *State) *specCtx {
	u := x.unit
	x.ctx(st)
	c := &specCtx{x: x, st: st, old: x.entry, pkg: u.pkg, vars: map[string]SV{}}
	x.bindParams(c, u, u.fn, u.fn.Signature, nil, entryArgs)
	bindCells(c, u.fn, entryCells)
	return c
}

// userCands instantiates the declared invariants.
func (x *Exec) userCands(fr *Frame, lp *loop, entry *view, w *writeSet, lvs []*lvar) []*cand {
	var cs []*cand
	invs := append([]*Clause(nil), x.unit.invs...)
	for _, s := range x.unit.uses {
		invs = append(invs, x.w.sp.invsets[s]...)
	}
	if len(invs) == 0 {
		return nil
	}
	it := x.loopIter(fr, lp)
	ext := x.extVars(fr, lp, entry)
	for _, inv := range invs {
		inv := inv
		if inv.in != "" && !strings.HasSuffix(lp.fn.String(), inv.in) {
			continue
		}
		// possible bindings
		var choices [][]*lvar
		total := 1
		for _, d := range inv.vars {
			var gt types.Type
			var so Sort
			okT := func() (ok bool) {
				defer func() {
					if r := recover(); r != nil {
						ok = false
					}
				}()
				gt, so = x.resolveType(x.unit.pkg, d.typ)
				return true
			}()
			if !okT {
				continue
			}
			var ch []*lvar
			for _, l := range lvs {
				l := l
				if sortOf(l.typ) != so || gt != nil && !types.Identical(l.typ.Underlying(), gt.Underlying()) {
					continue
				}
				ch = append(ch, l)
				if isInteger(l.typ) && so == SInt {
					ch = append(ch, &lvar{name: l.name + "+1", typ: l.typ, get: func(v *view) *Term { return Add(l.get(v), Int(1)) }, e: Add(l.e, Int(1))})
				}
			}
			if so == SInt && gt != nil && isInteger(gt) && types.Identical(gt, tInt) {
				ch = append(ch, &lvar{name: "it", typ: tInt, get: func(v *view) *Term { return v.it }, e: Int(0)})
				for _, l := range ext {
					if strings.TrimPrefix(l.name, "*") == d.name && isInteger(l.typ) {
						ch = append(ch, l)
					}
				}
			} else {
				for _, l := range ext {
					if sortOf(l.typ) == so && (gt == nil || types.Identical(l.typ.Underlying(), gt.Underlying())) {
						dup := false
						for _, c := range ch {
							if c.e == l.e && c.ext && l.ext {
								dup = true
							}
						}
						if !dup {
							ch = append(ch, l)
						}
					}
				}
			}
			// a variable of that name is the one that is meant
			var named []*lvar
			for _, l := range ch {
				if n := strings.TrimPrefix(strings.TrimSuffix(l.name, "+1"), "*"); n == d.name && !(inv.exact && strings.HasSuffix(l.name, "+1") && d.name != "rangeindex") {
					named = append(named, l)
				}
			}
			if len(named) > 0 {
				ch = named
			} else if inv.exact {
				ch = nil
			}
			choices = append(choices, ch)
			total *= len(ch)
		}
		if total == 0 || len(choices) < len(inv.vars) {
			continue
		}
		if total > 400 {
			x.safetyNote(fmt.Sprintf("invariant %s: %d bindings, only 400 tried", inv.loc, total))
			total = 400
		}
		idx := make([]int, len(choices))
		for n := 0; n < total; n++ {
			bind := make([]*lvar, len(choices))
			var nm []string
			for i := range choices {
				bind[i] = choices[i][idx[i]]
				nm = append(nm, inv.vars[i].name+"="+bind[i].name)
			}
			for i := range idx {
				idx[i]++
				if idx[i] < len(choices[i]) {
					break
				}
				idx[i] = 0
			}
			distinct := true
			for i := range bind {
				for j := range bind[:i] {
					if bind[i] == bind[j] {
						distinct = false
					}
				}
			}
			// the position of an iteration changes in the loop
			anyLoop := len(bind) == 0 || it != nil && strings.Contains(inv.src, "strpos()")
			for _, l := range bind {
				if !l.ext {
					anyLoop = true
				} else if _, isMap := l.typ.Underlying().(*types.Map); isMap {
					// its contents may change
					anyLoop = true
				}
			}
			if !distinct || !anyLoop {
				continue
			}
			f := func(v *view) *Term {
				c := x.unitCtx(v.st)
				c.it = v.it
				c.iter = it
				for i, d := range inv.vars {
					gt := bind[i].typ
					c.vars[d.name] = SV{bind[i].get(v), gt}
				}
				pc := x.unitCtx(entry.st)
				pc.it = Int(0)
				pc.iter = it
				for i, d := range inv.vars {
					pc.vars[d.name] = SV{bind[i].e, bind[i].typ}
				}
				c.pre = pc
				return c.boolean(inv.ex)
			}
			// does it evaluate here at all?
			ok := func() (ok bool) {
				defer func() {
					if r := recover(); r != nil {
						switch e := r.(type) {
						case specErr:
							if os.Getenv("GOV_SPEC") != "" {
								fmt.Fprintln(os.Stderr, "inv", inv.loc, "at", lp.id, e.msg)
							}
							ok = false
							return
						case Unsup:
							ok = false
							return
						}
						panic(r)
					}
				}()
				f(entry)
				return true
			}()
			if ok {
				cs = append(cs, &cand{name: "user:" + inv.loc + "[" + strings.Join(nm, ",") + "] " + inv.src, user: true, f: f})
			}
		}
	}
	return cs
}

// extVars: loop-invariant values of the current and enclosing frames by type, and
// cells captured by reference.
func (x *Exec) extVars(fr *Frame, lp *loop, entry *view) []*lvar {
	var out []*lvar
	var names []ssa.Value
	for v := range fr.env {
		names = append(names, v)
	}
	sort.Slice(names, func(i, j int) bool { return names[i].Name() < names[j].Name() })
	for _, v := range names {
		if inLoop(lp, v) {
			continue
		}
		switch a := fr.env[v].(type) {
		case *Term:
			if _, ok := v.Type().(*types.Tuple); ok {
				continue
			}
			nm := v.Name()
			if p, ok := v.(*ssa.Phi); ok {
				nm = phiName(p)
			}
			out = append(out, &lvar{name: nm, typ: v.Type(), get: func(*view) *Term { return a }, e: a, ext: true})
		case *Addr:
			a2 := a
			if a.idx == nil && len(a.path) == 0 {
				out = append(out, &lvar{name: v.Name(), typ: v.Type(), get: func(*view) *Term { return a2.ref }, e: a2.ref, ext: true})
			}
			pt, ok := v.Type().Underlying().(*types.Pointer)
			if !ok {
				continue
			}
			nm := v.Name()
			if al, isAlloc := v.(*ssa.Alloc); isAlloc && al.Comment != "" {
				nm = al.Comment
			}
			if _, isAlloc := v.(*ssa.Alloc); !isAlloc {
				if _, isFV := v.(*ssa.FreeVar); !isFV {
					continue
				}
			}
			get := func(w *view) *Term { return walk(x.rootVal(w.st, a2), a2.path) }
			out = append(out, &lvar{name: "*" + nm, typ: pt.Elem(), get: get, e: get(entry)})
		}
	}
	return out
}

var _ = token.NoPos

// bindCells names the captured variables of a function literal.
func bindCells(c *specCtx, fn *ssa.Function, binds []Val) {
	if fn == nil {
		return
	}
	for i, p := range fn.FreeVars {
		if i >= len(binds) {
			return
		}
		pt, ok := p.Type().Underlying().(*types.Pointer)
		if !ok {
			continue
		}
		if c.cells == nil {
			c.cells = map[string]SV{}
		}
		c.cells[p.Name()] = SV{asTerm(binds[i]), pt.Elem()}
	}
}
