package main

import (
	"fmt"
	"go/token"
	"go/types"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

type modelFn func(x *Exec, fr *Frame, st *State, args []Val, pos token.Pos, sig *types.Signature) Val

// strModel: a pure function of strings and integers.
func strModel(name string, facts func(x *Exec, st *State, a []*Term, r *Term)) modelFn {
	return func(x *Exec, fr *Frame, st *State, args []Val, pos token.Pos, sig *types.Signature) Val {
		var ts []*Term
		for _, a := range args {
			ts = append(ts, asTerm(a))
		}
		rt := sig.Results().At(0).Type()
		r := UF(name, sortOf(rt), ts...)
		x.assumeWF(st, r, rt)
		if facts != nil {
			facts(x, st, ts, r)
		}
		return r
	}
}

// newErr: a fresh non-nil error.
func newErr(x *Exec, fr *Frame, st *State, args []Val, pos token.Pos, sig *types.Signature) Val {
	r := st.alloc()
	st.assume(Eq(UF("itag", SInt, r), Int(-7)))
	return r
}

var models map[string]modelFn

func init() {
	models = map[string]modelFn{
		"fmt.Errorf": newErr,
		"errors.New": newErr,
		"fmt.Sprintf": func(x *Exec, fr *Frame, st *State, args []Val, pos token.Pos, sig *types.Signature) Val {
			return x.sprintf(st, args)
		},
		"strings.HasPrefix": strModel("HasPrefix", func(x *Exec, st *State, a []*Term, r *Term) {
			st.assume(Eq(r, And(Le(StrLen(a[1]), StrLen(a[0])), Eq(StrSub(a[0], Int(0), StrLen(a[1])), a[1]))))
		}),
		"strings.HasSuffix": strModel("HasSuffix", func(x *Exec, st *State, a []*Term, r *Term) {
			st.assume(Eq(r, And(Le(StrLen(a[1]), StrLen(a[0])), Eq(StrSub(a[0], Sub(StrLen(a[0]), StrLen(a[1])), StrLen(a[0])), a[1]))))
		}),
		"strings.Contains": strModel("Contains", func(x *Exec, st *State, a []*Term, r *Term) {
			st.assume(Imp(r, Le(StrLen(a[1]), StrLen(a[0]))))
		}),
		"strings.ContainsRune": strModel("ContainsRune", nil),
		"strings.ContainsAny":  strModel("ContainsAny", nil),
		"strings.EqualFold":    strModel("EqualFold", nil),
		"strings.ToLower":      strModel("ToLower", nil),
		"strings.ToUpper":      strModel("ToUpper", nil),
		"strings.TrimSpace": strModel("TrimSpace", func(x *Exec, st *State, a []*Term, r *Term) {
			st.assume(Le(StrLen(r), StrLen(a[0])))
		}),
		"strings.Index": strModel("strIndex", func(x *Exec, st *State, a []*Term, r *Term) {
			st.assume(And(Le(Int(-1), r), Or(Eq(r, Int(-1)), Le(Add(r, StrLen(a[1])), StrLen(a[0])))))
			st.assume(Imp(Le(Int(0), r), Eq(StrSub(a[0], r, Add(r, StrLen(a[1]))), a[1])))
		}),
		"strings.IndexByte": strModel("strIndexByte", func(x *Exec, st *State, a []*Term, r *Term) {
			st.assume(And(Le(Int(-1), r), Or(Eq(r, Int(-1)), Lt(r, StrLen(a[0])))))
			st.assume(Imp(Le(Int(0), r), Eq(StrAt(a[0], r), a[1])))
		}),
		"strings.IndexRune": strModel("strIndexRune", func(x *Exec, st *State, a []*Term, r *Term) {
			st.assume(And(Le(Int(-1), r), Or(Eq(r, Int(-1)), Lt(r, StrLen(a[0])))))
		}),
		"strings.LastIndex": strModel("strLastIndex", func(x *Exec, st *State, a []*Term, r *Term) {
			st.assume(And(Le(Int(-1), r), Or(Eq(r, Int(-1)), Le(Add(r, StrLen(a[1])), StrLen(a[0])))))
		}),
		"strings.Repeat": strModel("strRepeat", nil),
		"strings.Split": func(x *Exec, fr *Frame, st *State, args []Val, pos token.Pos, sig *types.Signature) Val {
			// at least one piece for a non-empty separator
			r := x.external(fr, "strings.Split", sig, args, st, pos).v.(*Term)
			st.assume(Imp(Lt(Int(0), StrLen(asTerm(args[1]))), Lt(Int(0), SlLen(r))))
			return r
		},
		"strings.SplitN": func(x *Exec, fr *Frame, st *State, args []Val, pos token.Pos, sig *types.Signature) Val {
			r := x.external(fr, "strings.SplitN", sig, args, st, pos).v.(*Term)
			n := asTerm(args[2])
			st.assume(Imp(And(Lt(Int(0), StrLen(asTerm(args[1]))), Lt(Int(0), n)), And(Lt(Int(0), SlLen(r)), Le(SlLen(r), n))))
			return r
		},
		"unicode.IsLower":      runeModel("IsLower", unicode.IsLower),
		"unicode.IsUpper":      runeModel("IsUpper", unicode.IsUpper),
		"unicode.IsDigit":      runeModel("IsDigit", unicode.IsDigit),
		"unicode.IsSpace":      runeModel("IsSpace", unicode.IsSpace),
		"unicode.IsLetter":     runeModel("IsLetter", unicode.IsLetter),
		"unicode.ToLower":      strModel("uToLower", nil),
		"unicode.ToUpper":      strModel("uToUpper", nil),
		"unicode/utf8.RuneLen": strModel("RuneLen", func(x *Exec, st *State, a []*Term, r *Term) { st.assume(And(Le(Int(-1), r), Le(r, Int(4)), Not(Eq(r, Int(0))))) }),
		"unicode/utf8.RuneCountInString": strModel("runecount", func(x *Exec, st *State, a []*Term, r *Term) {
			st.assume(And(Le(Int(0), r), Le(r, StrLen(a[0]))))
		}),
		"unicode/utf8.DecodeRuneInString": func(x *Exec, fr *Frame, st *State, args []Val, pos token.Pos, sig *types.Signature) Val {
			s := asTerm(args[0])
			r := UF("decR", SInt, s, Int(0))
			w := UF("decW", SInt, s, Int(0))
			rr := Ite(Eq(StrLen(s), Int(0)), Int(0xfffd), r)
			ww := Ite(Eq(StrLen(s), Int(0)), Int(0), w)
			st.assume(And(Le(Int(0), r), Le(r, Int(0x10ffff)), Le(Int(1), w), Le(w, Int(4)), Imp(Lt(Int(0), StrLen(s)), Le(w, StrLen(s)))))
			return Tuple{rr, ww}
		},
		"strconv.Itoa": strModel("itoa", func(x *Exec, st *State, a []*Term, r *Term) {
			st.assume(And(Le(Int(1), StrLen(r)), Le(StrLen(r), Int(20))))
		}),
		// encoding/json reads its argument only
		"encoding/json.Marshal": func(x *Exec, fr *Frame, st *State, args []Val, pos token.Pos, sig *types.Signature) Val {
			x.trusted["external encoding/json.Marshal"] = true
			na := NewAlloc()
			st.assume(Le(st.allocNow(), na))
			lo := st.allocNow()
			st.al, st.alN = na, 0
			r := x.fresh(st, "json", sig.Results()).(Tuple)
			st.assume(Or(Eq(SlArr(asTerm(r[0])), Int(0)), Le(lo, SlArr(asTerm(r[0])))))
			return r
		},
		// encoding/json writes the exported fields of what its second argument points to
		"encoding/json.Unmarshal": func(x *Exec, fr *Frame, st *State, args []Val, pos token.Pos, sig *types.Signature) Val {
			x.trusted["external encoding/json.Unmarshal"] = true
			w := newWriteSet()
			x.reach(st, args[1], sig.Params().At(1).Type(), w, 0)
			old := st.clone()
			x.havoc(st, w)
			ks := map[string]bool{}
			for k := range w.refs {
				ks[k] = true
			}
			for _, k := range sortedKeys(ks) {
				s, ok := heapTab[k].typ.Underlying().(*types.Struct)
				if !ok || heapTab[k].kind != 'c' {
					continue
				}
				d := structDT(heapTab[k].typ)
				for _, r := range w.refs[k] {
					for i := 0; i < s.NumFields(); i++ {
						if !s.Field(i).Exported() {
							st.assume(Eq(d.get(hsel(st.heap(k), r), i), d.get(hsel(old.heap(k), r), i)))
						}
					}
				}
			}
			na := NewAlloc()
			st.assume(Le(st.allocNow(), na))
			st.al, st.alN = na, 0
			return x.fresh(st, "err", sig.Results().At(0).Type())
		},
		"math.MaxInt": nil,
	}
	delete(models, "math.MaxInt")
}

func runeModel(name string, f func(rune) bool) modelFn {
	return func(x *Exec, fr *Frame, st *State, args []Val, pos token.Pos, sig *types.Signature) Val {
		t := asTerm(args[0])
		if t.kind == KInt {
			return Bool(f(rune(t.i64())))
		}
		return UF("uni_"+name, SBool, t)
	}
}

// sprintf: a pure function of format and arguments; some verbs are exact.
func (x *Exec) sprintf(st *State, args []Val) Val {
	f := asTerm(args[0])
	va := asTerm(args[1])
	if f.kind == KLit && SlLen(va).kind == KInt {
		n := int(SlLen(va).i64())
		key := ""
		for k, h := range heapTab {
			if h.kind == 'e' && h.typ != nil {
				if _, ok := h.typ.Underlying().(*types.Interface); ok && h.typ.Underlying().(*types.Interface).NumMethods() == 0 {
					key = k
				}
			}
		}
		if n == 0 {
			key = "none"
		}
		if key != "" {
			var vs []*Term
			ok := true
			for i := 0; i < n; i++ {
				b := Select(hsel(st.heap(key), SlArr(va)), Add(SlOff(va), Int(int64(i))))
				if !(b.kind == KApp && len(b.op) > 4 && b.op[:4] == "box$") {
					ok = false
					break
				}
				vs = append(vs, b)
			}
			if ok {
				return x.formatted(st, f.op, vs)
			}
		}
	}
	r := NewVar("sprintf", SStr)
	st.assume(Le(StrLen(r), Int(maxLen)))
	return r
}

func (x *Exec) formatted(st *State, f string, vs []*Term) *Term {
	var out []*Term
	lit := ""
	vi := 0
	flush := func() {
		if lit != "" {
			out = append(out, StrLit(lit))
			lit = ""
		}
	}
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			lit += string(f[i])
			continue
		}
		j := i + 1
		for j < len(f) && (f[j] >= '0' && f[j] <= '9' || f[j] == '-' || f[j] == '+' || f[j] == '.' || f[j] == '#') {
			j++
		}
		if j >= len(f) {
			lit += f[i:]
			break
		}
		verb := f[i : j+1]
		i = j
		if f[j] == '%' {
			lit += "%"
			continue
		}
		if vi >= len(vs) {
			lit += verb
			continue
		}
		b := vs[vi]
		vi++
		v := b.args[0]
		flush()
		t := boxType[b.op]
		if (verb == "%s" || verb == "%v") && v.sort == SStr && types.TypeString(t.Underlying(), nil) == "string" {
			if ms := types.NewMethodSet(t); ms.Lookup(nil, "Error") == nil && ms.Lookup(nil, "String") == nil {
				out = append(out, v)
				continue
			}
		}
		r := UF(fmt.Sprintf("fmt%s$%s", sanitizePct(verb), sanitize(shortType(t))), SStr, v)
		st.assume(Le(StrLen(r), Int(maxLen)))
		if verb == "%d" {
			st.assume(Le(Int(1), StrLen(r)))
		}
		out = append(out, r)
	}
	flush()
	r := StrConcat(out...)
	st.assume(Le(StrLen(r), Int(maxLen)))
	return r
}

func sanitizePct(s string) string {
	var o []byte
	for i := 0; i < len(s); i++ {
		if s[i] == '%' {
			o = append(o, '_')
		} else {
			o = append(o, s[i])
		}
	}
	return string(o)
}

var _ = ssa.BuilderMode(0)
