package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"
)

// Unit-wide encoding of byte arrays: native sequences (seq) or integer arrays.
var seqBytes bool

var (
	structByKey = map[string]*DT{}
	structNames = map[string]bool{}
	structType  = map[Sort]*types.Struct{}
	mapByKey    = map[string]*DT{}
	sortCache   = map[types.Type]Sort{}
)

const maxLen = int64(1) << 48 // assumed bound on lengths of slices and strings

func shortType(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func sortOf(t types.Type) Sort {
	if s, ok := sortCache[t]; ok {
		return s
	}
	s := sortOf1(t)
	sortCache[t] = s
	return s
}

func sortOf1(t types.Type) Sort {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return SBool
		case u.Info()&types.IsString != 0:
			return SStr
		}
		return SInt
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return SInt
	case *types.Slice:
		return SSlice
	case *types.Array:
		if seqBytes && isByte(u.Elem()) {
			return SStr
		}
		return SArr(SInt, sortOf(u.Elem()))
	case *types.Struct:
		return structDT(t).sort
	}
	panic("sortOf: unsupported type " + t.String())
}

func structDT(t types.Type) *DT {
	st := t.Underlying().(*types.Struct)
	key := types.TypeString(st, nil)
	if d, ok := structByKey[key]; ok {
		return d
	}
	name := "Anon"
	if n, ok := types.Unalias(t).(*types.Named); ok {
		name = n.Obj().Name()
	}
	name = "S_" + sanitize(name)
	for i := 2; structNames[name]; i++ {
		name = fmt.Sprintf("%s_%d", strings.TrimRight(name, "_0123456789"), i)
	}
	structNames[name] = true
	// placeholder against recursion (recursion only goes through pointers, which are Int)
	var fs []string
	var ss []Sort
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		fn := f.Name()
		if fn == "_" {
			fn = fmt.Sprintf("_%d", i)
		}
		fs = append(fs, fn)
		ss = append(ss, sortOf(f.Type()))
	}
	d := newDT(name, fs, ss)
	structByKey[key] = d
	structType[d.sort] = st
	return d
}

// mapDT is the datatype of map contents: domain, values (zero outside the domain), cardinality.
func mapDT(m *types.Map) *DT { return mapDTs(sortOf(m.Key()), m.Elem()) }

func mapDTs(ks Sort, elem types.Type) *DT {
	vs := sortOf(elem)
	return mapDTsorts(ks, vs)
}

func mapDTsorts(ks, vs Sort) *DT {
	key := string(ks) + "|" + string(vs)
	if d, ok := mapByKey[key]; ok {
		return d
	}
	n := "M_" + sanitize(strings.NewReplacer("(", "", ")", "", " ", "_").Replace(string(ks)+"_"+string(vs)))
	d := newDT(n, []string{"dom", "val", "card"}, []Sort{SArr(ks, SBool), SArr(ks, vs), SInt})
	mapByKey[key] = d
	return d
}

func zeroOf(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Array:
		if seqBytes && isByte(u.Elem()) {
			return zeroBytes(Int(u.Len()))
		}
		return ConstArr(SInt, zeroOf(u.Elem()))
	case *types.Struct:
		d := structDT(t)
		var as []*Term
		for i := 0; i < u.NumFields(); i++ {
			as = append(as, zeroOf(u.Field(i).Type()))
		}
		return d.mk(as...)
	}
	return zeroSort(sortOf(t))
}

func zeroSort(s Sort) *Term {
	switch s {
	case SInt:
		return Int(0)
	case SBool:
		return False
	case SStr:
		return strEmpty
	case SSlice:
		return dSlice.mk(Int(0), Int(0), Int(0), Int(0))
	}
	if st, ok := structType[s]; ok {
		d := dtOfSort[s]
		var as []*Term
		for i := 0; i < st.NumFields(); i++ {
			as = append(as, zeroOf(st.Field(i).Type()))
		}
		return d.mk(as...)
	}
	if d, ok := dtOfSort[s]; ok {
		var as []*Term
		for _, fs := range d.sorts {
			as = append(as, zeroSort(fs))
		}
		return d.mk(as...)
	}
	if strings.HasPrefix(string(s), "(Array ") {
		k, v := splitArr(s)
		return ConstArr(k, zeroSort(v))
	}
	panic("zeroSort " + string(s))
}

func emptyMap(d *DT) *Term {
	ks, _ := splitArr(d.sorts[0])
	_, vs := splitArr(d.sorts[1])
	return d.mk(ConstArr(ks, False), ConstArr(ks, zeroSort(vs)), Int(0))
}

// zeroBytes is the string of n zero bytes.
func zeroBytes(n *Term) *Term {
	if n.kind == KInt && n.ival.IsInt64() && n.i64() >= 0 && n.i64() <= 64 {
		return StrLit(strings.Repeat("\x00", int(n.i64())))
	}
	return RepStr(Int(0), n)
}

// RepStr is the string of n bytes b.
func RepStr(b, n *Term) *Term {
	if n.kind == KInt && n.ival.Sign() <= 0 {
		return strEmpty
	}
	if b.kind == KInt && n.kind == KInt && n.ival.IsInt64() && n.i64() <= 64 {
		return StrLit(strings.Repeat(string([]byte{byte(b.i64())}), int(n.i64())))
	}
	return UF("rep", SStr, b, n)
}

func init() {
	lenOf["rep"] = func(s *Term) *Term { return s.args[1] }
	groundFacts["rep"] = func(t *Term) *Term {
		if t.sort != SStr {
			return nil
		}
		i := NewBound("i", SInt)
		at := app("str.at", SInt, t, i)
		return Forall([]*Term{i}, Imp(And(Le(Int(0), i), Lt(i, t.args[1])), Eq(at, t.args[0])), []*Term{at})
	}
}

// ---- integer ranges ----

func intRange(t types.Type) (lo, hi *big.Int, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB || b.Info()&types.IsInteger == 0 {
		return nil, nil, false
	}
	bits := 64
	uns := b.Info()&types.IsUnsigned != 0
	switch b.Kind() {
	case types.Int8, types.Uint8:
		bits = 8
	case types.Int16, types.Uint16:
		bits = 16
	case types.Int32, types.Uint32:
		bits = 32
	case types.UntypedInt, types.UntypedRune:
		return nil, nil, false
	}
	if uns {
		return big.NewInt(0), new(big.Int).Sub(new(big.Int).Lsh(one, uint(bits)), one), true
	}
	h := new(big.Int).Lsh(one, uint(bits-1))
	return new(big.Int).Neg(h), new(big.Int).Sub(h, one), true
}

func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func isInteger(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isRefType(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Interface, *types.Signature:
		return true
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	}
	return false
}

// deepMap is the value of a map of maps: the same keys, with the contents of the
// inner maps instead of their references.
func deepMap(outer, inner *DT, c, h *Term) *Term {
	ks, _ := splitArr(outer.sorts[0])
	d := mapDTsorts(ks, inner.sort)
	dom := outer.get(c, 0)
	nm := "deepval$" + string(inner.sort)
	v := UF(nm, SArr(ks, inner.sort), dom, outer.get(c, 1), h)
	if _, ok := groundFacts[nm]; !ok {
		def := func(t *Term) (*Term, *Term, *Term) {
			k := NewBound("k", ks)
			at := Select(t, k)
			return k, at, Eq(at, Ite(Select(t.args[0], k), Select(t.args[2], Select(t.args[1], k)), emptyMap(inner)))
		}
		groundFacts[nm] = func(t *Term) *Term {
			k, at, f := def(t)
			return Forall([]*Term{k}, f, []*Term{at})
		}
	}
	return d.mk(dom, v, outer.get(c, 2))
}
