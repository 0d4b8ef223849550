package main

import (
	"fmt"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Side conditions of the assumed contract of encoding/json ("what Marshal wrote,
// Unmarshal reads back"): checked on the types of the current source.
//
//	opt codec T except f, g; A within B

func (x *Exec) codec(st *State, fn *ssa.Function, rest string) {
	for _, part := range strings.Split(rest, ";") {
		f := strings.Fields(strings.ReplaceAll(part, ",", " "))
		if len(f) == 0 {
			continue
		}
		look := func(n string) types.Type {
			o := fn.Pkg.Pkg.Scope().Lookup(n)
			if o == nil {
				return nil
			}
			return o.Type()
		}
		t := look(f[0])
		msg := ""
		switch {
		case t == nil:
			msg = "type " + f[0] + " does not exist any more"
		case len(f) > 1 && f[1] == "within":
			msg = codecWithin(t, look(f[2]))
		default:
			ex := map[string]bool{}
			for _, n := range f[1:] {
				ex[n] = true
			}
			msg = codecType(t, ex, map[types.Type]bool{})
		}
		goal, name := True, "the JSON form of "+strings.Join(f, " ")+" keeps every field"
		if msg != "" {
			goal = False
			name += ": " + msg
		}
		x.oblige(st, "codec", name, fn.Pos(), goal)
	}
}

func jsonName(f *types.Var, tag string) (string, bool) {
	n := reflect.StructTag(tag).Get("json")
	opts := strings.Split(n, ",")
	if opts[0] == "-" && len(opts) == 1 {
		return "", false
	}
	for _, o := range opts[1:] {
		if o == "string" {
			return "", false
		}
	}
	if opts[0] == "" {
		return f.Name(), true
	}
	return opts[0], true
}

func codecType(t types.Type, except map[string]bool, seen map[types.Type]bool) string {
	if seen[t] {
		return ""
	}
	seen[t] = true
	if n, ok := t.(*types.Named); ok {
		ms := types.NewMethodSet(types.NewPointer(n))
		for i := 0; i < ms.Len(); i++ {
			switch m := ms.At(i).Obj().Name(); m {
			case "MarshalJSON", "UnmarshalJSON", "MarshalText", "UnmarshalText":
				return fmt.Sprintf("%s has its own %s", n, m)
			}
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&(types.IsInteger|types.IsString|types.IsBoolean) == 0 {
			return "a field of type " + u.String()
		}
	case *types.Slice:
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Byte {
			return ""
		}
		return codecType(u.Elem(), nil, seen)
	case *types.Map:
		if b, ok := u.Key().Underlying().(*types.Basic); !ok || b.Info()&(types.IsString|types.IsInteger) == 0 {
			return "a map with keys of type " + u.Key().String()
		}
		return codecType(u.Elem(), nil, seen)
	case *types.Struct:
		names := map[string]string{}
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if except[f.Name()] {
				continue
			}
			if !f.Exported() || f.Embedded() {
				return "field " + f.Name() + " of " + t.String() + " is not written"
			}
			n, ok := jsonName(f, u.Tag(i))
			if !ok {
				return "field " + f.Name() + " of " + t.String() + " is not written as it is"
			}
			if o, dup := names[strings.ToLower(n)]; dup {
				return "fields " + o + " and " + f.Name() + " of " + t.String() + " share the name " + n
			}
			names[strings.ToLower(n)] = f.Name()
			if m := codecType(f.Type(), nil, seen); m != "" {
				return m
			}
		}
	default:
		return "a field of type " + t.String()
	}
	return ""
}

// codecWithin: every field of a is a field of b with the same JSON name and type.
func codecWithin(a, b types.Type) string {
	if b == nil {
		return "missing type"
	}
	sa, ok := a.Underlying().(*types.Struct)
	sb, ok2 := b.Underlying().(*types.Struct)
	if !ok || !ok2 {
		return "not a struct"
	}
	for i := 0; i < sa.NumFields(); i++ {
		n, ok := jsonName(sa.Field(i), sa.Tag(i))
		found := false
		for j := 0; j < sb.NumFields(); j++ {
			m, ok2 := jsonName(sb.Field(j), sb.Tag(j))
			if ok && ok2 && m == n && types.Identical(sa.Field(i).Type(), sb.Field(j).Type()) {
				found = true
			}
		}
		if !found {
			return "field " + sa.Field(i).Name() + " reads something else"
		}
	}
	return ""
}
