package main

import (
	"fmt"
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C18: everything execution reads from a program is part of what is
// serialized; everything that is serialized can be represented by the
// encoding; every checker of the library is known to it.

func init() { register("C18", "closure", serialAnalysis) }

type serial struct {
	w        *World
	res      *HRes
	seen     map[string]bool
	roots    map[string]bool // types handed to the encoders
	gob      map[string]bool // types registered with gob
	read     map[*types.Var]string
	json     bool
	reported map[string]bool
}

func (s *serial) viol(f string, a ...interface{}) {
	m := strings.ReplaceAll(fmt.Sprintf(f, a...), modPath+"/", "")
	if !s.reported[m] {
		s.reported[m] = true
		s.res.Viol = append(s.res.Viol, Violation{What: m})
	}
}

// argType is the type of the value in an interface argument.
func argType(v ssa.Value) types.Type {
	if m, ok := v.(*ssa.MakeInterface); ok {
		return m.X.Type()
	}
	return nil
}

func serialAnalysis(w *World) (res HRes) {
	s := &serial{w: w, res: &res, seen: map[string]bool{}, roots: map[string]bool{}, gob: map[string]bool{}, read: map[*types.Var]string{}, reported: map[string]bool{}}
	var out, in []types.Type
	gobUsed := false
	funcs := w.repoFuncs()
	for p := range w.repoPkg {
		if f := p.Func("init"); f != nil {
			funcs = append(funcs, f)
		}
	}
	gobType := map[string]types.Type{}
	for _, f := range funcs {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				c, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := c.Common().StaticCallee()
				if g == nil {
					continue
				}
				args := c.Common().Args
				switch g.String() {
				case "(*encoding/gob.Encoder).Encode":
					gobUsed = true
					if t := argType(args[len(args)-1]); t != nil {
						out = append(out, deref(t))
						gobType["out"] = deref(t)
					}
				case "encoding/json.Marshal", "encoding/json.MarshalIndent":
					if t := argType(args[0]); t != nil {
						out = append(out, deref(t))
						gobType["jout"] = deref(t)
					}
				case "(*encoding/gob.Decoder).Decode":
					if t := argType(args[len(args)-1]); t != nil {
						in = append(in, deref(t))
						gobType["in"] = deref(t)
					}
				case "encoding/json.Unmarshal":
					if t := argType(args[1]); t != nil {
						in = append(in, deref(t))
						gobType["jin"] = deref(t)
					}
				case "encoding/gob.Register":
					if w.initOnly()[f] {
						s.registered(args[0], map[ssa.Value]bool{})
					}
				case "encoding/gob.RegisterName":
					if w.initOnly()[f] {
						s.registered(args[1], map[ssa.Value]bool{})
					}
				}
			}
		}
	}
	// what execution reads
	e, entries := execEffects(w)
	exec := 0
	for _, f := range entries {
		if strings.HasPrefix(f.Name(), "Exec") {
			exec++
		}
	}
	if exec == 0 || len(out) == 0 || len(in) == 0 {
		s.viol("the functions that execute, serialize and load programs were not found")
		return res
	}
	for f := range e.done {
		if e.isStd(f) || strings.HasPrefix(f.Name(), "To") && f.Signature.Recv() != nil {
			continue
		}
		res.Funcs = append(res.Funcs, f.String())
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				var st *types.Struct
				n := 0
				switch x := ins.(type) {
				case *ssa.FieldAddr:
					st, _ = deref(x.X.Type()).Underlying().(*types.Struct)
					n = x.Field
				case *ssa.Field:
					st, _ = x.X.Type().Underlying().(*types.Struct)
					n = x.Field
				}
				if st != nil {
					s.read[st.Field(n)] = f.String()
				}
			}
		}
	}
	sort.Strings(res.Funcs)
	for _, t := range append(out, in...) {
		s.roots[typeKey(t)] = true
	}
	for _, p := range [][2]string{{"out", "in"}, {"jout", "jin"}} {
		a, b := gobType[p[0]], gobType[p[1]]
		if a != nil && b != nil && !types.Identical(a, b) {
			s.compatible(a, b)
		}
	}
	p := w.pkg(modPath + "/vm")
	ct := p.Members["Code"].Type()
	s.code(ct)
	if gobUsed {
		for _, t := range out {
			s.closed(t, typeKey(t))
		}
	}
	res.Paths = len(s.seen)
	return res
}

// compatible: the type that is loaded has the fields of the one that is saved.
func (s *serial) compatible(a, b types.Type) {
	as, ok1 := a.Underlying().(*types.Struct)
	bs, ok2 := b.Underlying().(*types.Struct)
	if !ok1 || !ok2 {
		return
	}
	for i := 0; i < as.NumFields(); i++ {
		s.res.Asserts++
		found := false
		for j := 0; j < bs.NumFields(); j++ {
			found = found || as.Field(i).Name() == bs.Field(j).Name() && types.Identical(as.Field(i).Type(), bs.Field(j).Type())
		}
		if !found {
			s.viol("field %s of %s is saved but %s has no such field when loading", as.Field(i).Name(), typeKey(a), typeKey(b))
		}
	}
}

// code looks for parts of a program that are not serialized.
func (s *serial) code(t types.Type) {
	if s.roots[typeKey(t)] {
		return
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return
	}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		s.res.Asserts++
		if s.roots[typeKey(deref(f.Type()))] {
			continue
		}
		if by := s.read[f]; by != "" {
			s.viol("field %s of %s is read by %s but is not serialized", f.Name(), typeKey(t), by)
		}
	}
}

func selfEncoding(t types.Type) bool {
	for _, n := range []string{"GobEncode", "MarshalBinary", "MarshalText"} {
		for _, x := range []types.Type{t, types.NewPointer(t)} {
			if types.NewMethodSet(x).Lookup(nil, n) != nil {
				return true
			}
		}
	}
	return false
}

// closed checks that the encoding keeps everything of a type.
func (s *serial) closed(t types.Type, where string) {
	k := typeKey(t)
	if s.seen[k] {
		return
	}
	s.seen[k] = true
	s.res.Asserts++
	if selfEncoding(t) {
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		s.closed(u.Elem(), where)
	case *types.Slice:
		s.closed(u.Elem(), where+"[]")
	case *types.Array:
		s.closed(u.Elem(), where+"[]")
	case *types.Map:
		s.closed(u.Key(), where+"[]")
		s.closed(u.Elem(), where+"[]")
	case *types.Chan, *types.Signature:
		s.viol("%s cannot be serialized (%s)", where, k)
	case *types.Struct:
		exported := 0
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			s.res.Asserts++
			by := s.read[f]
			if !f.Exported() {
				if by == "" {
					by = s.readBy(f)
				}
				if by != "" {
					s.viol("field %s.%s is not exported, so it is not serialized, but %s reads it", k, f.Name(), by)
				}
				continue
			}
			exported++
			tag := reflect.StructTag(u.Tag(i)).Get("json")
			if name, _, _ := strings.Cut(tag, ","); name == "-" && tag != "-," && by != "" {
				s.viol("field %s.%s is left out of the JSON form, but %s reads it", k, f.Name(), by)
			}
			if _, ok := f.Type().Underlying().(*types.Chan); ok && by == "" {
				continue
			}
			if _, ok := f.Type().Underlying().(*types.Signature); ok && by == "" {
				continue
			}
			s.closed(f.Type(), where+"."+f.Name())
		}
		names := map[string]string{}
		for i := 0; i < u.NumFields(); i++ {
			tag := reflect.StructTag(u.Tag(i)).Get("json")
			name, _, _ := strings.Cut(tag, ",")
			if name == "" || name == "-" {
				name = u.Field(i).Name()
			}
			if o := names[strings.ToLower(name)]; o != "" && u.Field(i).Exported() {
				s.viol("fields %s and %s of %s have the same name in the JSON form", o, u.Field(i).Name(), k)
			}
			if u.Field(i).Exported() {
				names[strings.ToLower(name)] = u.Field(i).Name()
			}
		}
		if exported == 0 && u.NumFields() > 0 {
			s.viol("type %s has no exported fields: it cannot be serialized (%s)", k, where)
		}
	case *types.Interface:
		if u.NumMethods() == 0 {
			return
		}
		for p := range s.w.repoPkg {
			for _, m := range p.Members {
				tm, ok := m.(*ssa.Type)
				if !ok || types.IsInterface(tm.Type()) || strings.Contains(s.w.fset.Position(tm.Pos()).Filename, "zz_gpegspec") {
					continue
				}
				if n, ok := tm.Type().(*types.Named); ok && n.TypeParams().Len() > 0 {
					continue
				}
				val, ptr := tm.Type(), types.NewPointer(tm.Type())
				if !types.Implements(ptr, u) {
					continue
				}
				s.res.Asserts++
				vk, pk := s.gob[typeKey(val)], s.gob[typeKey(ptr)]
				if types.Implements(val, u) && !vk && !pk {
					s.viol("%s implements %s but is not registered: it cannot be loaded back", typeKey(val), k)
				}
				if !types.Implements(val, u) && !pk {
					s.viol("%s implements %s but is not registered: it cannot be loaded back", typeKey(ptr), k)
				}
				s.closed(tm.Type(), typeKey(tm.Type()))
			}
		}
	}
}

// readBy is a method that reads the field.
func (s *serial) readBy(f *types.Var) string {
	for _, g := range s.w.repoFuncs() {
		if g.Signature.Recv() == nil {
			continue
		}
		for _, b := range g.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.FieldAddr:
					if st, ok := deref(x.X.Type()).Underlying().(*types.Struct); ok && st.Field(x.Field) == f {
						return g.String()
					}
				case *ssa.Field:
					if st, ok := x.X.Type().Underlying().(*types.Struct); ok && st.Field(x.Field) == f {
						return g.String()
					}
				}
			}
		}
	}
	return ""
}

// registered notes the concrete types that may be handed to gob.Register as v;
// what is read from a container may be anything that the function, or the
// initialization of its package, converts to an interface.
func (s *serial) registered(v ssa.Value, seen map[ssa.Value]bool) {
	if seen[v] {
		return
	}
	seen[v] = true
	made := func(f *ssa.Function) {
		if f == nil {
			return
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if m, ok := ins.(*ssa.MakeInterface); ok {
					s.gob[typeKey(m.X.Type())] = true
				}
			}
		}
	}
	switch x := v.(type) {
	case *ssa.MakeInterface:
		s.gob[typeKey(x.X.Type())] = true
	case *ssa.ChangeInterface:
		s.registered(x.X, seen)
	case *ssa.Phi:
		for _, e := range x.Edges {
			s.registered(e, seen)
		}
	case *ssa.Parameter:
		k := -1
		for i, p := range x.Parent().Params {
			if p == x {
				k = i
			}
		}
		for _, f := range s.w.repoFuncs() {
			if !s.w.initOnly()[f] {
				continue
			}
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					if c, ok := ins.(ssa.CallInstruction); ok && c.Common().StaticCallee() == x.Parent() && k < len(c.Common().Args) {
						a := c.Common().Args[k]
						s.registered(a, seen)
					}
				}
			}
		}
	case ssa.Instruction:
		made(x.Parent())
		if x.Parent().Pkg != nil {
			made(x.Parent().Pkg.Func("init"))
		}
		// a slice parameter: what the callers put into it
		for _, p := range x.Parent().Params {
			if _, ok := p.Type().Underlying().(*types.Slice); ok {
				s.registered(p, seen)
			}
		}
	}
}
