package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C19: nothing that executes a program writes to the program, to package
// variables, or to what they refer to; and package variables that execution
// reads are only assigned by the initialization of packages.

func init() { register("C19", "effects", purityAnalysis) }

func (w *World) pkg(path string) *ssa.Package {
	for p := range w.repoPkg {
		if p.Pkg.Path() == path {
			return p
		}
	}
	return nil
}

// codeMethods are the methods of a program that users can call.
func (w *World) codeMethods() []*ssa.Function {
	p := w.pkg(modPath + "/vm")
	if p == nil {
		return nil
	}
	t, ok := p.Members["Code"].(*ssa.Type)
	if !ok {
		return nil
	}
	var out []*ssa.Function
	ms := w.prog.MethodSets.MethodSet(types.NewPointer(t.Type()))
	for i := 0; i < ms.Len(); i++ {
		if f := w.prog.MethodValue(ms.At(i)); f != nil && ms.At(i).Obj().Exported() {
			out = append(out, f)
		}
	}
	return out
}

func ifaceNamed(t types.Type, names ...string) bool {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	s := n.Obj().Pkg().Path() + "." + n.Obj().Name()
	for _, x := range names {
		if s == x {
			return true
		}
	}
	return false
}

func execEffects(w *World) (*effects, []*ssa.Function) {
	e := newEffects(w)
	e.bound = func(t types.Type) bool {
		return ifaceNamed(t, modPath+"/isa.Checker", modPath+"/memo.Table", "io.ReaderAt", "io.Reader", "error", "fmt.Stringer")
	}
	entries := w.codeMethods()
	for _, f := range entries {
		e.enter(f, nil)
		for i, p := range f.Params {
			class := "boundary"
			if i == 0 {
				class = "program"
			}
			e.add(e.val(f, p), e.rootPointees(class, p.Type())...)
		}
	}
	e.solve()
	return e, entries
}

func purityAnalysis(w *World) (res HRes) {
	e, entries := execEffects(w)
	viol := func(f string, a ...interface{}) {
		res.Viol = append(res.Viol, Violation{What: fmt.Sprintf(f, a...)})
	}
	exec := 0
	for _, f := range entries {
		if strings.HasPrefix(f.Name(), "Exec") {
			exec++
		}
	}
	if exec == 0 {
		viol("no entry that executes a program was found")
		return res
	}
	class := map[string]bool{"program": true, "global": true}
	shared := e.shared(class)
	seen := map[string]bool{}
	for _, wr := range e.writes {
		res.Asserts++
		var ls []aloc
		for l := range wr.to.pts {
			if _, ok := shared[l.o]; ok {
				ls = append(ls, l)
			}
		}
		sort.Slice(ls, func(i, j int) bool {
			return ls[i].o.id < ls[j].o.id || ls[i].o.id == ls[j].o.id && ls[i].path < ls[j].path
		})
		for _, l := range ls {
			owner := map[string]string{"program": "the program", "global": "package-level state"}[strings.TrimPrefix(shared[l.o], "stored in ")]
			if l.o.class == "global" && strings.Contains(l.o.site, ".") {
				owner = "package variable " + strings.ReplaceAll(l.o.site, modPath+"/", "")
			}
			msg := fmt.Sprintf("%s: %s to %s (%s)", e.w.posStr(wr.pos), wr.what, e.pathName(wr.path(l)), owner)
			if !seen[msg] {
				seen[msg] = true
				viol("%s, reached by %s", msg, e.chain(wr.fn))
			}
			break
		}
	}
	// package variables that execution reads
	writers := map[*ssa.Global]string{}
	initOnly := w.initOnly()
	for _, f := range w.repoFuncs() {
		if initOnly[f] {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if g := baseGlobal(st.Addr); g != nil {
						writers[g] = f.String()
					}
				}
				if mu, ok := in.(*ssa.MapUpdate); ok {
					if u, ok := mu.Map.(*ssa.UnOp); ok {
						if g := baseGlobal(u.X); g != nil {
							writers[g] = f.String()
						}
					}
				}
			}
		}
	}
	var gs []*ssa.Global
	for g := range e.reads {
		gs = append(gs, g)
	}
	sort.Slice(gs, func(i, j int) bool { return gs[i].String() < gs[j].String() })
	for _, g := range gs {
		if p := g.Pkg; p == nil || !w.repoPkg[p] {
			continue
		}
		res.Asserts++
		if by := writers[g]; by != "" {
			for f := range e.reads[g] {
				viol("execution depends on package variable %s, which %s assigns, in %s", g.String(), by, e.chain(f))
				break
			}
		}
	}
	for f := range e.done {
		if !e.isStd(f) {
			res.Funcs = append(res.Funcs, f.String())
		}
	}
	sort.Strings(res.Funcs)
	res.Paths = len(e.done)
	var std []string
	for s := range e.unknown {
		std = append(std, s)
	}
	sort.Strings(std)
	res.Samples = append(res.Samples, fmt.Sprintf("%d functions, %d calls, %d writes, %d pre-existing objects", len(e.done), e.calls, len(e.writes), len(shared)),
		"library functions taken to write to their arguments: "+strings.Join(std, ", "))
	return res
}

func baseGlobal(v ssa.Value) *ssa.Global {
	for {
		switch x := v.(type) {
		case *ssa.Global:
			return x
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		default:
			return nil
		}
	}
}

// initOnly are the functions that only run while packages are initialized.
func (w *World) initOnly() map[*ssa.Function]bool {
	isInit := func(f *ssa.Function) bool { return f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") }
	out := map[*ssa.Function]bool{}
	callers := map[*ssa.Function][]*ssa.Function{}
	value := map[*ssa.Function]bool{}
	funcs := w.repoFuncs()
	for p := range w.repoPkg {
		if f := p.Func("init"); f != nil {
			funcs = append(funcs, f)
		}
	}
	for _, f := range funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var callee ssa.Value
				if c, ok := in.(ssa.CallInstruction); ok {
					callee = c.Common().Value
				}
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						if cf, ok := callee.(*ssa.Function); ok && cf.String() == "(*sync.Once).Do" {
							out[g] = true
						} else if *op == callee || g.Parent() == f {
							callers[g] = append(callers[g], f)
						} else {
							value[g] = true
						}
					}
				}
			}
		}
	}
	for _, f := range funcs {
		if isInit(f) {
			out[f] = true
		}
	}
	for again := true; again; {
		again = false
		for _, f := range funcs {
			if out[f] || value[f] || len(callers[f]) == 0 || f.Signature.Recv() != nil || f.Object() != nil && f.Object().Exported() {
				continue
			}
			all := true
			for _, c := range callers[f] {
				all = all && out[c]
			}
			if all {
				out[f], again = true, true
			}
		}
	}
	return out
}
