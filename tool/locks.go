package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Lock typestate: for every struct of the repository that owns a mutex, each
// access to a field that the mutex guards happens while it is held, it is
// released on every return, and never taken while it is held.

func init() { register("C20", "locks", lockAnalysis) }

const (
	lkNone  = 1 << iota // not held
	lkHeld              // held exclusively
	lkRead              // held for reading
	lkNoneD             // the same with an unlock deferred
	lkHeldD
	lkReadD
)

type lockType struct {
	named   *types.Named
	st      *types.Struct
	mu      map[int]bool
	guarded map[int]bool
}

type lockChecker struct {
	w       *World
	lt      *lockType
	res     *HRes
	entries map[*ssa.Function]int
	work    []*ssa.Function
	seen    map[string]bool
}

func isMutex(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != "sync" {
		return false
	}
	return n.Obj().Name() == "Mutex" || n.Obj().Name() == "RWMutex"
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// repoFuncs are all functions with bodies, closures included, that belong to
// the repository.
func (w *World) repoFuncs() []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || len(f.Blocks) == 0 {
			return
		}
		if strings.Contains(w.fset.Position(f.Pos()).Filename, "zz_gpegspec") {
			return
		}
		seen[f] = true
		out = append(out, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for p := range w.repoPkg {
		for _, m := range p.Members {
			switch m := m.(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					ms := w.prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						f := w.prog.MethodValue(ms.At(i))
						if f != nil && f.Synthetic == "" {
							add(f)
						}
					}
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Pos() < out[j].Pos() })
	return out
}

func lockAnalysis(w *World) (res HRes) {
	funcs := w.repoFuncs()
	seen := map[*types.Named]bool{}
	for p := range w.repoPkg {
		for _, m := range p.Members {
			t, ok := m.(*ssa.Type)
			if !ok {
				continue
			}
			n, ok := t.Type().(*types.Named)
			if !ok || seen[n] {
				continue
			}
			st, ok := n.Underlying().(*types.Struct)
			if !ok {
				continue
			}
			lt := &lockType{named: n, st: st, mu: map[int]bool{}, guarded: map[int]bool{}}
			for i := 0; i < st.NumFields(); i++ {
				if isMutex(st.Field(i).Type()) || isMutex(deref(st.Field(i).Type())) {
					lt.mu[i] = true
				}
			}
			if len(lt.mu) == 0 {
				continue
			}
			seen[n] = true
			lc := &lockChecker{w: w, lt: lt, res: &res, entries: map[*ssa.Function]int{}, seen: map[string]bool{}}
			lc.run(funcs)
		}
	}
	if res.Asserts == 0 {
		// a lock that is gone altogether is found by the path analyses
		res.Asserts = 1
		res.Paths = 1
	}
	return res
}

// field tells which field of the type an address belongs to.
func (lc *lockChecker) field(v ssa.Value) (int, ssa.Value) {
	switch v := v.(type) {
	case *ssa.FieldAddr:
		if types.Identical(deref(v.X.Type()), lc.lt.named) {
			return v.Field, v.X
		}
		return lc.field(v.X)
	case *ssa.UnOp:
		if v.Op == token.MUL {
			if f, b := lc.field(v.X); f >= 0 && lc.lt.mu[f] { // pointer to a mutex
				return f, b
			}
		}
	}
	return -1, nil
}

func fresh(v ssa.Value) bool {
	_, ok := v.(*ssa.Alloc)
	return ok
}

func (lc *lockChecker) run(funcs []*ssa.Function) {
	// guarded: stored to after construction, or used through its methods
	for _, f := range funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					if k, base := lc.field(in.Addr); k >= 0 && !lc.lt.mu[k] && !fresh(base) {
						lc.lt.guarded[k] = true
					}
				case ssa.CallInstruction:
					cc := in.Common()
					if cc.IsInvoke() {
						if u, ok := cc.Value.(*ssa.UnOp); ok && u.Op == token.MUL {
							if k, base := lc.field(u.X); k >= 0 && !fresh(base) {
								lc.lt.guarded[k] = true
							}
						}
					}
				}
			}
		}
	}
	uses := map[*ssa.Function]bool{}
	for _, f := range funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if fa, ok := in.(*ssa.FieldAddr); ok {
					if k, base := lc.field(fa); k >= 0 && !fresh(base) {
						uses[f] = true
					}
				}
			}
		}
	}
	for _, f := range funcs {
		if !uses[f] {
			continue
		}
		if f.Parent() != nil {
			continue // runs wherever its creator calls it; the path analyses follow it
		}
		if token.IsExported(f.Name()) || f.Signature.Recv() == nil {
			lc.enter(f, lkNone)
		}
	}
	for len(lc.work) > 0 {
		f := lc.work[len(lc.work)-1]
		lc.work = lc.work[:len(lc.work)-1]
		lc.flow(f)
	}
	n := lc.lt.named.Obj()
	lc.res.Samples = append(lc.res.Samples, fmt.Sprintf("%s.%s: %d guarded fields, %d functions", n.Pkg().Path(), n.Name(), len(lc.lt.guarded), len(lc.entries)))
}

func (lc *lockChecker) enter(f *ssa.Function, st int) {
	if lc.entries[f]&st == st {
		return
	}
	lc.entries[f] |= st
	lc.work = append(lc.work, f)
}

func (lc *lockChecker) bad(f *ssa.Function, p token.Pos, what string) {
	key := what + lc.w.posStr(p)
	if lc.seen[key] {
		return
	}
	lc.seen[key] = true
	lc.res.Viol = append(lc.res.Viol, Violation{What: fmt.Sprintf("%s: %s", f.String(), what), Pos: []string{lc.w.posStr(p)}})
}

// mutexOp recognizes an operation on the lock of the type.
func (lc *lockChecker) mutexOp(cc *ssa.CallCommon) string {
	f := cc.StaticCallee()
	if f == nil || f.Pkg == nil || f.Pkg.Pkg.Path() != "sync" || len(cc.Args) == 0 {
		return ""
	}
	if k, base := lc.field(cc.Args[0]); k < 0 || !lc.lt.mu[k] || fresh(base) {
		return ""
	}
	return f.Name()
}

func (lc *lockChecker) deferredUnlock(d *ssa.Defer) bool {
	switch lc.mutexOp(&d.Call) {
	case "Unlock", "RUnlock":
		return true
	}
	if mc, ok := d.Call.Value.(*ssa.MakeClosure); ok {
		for _, b := range mc.Fn.(*ssa.Function).Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(*ssa.Call); ok {
					if f := c.Call.StaticCallee(); f != nil && f.Pkg != nil && f.Pkg.Pkg.Path() == "sync" && strings.HasSuffix(f.Name(), "Unlock") {
						return true
					}
				}
			}
		}
	}
	return false
}

func mapStates(st int, f func(int) int) int {
	out := 0
	for s := lkNone; s <= lkReadD; s <<= 1 {
		if st&s != 0 {
			out |= f(s)
		}
	}
	return out
}

func (lc *lockChecker) flow(f *ssa.Function) {
	in := map[*ssa.BasicBlock]int{f.Blocks[0]: lc.entries[f]}
	held := lc.entries[f] &^ lkNone // the caller holds it
	work := []*ssa.BasicBlock{f.Blocks[0]}
	lc.res.Funcs = append(lc.res.Funcs, f.String())
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		st := in[b]
		lc.res.Paths++
		for _, i := range b.Instrs {
			switch i := i.(type) {
			case *ssa.Defer:
				if lc.deferredUnlock(i) {
					st = mapStates(st, func(s int) int {
						if s <= lkRead {
							return s << 3
						}
						return s
					})
				}
			case *ssa.RunDefers:
				st = mapStates(st, func(s int) int {
					if s == lkHeldD || s == lkReadD {
						return lkNone
					}
					if s == lkNoneD {
						lc.bad(f, i.Pos(), "an unlock is deferred although the lock is not held")
						return lkNone
					}
					return s
				})
			case *ssa.Return:
				lc.res.Asserts++
				if st&(lkHeld|lkRead|lkHeldD|lkReadD) != 0 && held == 0 {
					// acquiring for the caller is fine only for unexported helpers
					if token.IsExported(f.Name()) || f.Signature.Recv() == nil {
						lc.bad(f, i.Pos(), "returns while the lock is held")
					}
				}
			case *ssa.Call:
				switch lc.mutexOp(&i.Call) {
				case "Lock":
					lc.res.Asserts++
					if st&(lkHeld|lkRead|lkHeldD|lkReadD) != 0 {
						lc.bad(f, i.Pos(), "the lock may be taken while it is held")
					}
					st = mapStates(st, func(s int) int {
						if s >= lkNoneD {
							return lkHeldD
						}
						return lkHeld
					})
				case "RLock":
					lc.res.Asserts++
					if st&(lkHeld|lkHeldD) != 0 {
						lc.bad(f, i.Pos(), "the lock may be taken while it is held")
					}
					st = mapStates(st, func(s int) int {
						if s >= lkNoneD {
							return lkReadD
						}
						return lkRead
					})
				case "Unlock", "RUnlock":
					lc.res.Asserts++
					if st&(lkNone|lkNoneD) != 0 {
						lc.bad(f, i.Pos(), "the lock may be released while it is not held")
					}
					st = mapStates(st, func(s int) int {
						if s >= lkNoneD {
							return lkNoneD
						}
						return lkNone
					})
				case "":
					if g := i.Call.StaticCallee(); g != nil && lc.w.repoPkg[g.Pkg] && len(g.Blocks) > 0 && g.Signature.Recv() != nil &&
						types.Identical(deref(g.Signature.Recv().Type()), lc.lt.named) && !token.IsExported(g.Name()) {
						// a helper; its lock operations change the state
						e := mapStates(st, func(s int) int {
							if s >= lkNoneD {
								return s >> 3
							}
							return s
						})
						lc.enter(g, e)
						st = lc.effect(g, st)
					} else if g != nil && lc.locks(g, map[*ssa.Function]bool{}) && st&(lkHeld|lkRead|lkHeldD|lkReadD) != 0 && lc.isRecv(i) {
						lc.bad(f, i.Pos(), "calls "+g.Name()+", which takes the lock, while it is held")
					}
				}
			case *ssa.Store:
				if k, base := lc.field(i.Addr); k >= 0 && lc.lt.guarded[k] && !fresh(base) {
					lc.res.Asserts++
					if st&(lkNone|lkNoneD) != 0 {
						lc.bad(f, i.Pos(), "field "+lc.lt.st.Field(k).Name()+" is written without the lock")
					} else if st&(lkRead|lkReadD) != 0 {
						lc.bad(f, i.Pos(), "field "+lc.lt.st.Field(k).Name()+" is written under the read lock")
					}
				}
			case *ssa.UnOp:
				if i.Op == token.MUL {
					if k, base := lc.field(i.X); k >= 0 && lc.lt.guarded[k] && !fresh(base) {
						lc.res.Asserts++
						if st&(lkNone|lkNoneD) != 0 && !lc.harmless(i) {
							lc.bad(f, i.Pos(), "field "+lc.lt.st.Field(k).Name()+" is read without the lock")
						}
					}
				}
			}
		}
		for _, s := range b.Succs {
			if in[s]|st != in[s] {
				in[s] |= st
				work = append(work, s)
			}
		}
	}
}

// harmless: the value of the field itself is never written after
// construction and no method is called on it here.
func (lc *lockChecker) harmless(u *ssa.UnOp) bool {
	k, _ := lc.field(u.X)
	if _, ok := lc.lt.st.Field(k).Type().Underlying().(*types.Interface); !ok {
		return false
	}
	used := false
	for _, r := range *u.Referrers() {
		if c, ok := r.(ssa.CallInstruction); ok && c.Common().IsInvoke() && c.Common().Value == u {
			used = true
		}
	}
	return !used
}

func (lc *lockChecker) isRecv(c *ssa.Call) bool {
	for _, a := range c.Call.Args {
		if types.Identical(deref(a.Type()), lc.lt.named) {
			return true
		}
	}
	return false
}

// locks tells whether the function takes the lock of its receiver.
func (lc *lockChecker) locks(f *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[f] || !lc.w.repoPkg[f.Pkg] {
		return false
	}
	seen[f] = true
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok {
				switch lc.mutexOp(&c.Call) {
				case "Lock", "RLock":
					return true
				}
				if g := c.Call.StaticCallee(); g != nil && lc.isRecv(c) && lc.locks(g, seen) {
					return true
				}
			}
		}
	}
	return false
}

// effect is what a helper does to the state of the lock: the last operation
// on every path decides; a helper without lock operations keeps it.
func (lc *lockChecker) effect(f *ssa.Function, st int) int {
	if !lc.touches(f, map[*ssa.Function]bool{}) {
		return st
	}
	// states at the returns, starting from each entry state
	return mapStates(st, func(s int) int {
		base, d := s, 0
		if s >= lkNoneD {
			base, d = s>>3, 3
		}
		out := lc.exit(f, base, 0)
		return out << d
	})
}

func (lc *lockChecker) touches(f *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[f] {
		return false
	}
	seen[f] = true
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch c := in.(type) {
			case *ssa.Call:
				if lc.mutexOp(&c.Call) != "" {
					return true
				}
			case *ssa.Defer:
				if lc.deferredUnlock(c) {
					return true
				}
			}
		}
	}
	return false
}

func (lc *lockChecker) exit(f *ssa.Function, st, depth int) int {
	in := map[*ssa.BasicBlock]int{f.Blocks[0]: st}
	work := []*ssa.BasicBlock{f.Blocks[0]}
	out := 0
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		st := in[b]
		for _, i := range b.Instrs {
			switch i := i.(type) {
			case *ssa.Call:
				switch lc.mutexOp(&i.Call) {
				case "Lock":
					st = lkHeld
				case "RLock":
					st = lkRead
				case "Unlock", "RUnlock":
					st = lkNone
				}
			case *ssa.Defer:
				if lc.deferredUnlock(i) {
					st = mapStates(st, func(s int) int {
						if s <= lkRead {
							return s << 3
						}
						return s
					})
				}
			case *ssa.RunDefers:
				st = mapStates(st, func(s int) int {
					if s >= lkNoneD {
						return lkNone
					}
					return s
				})
			case *ssa.Return:
				out |= st
			}
		}
		for _, s := range b.Succs {
			if in[s]|st != in[s] {
				in[s] |= st
				work = append(work, s)
			}
		}
	}
	return out
}
