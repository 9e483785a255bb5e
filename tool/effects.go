package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Effect analysis: an inclusion-based points-to analysis (field-sensitive for
// objects, objects named by their allocation site) of everything reachable
// from a set of entries, followed by the list of the places it may write.

// aobj is an abstract object.
type aobj struct {
	id    int
	class string // "new", or the owner of memory that exists before the call
	typ   types.Type
	site  string
	fn    *ssa.Function // for closures
	bind  []ssa.Value
	box   bool // a value that is not a pointer, in an interface
}

// aloc is a place in an object.
type aloc struct {
	o    *aobj
	path string
}

type aset map[aloc]bool

type anode struct {
	pts  aset
	succ []func(d []aloc) // what happens with new elements
}

type awrite struct {
	fn   *ssa.Function
	pos  token.Pos
	to   *anode
	path func(aloc) aloc
	what string
}

type effects struct {
	w       *World
	vals    map[ssa.Value]*anode
	cells   map[aloc]*anode
	byObj   map[*aobj][]string
	watch   map[*aobj][]func(path string)
	rets    map[*ssa.Function]*anode
	objs    map[string]*aobj
	roots   map[string]*aobj
	done    map[*ssa.Function]bool
	from    map[*ssa.Function]*ssa.Function
	work    []*ssa.Function
	queue   []func()
	writes  []awrite
	linked  map[string]bool
	unknown map[string]bool
	bound   func(iface types.Type) bool // interfaces whose methods are not looked into
	taken   []*ssa.Function
	reads   map[*ssa.Global]map[*ssa.Function]bool
	calls   int
	std     map[string]bool
}

func newEffects(w *World) *effects {
	return &effects{w: w, vals: map[ssa.Value]*anode{}, cells: map[aloc]*anode{}, byObj: map[*aobj][]string{}, watch: map[*aobj][]func(string){},
		rets: map[*ssa.Function]*anode{}, objs: map[string]*aobj{}, roots: map[string]*aobj{}, done: map[*ssa.Function]bool{}, from: map[*ssa.Function]*ssa.Function{},
		linked: map[string]bool{}, unknown: map[string]bool{}, reads: map[*ssa.Global]map[*ssa.Function]bool{}, std: map[string]bool{},
		bound: func(types.Type) bool { return false }}
}

func (e *effects) newObj(class string, t types.Type, site string) *aobj {
	k := class + "|" + site + "|" + typeKey(t)
	if o := e.objs[k]; o != nil {
		return o
	}
	o := &aobj{id: len(e.objs), class: class, typ: t, site: site}
	e.objs[k] = o
	return o
}

func typeKey(t types.Type) string {
	if t == nil {
		return ""
	}
	return types.TypeString(t, nil)
}

// root is the memory of a class that has a type.
func (e *effects) root(class string, t types.Type) *aobj {
	k := class + "|" + typeKey(t)
	if o := e.roots[k]; o != nil {
		return o
	}
	o := &aobj{id: -len(e.roots) - 1, class: class, typ: t, site: class}
	e.roots[k] = o
	return o
}

func (e *effects) add(n *anode, ls ...aloc) {
	var d []aloc
	for _, l := range ls {
		if !n.pts[l] {
			if n.pts == nil {
				n.pts = aset{}
			}
			n.pts[l] = true
			d = append(d, l)
		}
	}
	if len(d) > 0 {
		for i := 0; i < len(n.succ); i++ {
			f := n.succ[i]
			e.queue = append(e.queue, func() { f(d) })
		}
	}
}

func (e *effects) on(n *anode, f func(d []aloc)) {
	n.succ = append(n.succ, f)
	if len(n.pts) > 0 {
		var d []aloc
		for l := range n.pts {
			d = append(d, l)
		}
		e.queue = append(e.queue, func() { f(d) })
	}
}

func (e *effects) flow(from, to *anode) {
	if from == to || from == nil {
		return
	}
	k := fmt.Sprintf("%p>%p", from, to)
	if e.linked[k] {
		return
	}
	e.linked[k] = true
	e.on(from, func(d []aloc) { e.add(to, d...) })
}

func hasPointers(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasPointers(u.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Array:
		return hasPointers(u.Elem())
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if hasPointers(u.At(i).Type()) {
				return true
			}
		}
		return false
	}
	return true
}

// typeAt is the type of a place.
func typeAt(l aloc) types.Type {
	t := l.o.typ
	p := l.path
	for p != "" && t != nil {
		i := strings.IndexAny(p[1:], ".[")
		step := p
		if i >= 0 {
			step, p = p[:i+1], p[i+1:]
		} else {
			p = ""
		}
		switch u := t.Underlying().(type) {
		case *types.Struct:
			if step[0] != '.' {
				return nil
			}
			n := 0
			fmt.Sscanf(step, ".%d", &n)
			if n >= u.NumFields() {
				return nil
			}
			t = u.Field(n).Type()
		case *types.Array:
			t = u.Elem()
		case *types.Slice:
			t = u.Elem()
		case *types.Map:
			if step == "[k" {
				t = u.Key()
			} else {
				t = u.Elem()
			}
		case *types.Chan:
			t = u.Elem()
		default:
			return nil
		}
	}
	return t
}

// cell is the contents of a place; places of pre-existing memory point to
// memory of the same class.
func (e *effects) cell(l aloc) *anode {
	if n := e.cells[l]; n != nil {
		return n
	}
	n := &anode{}
	e.cells[l] = n
	e.byObj[l.o] = append(e.byObj[l.o], l.path)
	if l.o.class != "new" {
		if t := typeAt(l); t != nil {
			e.add(n, e.rootPointees(l.o.class, t)...)
		}
	}
	for _, f := range e.watch[l.o] {
		f := f
		e.queue = append(e.queue, func() { f(l.path) })
	}
	return n
}

// rootPointees is what a pre-existing value of a type points to.
func (e *effects) rootPointees(class string, t types.Type) []aloc {
	if class == "boundary" && !hasPointers(t) {
		return nil
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return []aloc{{e.root(class, u.Elem()), ""}}
	case *types.Slice, *types.Map, *types.Chan, *types.Interface, *types.Signature:
		return []aloc{{e.root(class, t), ""}}
	case *types.Struct:
		var out []aloc
		for i := 0; i < u.NumFields(); i++ {
			out = append(out, e.rootPointees(class, u.Field(i).Type())...)
		}
		return out
	case *types.Array:
		return e.rootPointees(class, u.Elem())
	}
	return nil
}

func related(a, b string) bool {
	return strings.HasPrefix(a, b) && (len(a) == len(b) || a[len(b)] == '.' || a[len(b)] == '[') ||
		strings.HasPrefix(b, a) && (len(a) == len(b) || b[len(a)] == '.' || b[len(a)] == '[')
}

// load flows what is stored at the places to n.
func (e *effects) load(addr *anode, sub string, n *anode) {
	e.on(addr, func(d []aloc) {
		for _, l := range d {
			p := aloc{l.o, l.path + sub}
			e.cell(p)
			for _, q := range append([]string{}, e.byObj[l.o]...) {
				if related(q, p.path) {
					e.flow(e.cell(aloc{l.o, q}), n)
				}
			}
			e.watch[l.o] = append(e.watch[l.o], func(q string) {
				if related(q, p.path) {
					e.flow(e.cells[aloc{p.o, q}], n)
				}
			})
		}
	})
}

func (e *effects) store(addr *anode, sub string, v *anode) {
	e.on(addr, func(d []aloc) {
		for _, l := range d {
			e.flow(v, e.cell(aloc{l.o, l.path + sub}))
		}
	})
}

func (e *effects) val(fn *ssa.Function, v ssa.Value) *anode {
	if n := e.vals[v]; n != nil {
		return n
	}
	n := &anode{}
	e.vals[v] = n
	switch v := v.(type) {
	case *ssa.Global:
		e.add(n, aloc{e.global(v), ""})
		if e.reads[v] == nil {
			e.reads[v] = map[*ssa.Function]bool{}
		}
		e.reads[v][fn] = true
	case *ssa.Function:
		o := e.newObj("new", v.Type(), "func "+v.String())
		o.fn = v
		e.add(n, aloc{o, ""})
	}
	return n
}

func (e *effects) global(g *ssa.Global) *aobj {
	k := "global " + g.String()
	if o := e.roots[k]; o != nil {
		return o
	}
	o := &aobj{id: -len(e.roots) - 1, class: "global", typ: g.Type().(*types.Pointer).Elem(), site: g.String()}
	e.roots[k] = o
	return o
}

func (e *effects) enter(fn, caller *ssa.Function) {
	if fn == nil || e.done[fn] {
		return
	}
	e.done[fn] = true
	e.from[fn] = caller
	e.work = append(e.work, fn)
}

func (e *effects) ret(fn *ssa.Function) *anode {
	if e.rets[fn] == nil {
		e.rets[fn] = &anode{}
	}
	return e.rets[fn]
}

func (e *effects) solve() {
	for len(e.work) > 0 || len(e.queue) > 0 {
		if len(e.queue) > 0 {
			f := e.queue[0]
			e.queue = e.queue[1:]
			f()
			continue
		}
		fn := e.work[0]
		e.work = e.work[1:]
		if fn.Pkg != nil {
			e.w.build(fn.Pkg)
		} else if o := fn.Origin(); o != nil && o.Pkg != nil {
			e.w.build(o.Pkg)
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				e.instr(fn, in)
			}
		}
	}
}

func (e *effects) write(fn *ssa.Function, pos token.Pos, to *anode, sub, what string) {
	e.writes = append(e.writes, awrite{fn, pos, to, func(l aloc) aloc { return aloc{l.o, l.path + sub} }, what})
}

func (e *effects) instr(fn *ssa.Function, in ssa.Instruction) {
	site := func() string { return e.w.posStr(in.Pos()) + " " + fn.String() }
	v := func(x ssa.Value) *anode { return e.val(fn, x) }
	switch in := in.(type) {
	case *ssa.Alloc:
		o := e.newObj("new", in.Type().(*types.Pointer).Elem(), site()+in.Name())
		e.add(v(in), aloc{o, ""})
	case *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan:
		x := in.(ssa.Value)
		e.add(v(x), aloc{e.newObj("new", x.Type(), site()+x.Name()), ""})
	case *ssa.FieldAddr:
		e.on(v(in.X), func(d []aloc) {
			for _, l := range d {
				e.add(v(in), aloc{l.o, fmt.Sprintf("%s.%d", l.path, in.Field)})
			}
		})
	case *ssa.IndexAddr:
		e.on(v(in.X), func(d []aloc) {
			for _, l := range d {
				e.add(v(in), aloc{l.o, l.path + "[]"})
			}
		})
	case *ssa.Field:
		e.flowT(v(in.X), v(in), in.Type())
	case *ssa.Index:
		e.flowT(v(in.X), v(in), in.Type())
	case *ssa.Lookup:
		if _, ok := in.X.Type().Underlying().(*types.Map); ok {
			e.load(v(in.X), "[]", v(in))
		}
	case *ssa.Range:
		e.flow(v(in.X), v(in))
	case *ssa.Next:
		if !in.IsString {
			e.load(v(in.Iter), "[]", v(in))
			e.load(v(in.Iter), "[k", v(in))
		}
	case *ssa.UnOp:
		switch in.Op {
		case token.MUL:
			if hasPointers(in.Type()) {
				e.loadT(v(in.X), "", v(in), in.Type())
			} else {
				v(in.X)
			}
		case token.ARROW:
			e.load(v(in.X), "[]", v(in))
		default:
			v(in.X)
		}
	case *ssa.Store:
		e.write(fn, in.Pos(), v(in.Addr), "", "store")
		if hasPointers(in.Val.Type()) {
			e.store(v(in.Addr), "", v(in.Val))
		}
	case *ssa.MapUpdate:
		e.write(fn, in.Pos(), v(in.Map), "[]", "map update")
		e.store(v(in.Map), "[]", v(in.Value))
		e.store(v(in.Map), "[k", v(in.Key))
	case *ssa.Send:
		e.store(v(in.Chan), "[]", v(in.X))
	case *ssa.Slice:
		if _, ok := in.X.Type().Underlying().(*types.Pointer); ok { // of an array
			e.on(v(in.X), func(d []aloc) {
				for _, l := range d {
					e.add(v(in), l)
				}
			})
		} else {
			e.flow(v(in.X), v(in))
		}
	case *ssa.Phi:
		for _, x := range in.Edges {
			e.flow(v(x), v(in))
		}
	case *ssa.Select:
		for _, st := range in.States {
			if st.Send != nil {
				e.store(v(st.Chan), "[]", v(st.Send))
			} else {
				e.load(v(st.Chan), "[]", v(in))
			}
		}
	case *ssa.ChangeType:
		e.flow(v(in.X), v(in))
	case *ssa.ChangeInterface:
		e.flow(v(in.X), v(in))
	case *ssa.Convert:
		if b, ok := in.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			if _, ok := in.Type().Underlying().(*types.Slice); ok {
				e.add(v(in), aloc{e.newObj("new", in.Type(), site()+in.Name()), ""})
				return
			}
		}
		if hasPointers(in.Type()) {
			e.flow(v(in.X), v(in))
		}
	case *ssa.MultiConvert:
		e.flow(v(in.X), v(in))
	case *ssa.SliceToArrayPointer:
		e.flow(v(in.X), v(in))
	case *ssa.MakeInterface:
		if _, ok := in.X.Type().Underlying().(*types.Pointer); ok {
			e.flow(v(in.X), v(in))
			return
		}
		o := e.newObj("new", in.X.Type(), site()+in.Name())
		o.box = true
		e.add(v(in), aloc{o, ""})
		e.flow(v(in.X), e.cell(aloc{o, ""}))
	case *ssa.TypeAssert:
		e.typeAssert(fn, in)
	case *ssa.Extract:
		e.flowT(v(in.Tuple), v(in), in.Type())
	case *ssa.MakeClosure:
		f := in.Fn.(*ssa.Function)
		o := e.newObj("new", in.Type(), site()+in.Name())
		o.fn = f
		e.add(v(in), aloc{o, ""})
		for i, b := range in.Bindings {
			e.flow(v(b), v(f.FreeVars[i]))
		}
	case *ssa.Return:
		for _, r := range in.Results {
			e.flow(v(r), e.ret(fn))
		}
	case *ssa.Panic:
		v(in.X)
	case *ssa.Call:
		e.call(fn, in, in.Common(), v(in))
	case *ssa.Go:
		e.call(fn, in, in.Common(), &anode{})
	case *ssa.Defer:
		e.call(fn, in, in.Common(), &anode{})
	default:
		if x, ok := in.(ssa.Value); ok {
			v(x)
		}
	}
}

// fits tells whether a value of the type can hold a pointer to the place.
func fits(t types.Type, l aloc) bool {
	pt := typeAt(l)
	if pt == nil || l.o.fn != nil {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Pointer:
		if types.Identical(u.Elem(), pt) || types.Identical(u.Elem().Underlying(), pt.Underlying()) {
			return true
		}
		// a pointer into something that is given by a sub-place
		return false
	case *types.Slice:
		switch p := pt.Underlying().(type) {
		case *types.Slice:
			return types.Identical(p.Elem().Underlying(), u.Elem().Underlying())
		case *types.Array:
			return types.Identical(p.Elem().Underlying(), u.Elem().Underlying())
		}
		return false
	case *types.Map:
		_, ok := pt.Underlying().(*types.Map)
		return ok
	case *types.Chan:
		_, ok := pt.Underlying().(*types.Chan)
		return ok
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if fits(u.Field(i).Type(), l) {
				return true
			}
		}
		return false
	case *types.Array:
		return fits(u.Elem(), l)
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if fits(u.At(i).Type(), l) {
				return true
			}
		}
		return false
	}
	return true
}

func (e *effects) flowT(from, to *anode, t types.Type) {
	if !hasPointers(t) {
		return
	}
	e.on(from, func(d []aloc) {
		for _, l := range d {
			if fits(t, l) {
				e.add(to, l)
			}
		}
	})
}

func (e *effects) loadT(addr *anode, sub string, n *anode, t types.Type) {
	m := &anode{}
	e.load(addr, sub, m)
	e.flowT(m, n, t)
}

func (e *effects) typeAssert(fn *ssa.Function, in *ssa.TypeAssert) {
	n := e.val(fn, in)
	t := in.AssertedType
	e.on(e.val(fn, in.X), func(d []aloc) {
		for _, l := range d {
			if types.IsInterface(t) {
				e.add(n, l)
				continue
			}
			if _, ok := typeAtIface(l); ok { // pre-existing memory of unknown kind
				e.add(n, e.rootPointees(l.o.class, t)...)
				continue
			}
			if l.o.box && l.path == "" {
				if types.Identical(l.o.typ, t) {
					e.flow(e.cell(l), n)
				}
				continue
			}
			if p, ok := t.Underlying().(*types.Pointer); ok {
				if pt := typeAt(l); pt == nil || types.Identical(pt, p.Elem()) {
					e.add(n, l)
				}
			}
		}
	})
}

func typeAtIface(l aloc) (types.Type, bool) {
	if l.o.class == "new" {
		return nil, false
	}
	t := typeAt(l)
	if t == nil {
		return nil, false
	}
	_, ok := t.Underlying().(*types.Interface)
	return t, ok
}

// quiet packages do not write to what their arguments point to.
var quietPkgs = map[string]bool{"fmt": true, "errors": true, "strconv": true, "unicode": true, "unicode/utf8": true, "unicode/utf16": true, "math": true, "math/bits": true,
	"sync": true, "runtime": true, "time": true, "regexp/syntax": true, "internal/bytealg": true, "reflect": true, "strings": true, "log": true, "os": true, "internal/race": true, "unsafe": true,
	"math/rand": true, "hash/maphash": true, "runtime/debug": true, "testing": true, "path": true, "path/filepath": true}

func (e *effects) call(fn *ssa.Function, in ssa.Instruction, cc *ssa.CallCommon, res *anode) {
	e.calls++
	var args []*anode
	for _, a := range cc.Args {
		args = append(args, e.val(fn, a))
	}
	if cc.IsInvoke() {
		recv := e.val(fn, cc.Value)
		it := cc.Value.Type()
		if e.bound(it) {
			e.boundary(fn, in, cc, args, res)
			return
		}
		seen := map[*ssa.Function]bool{}
		e.on(recv, func(d []aloc) {
			for _, l := range d {
				if _, ok := typeAtIface(l); ok {
					e.openInvoke(fn, in, cc, l, args, res)
					continue
				}
				dt := typeAt(l)
				if dt == nil {
					continue
				}
				rv := &anode{}
				if l.o.box && l.path == "" {
					e.flow(e.cell(l), rv)
				} else {
					dt = types.NewPointer(dt)
					e.add(rv, l)
				}
				e.bindMethod(fn, in, dt, cc.Method, rv, args, res, seen)
			}
		})
		return
	}
	switch f := cc.Value.(type) {
	case *ssa.Builtin:
		e.builtin(fn, in, cc, f, args, res)
		return
	case *ssa.Function:
		e.static(fn, in, f, args, res)
		return
	case *ssa.MakeClosure:
		e.val(fn, f)
		e.static(fn, in, f.Fn.(*ssa.Function), args, res)
		return
	}
	seen := map[*ssa.Function]bool{}
	e.on(e.val(fn, cc.Value), func(d []aloc) {
		for _, l := range d {
			if l.o.fn != nil {
				if !seen[l.o.fn] {
					seen[l.o.fn] = true
					e.static(fn, in, l.o.fn, args, res)
				}
				continue
			}
			// a function that was stored before: any that fits
			if l.o.class != "new" {
				for _, g := range e.addressTaken() {
					if types.Identical(g.Signature, cc.Signature()) && g.Signature.Recv() == nil && !seen[g] {
						seen[g] = true
						e.static(fn, in, g, args, res)
						for _, fv := range g.FreeVars {
							e.add(e.val(g, fv), e.rootPointees(l.o.class, fv.Type())...)
						}
					}
				}
			}
		}
	})
}

// addressTaken are the functions of the repository that are used as values.
func (e *effects) addressTaken() []*ssa.Function {
	if e.taken != nil {
		return e.taken
	}
	seen := map[*ssa.Function]bool{}
	e.taken = []*ssa.Function{}
	funcs := e.w.repoFuncs()
	for p := range e.w.repoPkg {
		if f := p.Func("init"); f != nil {
			funcs = append(funcs, f)
		}
	}
	for _, f := range funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var callee ssa.Value
				if c, ok := in.(ssa.CallInstruction); ok {
					callee = c.Common().Value
				}
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok && (*op != callee || callee == nil) && !seen[g] {
						seen[g] = true
						e.taken = append(e.taken, g)
					}
				}
			}
		}
	}
	sort.Slice(e.taken, func(i, j int) bool { return e.taken[i].String() < e.taken[j].String() })
	return e.taken
}

// openInvoke is a call of a method of pre-existing memory of unknown kind.
func (e *effects) openInvoke(fn *ssa.Function, in ssa.Instruction, cc *ssa.CallCommon, l aloc, args []*anode, res *anode) {
	it, ok := cc.Value.Type().Underlying().(*types.Interface)
	if !ok {
		return
	}
	n := 0
	seen := map[*ssa.Function]bool{}
	for p := range e.w.repoPkg {
		for _, m := range p.Members {
			t, ok := m.(*ssa.Type)
			if !ok || types.IsInterface(t.Type()) {
				continue
			}
			if nt, ok := t.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
				continue
			}
			for _, dt := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
				if types.Implements(dt, it) {
					rv := &anode{}
					e.add(rv, e.rootPointees(l.o.class, dt)...)
					e.bindMethod(fn, in, dt, cc.Method, rv, args, res, seen)
					n++
					break
				}
			}
		}
	}
	if n == 0 {
		e.boundary(fn, in, cc, args, res)
	}
}

func (e *effects) bindMethod(fn *ssa.Function, in ssa.Instruction, dt types.Type, m *types.Func, rv *anode, args []*anode, res *anode, seen map[*ssa.Function]bool) {
	sel := e.w.prog.MethodSets.MethodSet(dt).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return
	}
	g := e.w.prog.MethodValue(sel)
	if g == nil {
		return
	}
	if len(g.Params) > 0 && !e.isStd(g) {
		e.flow(rv, e.val(g, g.Params[0]))
	}
	if seen[g] {
		return
	}
	seen[g] = true
	e.static(fn, in, g, append([]*anode{rv}, args...), res)
}

// boundary is a call of code that belongs to the user: it may fill the buffers
// it is given, and returns memory of its own.
func (e *effects) boundary(fn *ssa.Function, in ssa.Instruction, cc *ssa.CallCommon, args []*anode, res *anode) {
	for i, a := range cc.Args {
		if _, ok := a.Type().Underlying().(*types.Slice); ok && cc.Method != nil && (cc.Method.Name() == "ReadAt" || cc.Method.Name() == "Read") {
			e.write(fn, in.Pos(), args[i], "[]", "filled by "+cc.Method.Name())
		}
	}
	sig := cc.Signature()
	for i := 0; i < sig.Results().Len(); i++ {
		e.add(res, e.rootPointees("boundary", sig.Results().At(i).Type())...)
	}
}

func (e *effects) isStd(f *ssa.Function) bool {
	o := origin(f)
	p := o.Pkg
	if p == nil {
		if o.Object() == nil || o.Object().Pkg() == nil {
			return false
		}
		p = e.w.prog.Package(o.Object().Pkg())
	}
	return p != nil && !e.w.repoPkg[p]
}

func (e *effects) static(fn *ssa.Function, in ssa.Instruction, f *ssa.Function, args []*anode, res *anode) {
	if e.isStd(f) {
		e.stdCall(fn, in, f, args, res)
		return
	}
	if len(f.Blocks) == 0 && f.Pkg != nil {
		e.w.build(f.Pkg)
	}
	e.enter(f, fn)
	for i, p := range f.Params {
		if i < len(args) {
			e.flow(args[i], e.val(f, p))
		}
	}
	e.flow(e.ret(f), res)
}

func (e *effects) stdCall(fn *ssa.Function, in ssa.Instruction, f *ssa.Function, args []*anode, res *anode) {
	o := origin(f)
	pkg := ""
	if o.Pkg != nil {
		pkg = o.Pkg.Pkg.Path()
	} else if o.Object() != nil && o.Object().Pkg() != nil {
		pkg = o.Object().Pkg().Path()
	}
	e.std[f.String()] = true
	fresh := func() {
		for i := 0; i < f.Signature.Results().Len(); i++ {
			t := f.Signature.Results().At(i).Type()
			if !hasPointers(t) {
				continue
			}
			ot := t
			if p, ok := t.Underlying().(*types.Pointer); ok {
				ot = p.Elem()
			}
			o := e.newObj("new", ot, e.w.posStr(in.Pos())+" "+f.String()+fmt.Sprint(i))
			if types.IsInterface(t) {
				// unknown kind, but nobody else's
				o.class = "boundary"
			}
			e.add(res, aloc{o, ""})
		}
	}
	switch {
	case strings.HasPrefix(f.String(), "(*sync.Pool)"):
		// what a pool gives out belongs to one goroutine: the same as new
		if f.Name() == "Get" {
			o := e.newObj("pool", f.Signature.Results().At(0).Type(), "sync.Pool")
			e.add(res, aloc{o, ""})
		}
		return
	case f.String() == "(*sync.Once).Do":
		// initialization that happens once
		return
	case pkg == "sync/atomic":
		if len(args) > 0 && !strings.Contains(f.Name(), "Load") {
			e.write(fn, in.Pos(), args[0], "", "written by "+f.String())
		}
		for _, a := range args {
			e.flow(a, res)
		}
		return
	case pkg == "encoding/binary":
		if strings.Contains(f.Name(), "Put") && len(args) > 0 {
			for _, a := range args {
				e.write(fn, in.Pos(), a, "[]", "written by "+f.String())
			}
		}
		for _, a := range args {
			e.flow(a, res)
		}
		return
	case quietPkgs[pkg]:
		// calls back what it is given
		for i, a := range args {
			if i < len(f.Params) || true {
				e.callback(fn, in, a)
			}
		}
		for _, a := range args {
			e.flow(a, res)
		}
		fresh()
		return
	}
	// anything else: may write through slices, pointers and maps
	e.unknown[f.String()] = true
	sig := f.Signature
	var ts []types.Type
	if sig.Recv() != nil {
		ts = append(ts, sig.Recv().Type())
	}
	for i := 0; i < sig.Params().Len(); i++ {
		ts = append(ts, sig.Params().At(i).Type())
	}
	for i, a := range args {
		if i < len(ts) {
			switch ts[i].Underlying().(type) {
			case *types.Slice:
				if pkg == "bytes" && sig.Recv() == nil {
					break
				}
				e.write(fn, in.Pos(), a, "[]", "may be written by "+f.String())
			case *types.Pointer, *types.Map:
				e.write(fn, in.Pos(), a, "", "may be written by "+f.String())
			}
		}
		e.callback(fn, in, a)
		e.flow(a, res)
	}
	fresh()
}

// callback analyses functions that are handed to other code.
func (e *effects) callback(fn *ssa.Function, in ssa.Instruction, a *anode) {
	seen := map[*ssa.Function]bool{}
	e.on(a, func(d []aloc) {
		for _, l := range d {
			if l.o.fn != nil && !seen[l.o.fn] && !e.isStd(l.o.fn) {
				seen[l.o.fn] = true
				e.enter(l.o.fn, fn)
			}
		}
	})
}

func (e *effects) builtin(fn *ssa.Function, in ssa.Instruction, cc *ssa.CallCommon, f *ssa.Builtin, args []*anode, res *anode) {
	switch f.Name() {
	case "append":
		// in place if there is room, unless the capacity is cut off
		if s, ok := cc.Args[0].(*ssa.Slice); !ok || s.Max == nil || s.Max != s.High {
			if c, ok := cc.Args[0].(*ssa.Const); !ok || !c.IsNil() {
				e.write(fn, in.Pos(), args[0], "[]", "append")
			}
		}
		x := in.(ssa.Value)
		o := e.newObj("new", x.Type(), e.w.posStr(in.Pos())+" "+fn.String()+x.Name())
		e.add(res, aloc{o, ""})
		e.flow(args[0], res)
		tmp := &anode{}
		e.load(args[0], "[]", tmp)
		if len(args) > 1 {
			e.load(args[1], "[]", tmp)
		}
		e.store(res, "[]", tmp)
	case "copy":
		e.write(fn, in.Pos(), args[0], "[]", "copy")
		tmp := &anode{}
		e.load(args[1], "[]", tmp)
		e.store(args[0], "[]", tmp)
	case "delete", "clear":
		e.write(fn, in.Pos(), args[0], "[]", f.Name())
	case "ssa:wrapnilchk":
		e.flow(args[0], res)
	case "recover":
	default:
		for _, a := range args {
			e.flow(a, res)
		}
	}
}

// shared is all memory that can be reached from memory that existed before.
func (e *effects) shared(class map[string]bool) map[*aobj]string {
	out := map[*aobj]string{}
	var work []*aobj
	mark := func(o *aobj, why string) {
		if _, ok := out[o]; !ok && o.class != "boundary" && o.fn == nil {
			out[o] = why
			work = append(work, o)
		}
	}
	for _, o := range e.roots {
		if class[o.class] {
			mark(o, o.class)
		}
	}
	for len(work) > 0 {
		o := work[0]
		work = work[1:]
		for _, p := range e.byObj[o] {
			for l := range e.cells[aloc{o, p}].pts {
				if l.o.class == "new" || class[l.o.class] {
					why := out[o]
					if l.o.class == "new" && !strings.Contains(why, "stored") {
						why = "stored in " + why
					}
					mark(l.o, why)
				}
			}
		}
	}
	return out
}

func (e *effects) chain(fn *ssa.Function) string {
	var s []string
	for f := fn; f != nil && len(s) < 12; f = e.from[f] {
		s = append(s, strings.ReplaceAll(f.String(), modPath+"/", ""))
	}
	return strings.Join(s, " < ")
}

func (e *effects) pathName(l aloc) string {
	t := l.o.typ
	s := strings.ReplaceAll(typeKey(t), modPath+"/", "")
	cur := t
	for _, step := range strings.FieldsFunc(strings.ReplaceAll(l.path, "[", ".["), func(r rune) bool { return r == '.' }) {
		if strings.HasPrefix(step, "[") {
			s += "[]"
			cur = typeAt(aloc{&aobj{typ: cur}, "[]"})
		} else if st, ok := cur.Underlying().(*types.Struct); ok {
			n := 0
			fmt.Sscanf(step, "%d", &n)
			s += "." + st.Field(n).Name()
			cur = st.Field(n).Type()
		}
		if cur == nil {
			break
		}
	}
	return s
}
