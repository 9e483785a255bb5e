package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Frame struct {
	fn      *ssa.Function
	env     map[ssa.Value]Val
	defers  []func()
	forks   map[ssa.Instruction]int
	forked  bool
	panicV  *targetPanic
	results Val
}

func (c *Ctx) get(f *Frame, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return c.constVal(v)
	case *ssa.Global:
		return c.w.globalRef(v)
	case *ssa.Function:
		return FuncV{fn: v}
	case *ssa.Builtin:
		return FuncV{name: v.Name()}
	}
	r, ok := f.env[v]
	if !ok {
		c.unsupported("value %s in %s not computed", v.Name(), f.fn)
	}
	return r
}

func (c *Ctx) term(f *Frame, v ssa.Value) *Term {
	x := c.get(f, v)
	t, ok := x.(*Term)
	if !ok {
		c.unsupported("%s is not scalar: %s (%s)", v.Name(), vstr(x), f.fn)
	}
	return t
}

func (c *Ctx) constVal(k *ssa.Const) Val {
	t := k.Type()
	if k.Value == nil {
		return zeroOf(t)
	}
	switch k.Value.Kind() {
	case constant.Bool:
		return mkBool(constant.BoolVal(k.Value))
	case constant.String:
		return strOf(constant.StringVal(k.Value))
	case constant.Int:
		if isFloat(t) {
			f, _ := constant.Float64Val(k.Value)
			return floatTerm(f)
		}
		if i, ok := constant.Int64Val(k.Value); ok {
			return K(i)
		}
		u, _ := constant.Uint64Val(k.Value)
		return K(int64(u)) // two's complement
	case constant.Float:
		f, _ := constant.Float64Val(k.Value)
		if _, ok := isInt(t); ok {
			return K(int64(f))
		}
		return floatTerm(f)
	}
	c.unsupported("constant %s", k)
	return nil
}

func floatTerm(f float64) *Term {
	return mk(OApp, SInt, fmt.Sprintf("float:%v", f), 0)
}

// call runs fn on the abstract arguments.
func (c *Ctx) call(fn *ssa.Function, args []Val, bind []Val, pos token.Pos) Val {
	if c.skipInit && fn.Name() == "init" && fn.Synthetic != "" {
		return nil
	}
	if r, ok := c.model(fn, args, pos); ok {
		return r
	}
	if len(fn.Blocks) == 0 {
		c.unsupported("call of %s without body", fn)
	}
	return c.run(fn, args, bind)
}

func (c *Ctx) run(fn *ssa.Function, args []Val, bind []Val) Val {
	// bounded recursion under unknown conditions
	act := 0
	for _, fr := range c.stack {
		if fr.fn == fn && fr.forked {
			act++
		}
	}
	if act > c.cfg.RecK {
		panic(abortPath{"cut", "recursion " + fn.Name()})
	}
	if len(c.stack) > 2000 {
		c.unsupported("call depth")
	}
	if fn.Pkg != nil && c.w.repoPkg[fn.Pkg] && c.sd == 0 {
		c.ex.Funcs[fn] = true
	}
	f := &Frame{fn: fn, env: make(map[ssa.Value]Val, 16)}
	for i, p := range fn.Params {
		f.env[p] = args[i]
	}
	for i, fv := range fn.FreeVars {
		f.env[fv] = bind[i]
	}
	c.stack = append(c.stack, f)
	depth := len(c.stack)
	savedP := c.lastP
	res, tp := c.runBlocks(f)
	if tp != nil {
		f.panicV = tp
		c.stack = c.stack[:depth]
		c.runDefers(f)
		if f.panicV != nil {
			c.stack = c.stack[:depth-1]
			panic(*f.panicV)
		}
		// recovered
		res = f.results
		if fn.Recover != nil {
			res, tp = c.runFrom(f, fn.Recover)
			if tp != nil {
				c.stack = c.stack[:depth-1]
				panic(*tp)
			}
		} else if res == nil {
			res = zeroResults(fn)
		}
	}
	c.stack = c.stack[:depth-1]
	c.lastP = savedP
	return res
}

func zeroResults(fn *ssa.Function) Val {
	r := fn.Signature.Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return zeroOf(r.At(0).Type())
	}
	return zeroOf(r)
}

func (c *Ctx) runDefers(f *Frame) {
	for len(f.defers) > 0 {
		d := f.defers[len(f.defers)-1]
		f.defers = f.defers[:len(f.defers)-1]
		d()
	}
}

func (c *Ctx) runBlocks(f *Frame) (res Val, tp *targetPanic) {
	return c.runFrom(f, f.fn.Blocks[0])
}

func (c *Ctx) runFrom(f *Frame, b *ssa.BasicBlock) (res Val, tp *targetPanic) {
	hasDefer := f.fn.Recover != nil
	if hasDefer {
		defer func() {
			if r := recover(); r != nil {
				if t, ok := r.(targetPanic); ok {
					tp = &t
					return
				}
				panic(r)
			}
		}()
	}
	return c.loop(f, b), nil
}

func (c *Ctx) loop(f *Frame, b *ssa.BasicBlock) Val {
	var prev *ssa.BasicBlock
	var phiBuf []Val
	for {
		// phis
		np := 0
		if prev != nil {
			pi := -1
			for i, p := range b.Preds {
				if p == prev {
					pi = i
					break
				}
			}
			phiBuf = phiBuf[:0]
			for _, in := range b.Instrs {
				phi, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				phiBuf = append(phiBuf, c.get(f, phi.Edges[pi]))
				np++
			}
			for i := 0; i < np; i++ {
				f.env[b.Instrs[i].(*ssa.Phi)] = phiBuf[i]
			}
		}
		var next *ssa.BasicBlock
		for _, in := range b.Instrs[np:] {
			c.steps++
			if c.steps > c.cfg.Steps {
				c.unsupported("step limit")
			}
			if p := in.Pos(); p.IsValid() {
				c.lastP = p
			}
			switch in := in.(type) {
			case *ssa.Phi:
				// entry block without predecessor
			case *ssa.If:
				cond := c.term(f, in.Cond)
				v, forked := c.branchF(cond)
				if forked {
					f.forked = true
					if f.forks == nil {
						f.forks = map[ssa.Instruction]int{}
					}
					f.forks[in]++
					if f.forks[in] > c.cfg.LoopK {
						panic(abortPath{"cut", "loop in " + f.fn.Name()})
					}
					for i := len(c.stack) - 2; i >= 0 && !c.stack[i].forked; i-- {
						c.stack[i].forked = true
					}
				}
				if c.sd == 0 && cond.op != OTrue && cond.op != OFalse {
					c.trail = append(c.trail, c.posOf(in.Cond, c.lastP))
				}
				if v {
					next = b.Succs[0]
				} else {
					next = b.Succs[1]
				}
			case *ssa.Jump:
				next = b.Succs[0]
			case *ssa.Return:
				switch len(in.Results) {
				case 0:
					return nil
				case 1:
					return c.get(f, in.Results[0])
				}
				out := make(TupleV, len(in.Results))
				for i, r := range in.Results {
					out[i] = c.get(f, r)
				}
				return out
			case *ssa.Panic:
				x := c.get(f, in.X)
				panic(targetPanic{v: x, why: "panic(" + vstr(x) + ")", pos: in.Pos()})
			case *ssa.RunDefers:
				c.runDefers(f)
			case *ssa.Defer:
				fnv, args := c.prepCall(f, &in.Call)
				p := in.Pos()
				call := in.Call
				f.defers = append(f.defers, func() { c.doCall(f, &call, fnv, args, p) })
			case *ssa.Go:
				fnv, args := c.prepCall(f, &in.Call)
				c.doCall(f, &in.Call, fnv, args, in.Pos())
			case *ssa.Store:
				c.store(c.term(f, in.Addr), c.get(f, in.Val))
			case *ssa.MapUpdate:
				c.mapUpdate(c.term(f, in.Map), c.get(f, in.Key), c.get(f, in.Value))
			case *ssa.DebugRef:
			case ssa.Value:
				f.env[in] = c.eval(f, in)
			default:
				c.unsupported("instruction %s", in)
			}
			if next != nil {
				break
			}
		}
		if next == nil {
			c.unsupported("block without successor in %s", f.fn)
		}
		prev, b = b, next
	}
}

func (c *Ctx) posOf(v ssa.Value, d token.Pos) token.Pos {
	if v.Pos().IsValid() {
		return v.Pos()
	}
	return d
}

func (c *Ctx) prepCall(f *Frame, call *ssa.CallCommon) (Val, []Val) {
	args := make([]Val, 0, len(call.Args)+1)
	fv := c.get(f, call.Value)
	for _, a := range call.Args {
		args = append(args, c.get(f, a))
	}
	return fv, args
}

func (c *Ctx) doCall(f *Frame, call *ssa.CallCommon, fv Val, args []Val, pos token.Pos) Val {
	if call.IsInvoke() {
		return c.invoke(fv, call, args, pos)
	}
	switch fn := fv.(type) {
	case FuncV:
		if fn.native != nil {
			return fn.native(c, args)
		}
		if fn.fn == nil {
			return c.builtin(f, fn.name, call, args)
		}
		return c.call(fn.fn, args, fn.bind, pos)
	case *Term:
		if c.ref(fn) == tNil {
			c.panicT("call of nil function")
		}
		// unknown function value
		return c.event("call "+fn.String(), args, call.Signature().Results(), pos)
	}
	c.unsupported("call of %s", vstr(fv))
	return nil
}

func resultVal(res *types.Tuple, base *Term) Val {
	switch res.Len() {
	case 0:
		return nil
	case 1:
		return symOf(res.At(0).Type(), base)
	}
	return symOf(res, base)
}

// event records a call whose effect is not analysed further.
func (c *Ctx) event(name string, args []Val, res *types.Tuple, pos token.Pos) Val {
	s := c.s()
	snap := make([]Val, len(args))
	for i, a := range args {
		snap[i] = c.snapshot(a)
	}
	s.events = append(s.events, Event{name: name, args: snap, pos: pos})
	if res == nil {
		return nil
	}
	v := resultVal(res, refTerm(OEv, name, int64(len(s.events))))
	s.events[len(s.events)-1].res = v
	s.events[len(s.events)-1].rest = res
	return v
}

// fill stores an unknown value through the pointer in the last argument of the
// last event.
func (c *Ctx) fill(args []Val) {
	s := c.s()
	if len(args) == 0 {
		return
	}
	iv, ok := args[len(args)-1].(IfaceV)
	if !ok || iv.t == nil {
		return
	}
	pt, ok := iv.t.Underlying().(*types.Pointer)
	if !ok {
		return
	}
	n := len(s.events)
	v := symOf(pt.Elem(), refTerm(OEv, "decoded", int64(n)))
	c.store(c.addrOf(iv.v, "decoded value"), v)
	s.events[n-1].out = IfaceV{t: pt.Elem(), v: v}
}

// snapshot replaces slices by their present contents.
func (c *Ctx) snapshot(v Val) Val {
	switch v := v.(type) {
	case SliceV:
		et := types.Type(byteT)
		if b := c.ref(v.base); b != tNil {
			if s, ok := c.load(b).(SeqV); ok {
				et = s.et
			}
		}
		return c.sliceSeq(v, et)
	case IfaceV:
		return IfaceV{v.t, c.snapshot(v.v)}
	}
	return v
}

// concrete makes the dynamic type of an interface value known if possible.
func (c *Ctx) concrete(v Val, it types.Type) Val {
	t, ok := v.(*Term)
	if !ok {
		return v
	}
	t = c.ref(t)
	if t == tNil {
		return t
	}
	if ty, ok := c.f.types[t]; ok {
		return IfaceV{ty, symOf(ty, refTerm(ODyn, tyKey(ty), 0, t))}
	}
	return t
}

func (c *Ctx) invoke(recv Val, call *ssa.CallCommon, args []Val, pos token.Pos) Val {
	recv = c.concrete(recv, call.Value.Type())
	name := call.Method.Name()
	if t, ok := recv.(*Term); ok {
		if t == tNil {
			c.panicT("nil interface: method " + name)
		}
		if t.op == OApp && t.name == "rtype" {
			return c.rtypeMethod(t, name)
		}
		cands := c.cfg.Candidates[tyKey(call.Value.Type())]
		for _, ct := range cands {
			if c.branch(isTyTerm(t, ct)) {
				return c.invoke(c.concrete(t, call.Value.Type()), call, args, pos)
			}
		}
		c.nonNil(t)
		all := append([]Val{recv}, args...)
		return c.event("."+name, all, call.Signature().Results(), pos)
	}
	iv, ok := recv.(IfaceV)
	if !ok {
		c.unsupported("method %s of %s", name, vstr(recv))
	}
	m := c.w.method(iv.t, call.Method)
	if m == nil {
		c.unsupported("method %s of %s not found", name, iv.t)
	}
	return c.call(m, append([]Val{iv.v}, args...), nil, pos)
}

// nonNil records that t is dereferenced.
func (c *Ctx) nonNil(t *Term) {
	l := EqRef(t, tNil)
	if l == tFalse {
		return
	}
	if l == tTrue {
		c.panicT("nil pointer dereference")
	}
	if c.cfg.Strict && c.sd == 0 {
		if c.branch(l) {
			c.panicT("nil pointer dereference")
		}
		return
	}
	switch c.f.decide(l) {
	case 1:
		c.panicT("nil pointer dereference")
	case 2:
		c.assumeLit(l, false)
	}
}

// inRange records lo <= x <= hi (as demanded by the language).
func (c *Ctx) inRange(lo, x, hi *Term, why string) {
	for _, l := range []*Term{Le(lo, x), Le(x, hi)} {
		if l == tTrue {
			continue
		}
		if l == tFalse {
			c.panicT(why)
		}
		if c.cfg.Strict && c.sd == 0 {
			if !c.branch(l) {
				c.panicT(why)
			}
			continue
		}
		switch c.f.decide(l) {
		case 0:
			c.panicT(why)
		case 2:
			c.assumeLit(l, true)
		}
	}
}

func (c *Ctx) addrOf(v Val, what string) *Term {
	t, ok := v.(*Term)
	if !ok {
		c.unsupported("%s: not a pointer: %s", what, vstr(v))
	}
	t = c.ref(t)
	if t.op != OFieldAddr && t.op != OIndexAddr && t.op != OFresh {
		c.nonNil(t)
	}
	return t
}

func (c *Ctx) eval(f *Frame, in ssa.Value) Val {
	switch in := in.(type) {
	case *ssa.Alloc:
		et := in.Type().Underlying().(*types.Pointer).Elem()
		r := c.fresh(et)
		c.s().heap[r] = zeroOf(et)
		return r
	case *ssa.FieldAddr:
		p := c.addrOf(c.get(f, in.X), "field")
		st := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		r := refTerm(OFieldAddr, st.Field(in.Field).Name(), int64(in.Field), p)
		r.typ = st.Field(in.Field).Type()
		return r
	case *ssa.IndexAddr:
		idx := c.term(f, in.Index)
		switch x := c.get(f, in.X).(type) {
		case SliceV:
			c.inRange(K(0), idx, AddK(x.ln, -1), "index out of range")
			r := refTerm(OIndexAddr, "", 0, c.ref(x.base), c.f.canon(Add(x.off, idx)))
			if r.typ == nil {
				r.typ = in.Type().Underlying().(*types.Pointer).Elem()
			}
			return r
		case *Term:
			p := c.addrOf(x, "index")
			at := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
			c.inRange(K(0), idx, K(at.Len()-1), "index out of range")
			r := refTerm(OIndexAddr, "", 0, p, c.f.canon(idx))
			if r.typ == nil {
				r.typ = at.Elem()
			}
			return r
		}
		c.unsupported("index of %s", vstr(c.get(f, in.X)))
	case *ssa.UnOp:
		return c.unop(f, in)
	case *ssa.BinOp:
		return c.binop(in.Op, c.get(f, in.X), c.get(f, in.Y), in.X.Type(), in.Type())
	case *ssa.Call:
		fv, args := c.prepCall(f, &in.Call)
		return c.doCall(f, &in.Call, fv, args, in.Pos())
	case *ssa.Field:
		sv, ok := c.get(f, in.X).(StructV)
		if !ok {
			c.unsupported("field of %s", vstr(c.get(f, in.X)))
		}
		return sv.f[in.Field]
	case *ssa.Index:
		idx := c.term(f, in.Index)
		switch x := c.get(f, in.X).(type) {
		case SeqV:
			c.inRange(K(0), idx, AddK(seqLen(x), -1), "index out of range")
			return c.seqAt(x, idx)
		case StrV:
			c.inRange(K(0), idx, AddK(seqLen(x.s), -1), "index out of range")
			return c.seqAt(x.s, idx)
		}
		c.unsupported("index of %s", vstr(c.get(f, in.X)))
	case *ssa.Extract:
		tv, ok := c.get(f, in.Tuple).(TupleV)
		if !ok {
			c.unsupported("extract from %s", vstr(c.get(f, in.Tuple)))
		}
		return tv[in.Index]
	case *ssa.MakeInterface:
		return IfaceV{in.X.Type(), c.get(f, in.X)}
	case *ssa.ChangeInterface:
		return c.get(f, in.X)
	case *ssa.ChangeType:
		return c.get(f, in.X)
	case *ssa.Convert:
		return c.convert(c.get(f, in.X), in.X.Type(), in.Type())
	case *ssa.MultiConvert:
		return c.convert(c.get(f, in.X), in.X.Type(), in.Type())
	case *ssa.TypeAssert:
		return c.typeAssert(c.get(f, in.X), in.AssertedType, in.CommaOk)
	case *ssa.MakeSlice:
		et := in.Type().Underlying().(*types.Slice).Elem()
		ln, cp := c.term(f, in.Len), c.term(f, in.Cap)
		c.inRange(K(0), ln, cp, "makeslice: len out of range")
		b := c.fresh(et)
		if n, ok := cp.isConst(); ok && n <= 64 {
			ps := make([]Piece, n)
			z := zeroOf(et)
			for i := range ps {
				ps[i] = Piece{v: z}
			}
			c.s().heap[b] = SeqV{et, ps}
		} else {
			c.s().heap[b] = SeqV{et, []Piece{{v: zeroOf(et), n: cp}}}
		}
		return SliceV{b, K(0), ln, cp, tFalse}
	case *ssa.Slice:
		return c.slice(f, in)
	case *ssa.MakeMap:
		r := c.fresh(in.Type())
		c.s().heap[r] = &MapV{mt: in.Type().Underlying().(*types.Map)}
		return r
	case *ssa.MakeClosure:
		bind := make([]Val, len(in.Bindings))
		for i, b := range in.Bindings {
			bind[i] = c.get(f, b)
		}
		return FuncV{fn: in.Fn.(*ssa.Function), bind: bind}
	case *ssa.Lookup:
		return c.lookup(c.get(f, in.X), c.get(f, in.Index), in)
	case *ssa.Range:
		return c.rangeIter(c.get(f, in.X))
	case *ssa.Next:
		return c.iterNext(c.get(f, in.Iter).(IterV), in)
	case *ssa.SliceToArrayPointer:
		x := c.get(f, in.X).(SliceV)
		if o, ok := x.off.isConst(); ok && o == 0 {
			return x.base
		}
	}
	c.unsupported("%s (%T) in %s", in, in, f.fn)
	return nil
}

func (c *Ctx) slice(f *Frame, in *ssa.Slice) Val {
	var lo, hi, mx *Term
	if in.Low != nil {
		lo = c.term(f, in.Low)
	} else {
		lo = K(0)
	}
	if in.High != nil {
		hi = c.term(f, in.High)
	}
	if in.Max != nil {
		mx = c.term(f, in.Max)
	}
	const why = "slice bounds out of range"
	switch x := c.get(f, in.X).(type) {
	case StrV:
		n := seqLen(x.s)
		if hi == nil {
			hi = n
		}
		c.inRange(K(0), lo, hi, why)
		c.inRange(lo, hi, n, why)
		return StrV{c.seqSlice(x.s, lo, hi)}
	case SliceV:
		if hi == nil {
			hi = x.ln
		}
		if mx == nil {
			mx = x.cp
		}
		c.capFacts(x)
		c.inRange(K(0), lo, hi, why)
		c.inRange(lo, hi, mx, why)
		c.inRange(hi, mx, x.cp, why)
		r := SliceV{x.base, Add(x.off, lo), Sub(hi, lo), Sub(mx, lo), x.isnil}
		return r
	case *Term:
		p := c.addrOf(x, "slice")
		at := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		n := K(at.Len())
		if hi == nil {
			hi = n
		}
		if mx == nil {
			mx = n
		}
		c.inRange(K(0), lo, hi, why)
		c.inRange(lo, hi, mx, why)
		c.inRange(hi, mx, n, why)
		return SliceV{p, lo, Sub(hi, lo), Sub(mx, lo), tFalse}
	}
	c.unsupported("slice of %s", vstr(c.get(f, in.X)))
	return nil
}

// capFacts records the invariants of a slice header.
func (c *Ctx) capFacts(x SliceV) {
	if _, ok := x.cp.isConst(); ok {
		if _, ok := x.ln.isConst(); ok {
			return
		}
	}
	l := Le(x.ln, x.cp)
	if l.op == OLe {
		if c.f.decide(l) == 2 {
			c.assumeLit(l, true)
		}
	}
}

func (c *Ctx) unop(f *Frame, in *ssa.UnOp) Val {
	switch in.Op {
	case token.MUL:
		return c.load(c.addrOf(c.get(f, in.X), "load"))
	case token.NOT:
		return Not(c.term(f, in.X))
	case token.SUB:
		if isFloat(in.Type()) {
			return mk(OApp, SInt, "fneg", 0, c.term(f, in.X))
		}
		return c.wrap(Scale(c.term(f, in.X), -1), in.Type())
	case token.XOR:
		b, _ := isInt(in.Type())
		x := toBits(c.f.canon(c.term(f, in.X)))
		out := make([]*BNode, 64)
		for i := range out {
			out[i] = bNot(x[i])
		}
		return truncBits(out, b)
	}
	c.unsupported("unary %s", in.Op)
	return nil
}

func bitWidth(b *types.Basic) (int, bool) { // width, signed
	switch b.Kind() {
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false
	}
	return 64, true
}

func truncBits(bs []*BNode, b *types.Basic) *Term {
	w, signed := bitWidth(b)
	out := make([]*BNode, 64)
	for i := range out {
		switch {
		case i < w:
			out[i] = bs[i]
		case signed:
			out[i] = bs[w-1]
		default:
			out[i] = bFalse
		}
	}
	return fromBits(out)
}

// wrap reduces an integer to the range of its type.
func (c *Ctx) wrap(t *Term, ty types.Type) *Term {
	b, ok := isInt(ty)
	if !ok {
		return t
	}
	w, signed := bitWidth(b)
	if w == 64 && signed {
		return t
	}
	if k, ok := t.isConst(); ok {
		switch {
		case w == 64:
			return t
		case signed:
			sh := uint(64 - w)
			return K(k << sh >> sh)
		default:
			return K(k & (int64(1)<<uint(w) - 1))
		}
	}
	lo, hi, _ := intRange(b)
	tl, th := t.interval()
	if tl >= lo && th <= hi && tl != NegInf {
		return t
	}
	if w == 64 { // unsigned 64 bit: values are taken to be below 2^63
		if t.op == OBVec {
			return t
		}
		if tl < 0 {
			if !c.branch(Le(K(0), t)) {
				return mk(OApp, SInt, "wrap64", 0, t)
			}
		}
		return t
	}
	t = c.f.canon(t)
	if c.branch(Le(K(lo), t)) {
		if c.branch(Le(t, K(hi))) {
			return t
		}
		if c.branch(Le(t, K(hi+int64(1)<<uint(w)))) {
			return AddK(t, -(int64(1) << uint(w)))
		}
	} else if c.branch(Le(K(lo-int64(1)<<uint(w)), t)) {
		return AddK(t, int64(1)<<uint(w))
	}
	return truncBits(toBits(t), b)
}

func (c *Ctx) binop(op token.Token, x, y Val, xt, rt types.Type) Val {
	switch op {
	case token.EQL:
		return c.eqTerm(x, y, xt)
	case token.NEQ:
		return Not(c.eqTerm(x, y, xt))
	}
	if isStr(xt) {
		a, b := x.(StrV), y.(StrV)
		switch op {
		case token.ADD:
			return StrV{seqCat(a.s, b.s)}
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			ab, ok1 := concBytes(a.s)
			bb, ok2 := concBytes(b.s)
			if !ok1 || !ok2 {
				c.unsupported("string comparison")
			}
			r := strings.Compare(string(ab), string(bb))
			switch op {
			case token.LSS:
				return mkBool(r < 0)
			case token.LEQ:
				return mkBool(r <= 0)
			case token.GTR:
				return mkBool(r > 0)
			}
			return mkBool(r >= 0)
		}
	}
	a, ok1 := x.(*Term)
	b, ok2 := y.(*Term)
	if !ok1 || !ok2 {
		c.unsupported("operator %s on %s", op, xt)
	}
	if isFloat(xt) {
		switch op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			if op == token.GTR {
				a, b, op = b, a, token.LSS
			} else if op == token.GEQ {
				a, b, op = b, a, token.LEQ
			}
			return mk(OApp, SBool, "f"+op.String(), 0, a, b)
		}
		return mk(OApp, SInt, "f"+op.String(), 0, a, b)
	}
	bt, isI := isInt(xt)
	if !isI {
		// booleans are compiled to control flow, except for & | on bool which Go lacks
		c.unsupported("operator %s on %s", op, xt)
	}
	switch op {
	case token.ADD:
		return c.wrap(Add(a, b), rt)
	case token.SUB:
		return c.wrap(Sub(a, b), rt)
	case token.MUL:
		return c.wrap(Mul(a, b), rt)
	case token.LSS:
		return c.cmpLt(a, b, bt)
	case token.LEQ:
		return Not(c.cmpLt(b, a, bt))
	case token.GTR:
		return c.cmpLt(b, a, bt)
	case token.GEQ:
		return Not(c.cmpLt(a, b, bt))
	case token.QUO, token.REM:
		return c.divide(op, a, b)
	case token.SHL:
		if k, ok := c.f.canon(b).isConst(); ok {
			if k >= 64 || k < 0 {
				return K(0)
			}
			w, _ := bitWidth(bt)
			if ca, ok := a.isConst(); ok {
				return c.wrap(K(ca<<uint(k)), rt)
			}
			_, hi := a.interval()
			lo, _ := a.interval()
			if lo >= 0 && hi != PosInf && k < 62 && hi <= (int64(1)<<uint(62-k)) && (w == 64 || hi<<uint(k) < int64(1)<<uint(w)) {
				return Scale(a, int64(1)<<uint(k))
			}
			bs := toBits(c.f.canon(a))
			out := make([]*BNode, 64)
			for i := range out {
				if i < int(k) {
					out[i] = bFalse
				} else {
					out[i] = bs[i-int(k)]
				}
			}
			return truncBits(out, bt)
		}
		return c.symShift(op, a, b, bt)
	case token.SHR:
		if k, ok := c.f.canon(b).isConst(); ok {
			_, signed := bitWidth(bt)
			if ca, ok := a.isConst(); ok {
				if signed {
					if k > 63 {
						k = 63
					}
					return K(ca >> uint(k))
				}
				if k > 63 {
					return K(0)
				}
				return K(int64(uint64(ca) >> uint(k)))
			}
			bs := toBits(c.f.canon(a))
			out := make([]*BNode, 64)
			for i := range out {
				switch {
				case i+int(k) < 64:
					out[i] = bs[i+int(k)]
				case signed:
					out[i] = bs[63]
				default:
					out[i] = bFalse
				}
			}
			return fromBits(out)
		}
		return c.symShift(op, a, b, bt)
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		if ca, ok := a.isConst(); ok {
			if cb, ok := b.isConst(); ok {
				switch op {
				case token.AND:
					return K(ca & cb)
				case token.OR:
					return K(ca | cb)
				case token.XOR:
					return K(ca ^ cb)
				}
				return K(ca &^ cb)
			}
		}
		x, y := toBits(c.f.canon(a)), toBits(c.f.canon(b))
		out := make([]*BNode, 64)
		for i := range out {
			switch op {
			case token.AND:
				out[i] = bAnd(x[i], y[i])
			case token.OR:
				out[i] = bOr(x[i], y[i])
			case token.XOR:
				out[i] = bXor(x[i], y[i])
			default:
				out[i] = bAnd(x[i], bNot(y[i]))
			}
		}
		return fromBits(out)
	}
	c.unsupported("operator %s", op)
	return nil
}

// shift by an unknown amount: case split
func (c *Ctx) symShift(op token.Token, a, b *Term, bt *types.Basic) Val {
	lo, hi := c.f.canon(b).interval()
	if lo < 0 || hi > 255 {
		lo, hi = 0, 64
		c.assume(Le(K(0), b))
	}
	if hi > 64 {
		hi = 64
	}
	for k := lo; k < hi; k++ {
		if c.branch(EqI(b, K(k))) {
			return c.binop(op, a, K(k), bt, bt)
		}
	}
	return c.binop(op, a, K(hi), bt, bt)
}

func (c *Ctx) cmpLt(a, b *Term, bt *types.Basic) *Term {
	if w, signed := bitWidth(bt); w == 64 && !signed {
		// constants above 2^63 are represented by negative numbers
		if k, ok := a.isConst(); ok && k < 0 {
			if k2, ok := b.isConst(); ok {
				return mkBool(uint64(k) < uint64(k2))
			}
			return tFalse
		}
		if k, ok := b.isConst(); ok && k < 0 {
			return tTrue
		}
	}
	return c.f.canon(Lt(a, b))
}

func (c *Ctx) divide(op token.Token, a, b *Term) *Term {
	a, b = c.f.canon(a), c.f.canon(b)
	cb, ok := b.isConst()
	if !ok {
		if c.branch(EqI(b, K(0))) {
			c.panicT("division by zero")
		}
		q := mk(OApp, SInt, "div", 0, a, b)
		if op == token.QUO {
			return q
		}
		return Sub(a, Mul(q, b))
	}
	if cb == 0 {
		c.panicT("division by zero")
	}
	if ca, ok := a.isConst(); ok {
		if op == token.QUO {
			return K(ca / cb)
		}
		return K(ca % cb)
	}
	if cb < 0 {
		c.unsupported("division by negative constant")
	}
	if cb == 1 {
		if op == token.QUO {
			return a
		}
		return K(0)
	}
	// exact?
	if !c.branch(Le(K(0), a)) {
		// truncation towards zero
		q := c.divide(token.QUO, Scale(a, -1), b)
		if op == token.QUO {
			return Scale(q, -1)
		}
		return Add(a, Scale(q, cb))
	}
	q := ranged(mk(OApp, SInt, "div", 0, a, b), 0, PosInf)
	// q*cb <= a <= q*cb + cb - 1
	c.assume(Le(Scale(q, cb), a))
	c.assume(Le(a, AddK(Scale(q, cb), cb-1)))
	if op == token.QUO {
		return c.f.canon(q)
	}
	return Sub(a, Scale(q, cb))
}

// eqTerm is the condition that two values are equal.
func (c *Ctx) eqTerm(x, y Val, t types.Type) *Term {
	switch a := x.(type) {
	case *Term:
		switch b := y.(type) {
		case *Term:
			return c.eqScalar(a, b)
		case SliceV:
			return c.eqTerm(y, x, t)
		case IfaceV:
			return c.eqIface(b, a)
		case FuncV:
			return c.eqTerm(y, x, t)
		}
	case FuncV:
		if b, ok := y.(*Term); ok && b == tNil {
			return tFalse
		}
	case SliceV:
		if b, ok := y.(SliceV); ok {
			if b.isnil == tTrue {
				return c.isNilSlice(a)
			}
			if a.isnil == tTrue {
				return c.isNilSlice(b)
			}
		}
	case StrV:
		return mkBool(c.seqEq(a.s, y.(StrV).s, byteT))
	case SeqV:
		return mkBool(c.seqEq(a, y.(SeqV), a.et))
	case StructV:
		b := y.(StructV)
		st := t.Underlying().(*types.Struct)
		for i := range a.f {
			if !c.branch(c.eqTerm(a.f[i], b.f[i], st.Field(i).Type())) {
				return tFalse
			}
		}
		return tTrue
	case IfaceV:
		switch b := y.(type) {
		case IfaceV:
			if !types.Identical(a.t, b.t) {
				return tFalse
			}
			if !types.Comparable(a.t) {
				c.panicT("comparing uncomparable type " + a.t.String())
			}
			return c.eqTerm(a.v, b.v, a.t)
		case *Term:
			return c.eqIface(a, b)
		}
	}
	c.unsupported("comparison of %s and %s", vstr(x), vstr(y))
	return nil
}

func (c *Ctx) eqIface(a IfaceV, b *Term) *Term {
	b = c.ref(b)
	if b == tNil {
		return tFalse
	}
	if !c.branch(isTyTerm(b, a.t)) {
		return tFalse
	}
	return c.eqTerm(a.v, symOf(a.t, refTerm(ODyn, tyKey(a.t), 0, b)), a.t)
}

func (c *Ctx) eqScalar(a, b *Term) *Term {
	a, b = c.f.canon(a), c.f.canon(b)
	switch a.sort {
	case SInt:
		if a.op == OBVec || b.op == OBVec {
			return eqBits(a, b)
		}
		return c.f.canon(EqI(a, b))
	case SBool:
		return bTerm(bNot(bXor(bVar(a), bVar(b))))
	}
	return c.f.canon(EqRef(a, b))
}

func eqBits(a, b *Term) *Term {
	x, y := toBits(a), toBits(b)
	r := bTrue
	for i := range x {
		r = bAnd(r, bNot(bXor(x[i], y[i])))
	}
	return bTerm(r)
}

// seqEq splits the path on the equality of two sequences.
func (c *Ctx) seqEq(a, b SeqV, et types.Type) bool {
	la, lb := seqLen(a), seqLen(b)
	if !c.branch(EqI(la, lb)) {
		return false
	}
	r, why := c.seqCmp(a, b, func(x, y Val) bool {
		return c.branch(c.eqTerm(x, y, et))
	})
	if why != "" {
		c.unsupported("sequence comparison: %s", why)
	}
	return r
}

// seqCmp compares two sequences of equal length element by element.
func (c *Ctx) seqCmp(a, b SeqV, eq func(x, y Val) bool) (bool, string) {
	pa, pb := simp(c.canonSeq(a)).ps, simp(c.canonSeq(b)).ps
	for {
		for len(pa) > 0 && c.f.decide(EqI(pa[0].len(), K(0))) == 1 {
			pa = pa[1:]
		}
		for len(pb) > 0 && c.f.decide(EqI(pb[0].len(), K(0))) == 1 {
			pb = pb[1:]
		}
		if len(pa) == 0 && len(pb) == 0 {
			return true, ""
		}
		if len(pa) == 0 || len(pb) == 0 {
			rest := pa
			if len(pa) == 0 {
				rest = pb
			}
			// lengths are equal, so the rest must be empty
			for _, p := range rest {
				if !c.branch(EqI(p.len(), K(0))) {
					return false, ""
				}
			}
			return true, ""
		}
		x, y := pa[0], pb[0]
		lx, ly := x.len(), y.len()
		// same atom, same start
		if x.t != nil && y.t != nil && c.ref(x.t) == c.ref(y.t) && c.f.decide(EqI(x.from, y.from)) == 1 {
			if c.branch(Le(lx, ly)) {
				pa = pa[1:]
				pb = append([]Piece{{t: y.t, from: Add(y.from, lx), to: y.to}}, pb[1:]...)
			} else {
				pb = pb[1:]
				pa = append([]Piece{{t: x.t, from: Add(x.from, ly), to: x.to}}, pa[1:]...)
			}
			continue
		}
		// empty pieces
		if (x.t != nil || x.n != nil) && c.branch(Le(lx, K(0))) {
			pa = pa[1:]
			continue
		}
		if (y.t != nil || y.n != nil) && c.branch(Le(ly, K(0))) {
			pb = pb[1:]
			continue
		}
		// both repetitions of the same value
		if x.n != nil && y.n != nil {
			if !eq(x.v, y.v) {
				return false, ""
			}
			if c.branch(Le(lx, ly)) {
				pa = pa[1:]
				pb = append([]Piece{{v: y.v, n: Sub(ly, lx)}}, pb[1:]...)
			} else {
				pb = pb[1:]
				pa = append([]Piece{{v: x.v, n: Sub(lx, ly)}}, pa[1:]...)
			}
			continue
		}
		if x.t != nil && y.t != nil || x.t != nil && y.n != nil || x.n != nil && y.t != nil {
			// different unknown sequences: they may differ in their first element
			c.noted["atoms"] = true
			ev := c.pieceAt(x, a.et)
			fv := c.pieceAt(y, a.et)
			if !eq(ev, fv) {
				return false, ""
			}
			kx, ok1 := c.f.canon(lx).isConst()
			ky, ok2 := c.f.canon(ly).isConst()
			if ok1 && kx <= 64 || ok2 && ky <= 64 {
				pa = dropOne(pa)
				pb = dropOne(pb)
				continue
			}
			return false, fmt.Sprintf("%s and %s", vstr(SeqV{a.et, []Piece{x}}), vstr(SeqV{a.et, []Piece{y}}))
		}
		// compare one element
		if !eq(c.pieceAt(x, a.et), c.pieceAt(y, a.et)) {
			return false, ""
		}
		pa = dropOne(pa)
		pb = dropOne(pb)
	}
}

func (c *Ctx) pieceAt(p Piece, et types.Type) Val {
	if p.t != nil {
		return c.atomAt(et, p.t, c.f.canon(p.from))
	}
	return p.v
}

func dropOne(ps []Piece) []Piece {
	p := ps[0]
	switch {
	case p.t != nil:
		return append([]Piece{{t: p.t, from: AddK(p.from, 1), to: p.to}}, ps[1:]...)
	case p.n != nil:
		return append([]Piece{{v: p.v, n: AddK(p.n, -1)}}, ps[1:]...)
	}
	return ps[1:]
}

func (c *Ctx) canonSeq(s SeqV) SeqV {
	if len(c.f.subst) == 0 {
		return s
	}
	any := false
	for _, p := range s.ps {
		if p.t != nil || p.n != nil {
			any = true
		}
	}
	if !any {
		return s
	}
	out := make([]Piece, len(s.ps))
	for i, p := range s.ps {
		if p.t != nil {
			p.t, p.from, p.to = c.f.canon(p.t), c.f.canon(p.from), c.f.canon(p.to)
		} else if p.n != nil {
			p.n = c.f.canon(p.n)
		}
		out[i] = p
	}
	return SeqV{s.et, out}
}

func (c *Ctx) typeAssert(x Val, at types.Type, commaOk bool) Val {
	ok, v := c.typeTest(x, at, commaOk)
	if commaOk {
		if ok {
			return TupleV{v, tTrue}
		}
		return TupleV{zeroOf(at), tFalse}
	}
	if !ok {
		c.panicT("interface conversion: not " + at.String())
	}
	return v
}

func (c *Ctx) typeTest(x Val, at types.Type, commaOk bool) (bool, Val) {
	x = c.concrete(x, nil)
	_, isI := at.Underlying().(*types.Interface)
	switch v := x.(type) {
	case IfaceV:
		if isI {
			return types.Implements(v.t, at.Underlying().(*types.Interface)), v
		}
		if types.Identical(v.t, at) {
			return true, v.v
		}
		return false, nil
	case *Term:
		if v == tNil {
			return false, nil
		}
		if isI {
			// decided if the static type implements the interface
			if v.typ != nil {
				if it, ok := v.typ.Underlying().(*types.Interface); ok && types.Implements(it, at.Underlying().(*types.Interface)) {
					if c.branch(EqRef(v, tNil)) {
						return false, nil
					}
					return true, v
				}
			}
			if commaOk {
				if c.branch(mk(OApp, SBool, "implements "+tyKey(at), 0, v)) {
					return true, v
				}
				return false, nil
			}
			return true, v
		}
		l := isTyTerm(v, at)
		if !commaOk {
			if c.f.decide(l) == 0 {
				return false, nil
			}
			c.assume(l)
		} else if !c.branch(l) {
			return false, nil
		}
		return true, symOf(at, refTerm(ODyn, tyKey(at), 0, c.ref(v)))
	}
	c.unsupported("type test on %s", vstr(x))
	return false, nil
}

func (c *Ctx) convert(x Val, from, to types.Type) Val {
	fu, tu := from.Underlying(), to.Underlying()
	if tp, ok := to.(*types.TypeParam); ok {
		_ = tp
		c.unsupported("conversion to type parameter")
	}
	tb, tIsB := tu.(*types.Basic)
	fb, fIsB := fu.(*types.Basic)
	switch {
	case tIsB && fIsB && tb.Info()&types.IsInteger != 0 && fb.Info()&types.IsInteger != 0:
		t := c.f.canon(x.(*Term))
		fw, fs := bitWidth(fb)
		tw, ts := bitWidth(tb)
		if fw == tw && fs == ts {
			return t
		}
		if k, ok := t.isConst(); ok {
			return c.wrap(K(k), to)
		}
		lo, hi, _ := intRange(tb)
		tl, th := t.interval()
		if tl >= lo && tl != NegInf && th <= hi {
			return t
		}
		if tw == 64 {
			if !fs {
				return t // unsigned to int: taken to be below 2^63
			}
			if fs && !ts {
				return c.wrap(t, to)
			}
			return t
		}
		// narrowing
		if c.f.decide(Le(K(lo), t)) == 1 && c.f.decide(Le(t, K(hi))) == 1 {
			return t
		}
		return truncBits(toBits(t), tb)
	case tIsB && tb.Info()&types.IsFloat != 0:
		if fIsB && fb.Info()&types.IsFloat != 0 {
			return x
		}
		return mk(OApp, SInt, "float", 0, x.(*Term))
	case fIsB && fb.Info()&types.IsFloat != 0 && tIsB && tb.Info()&types.IsInteger != 0:
		return mk(OApp, SInt, "trunc", 0, x.(*Term))
	case isStr(to) && isStr(from):
		return x
	case isStr(to):
		if sl, ok := x.(SliceV); ok {
			et := fu.(*types.Slice).Elem()
			if b, ok := isInt(et); ok && b.Kind() == types.Uint8 {
				return StrV{c.sliceSeq(sl, et)}
			}
			s := c.sliceSeq(sl, et)
			var out []rune
			for _, p := range s.ps {
				if p.t != nil || p.n != nil {
					return c.pureStr("runes", x)
				}
				k, ok := p.v.(*Term).isConst()
				if !ok {
					return c.pureStr("runes", x)
				}
				out = append(out, rune(k))
			}
			return strOf(string(out))
		}
		if t, ok := x.(*Term); ok && fIsB {
			t = c.f.canon(t)
			if k, ok := t.isConst(); ok {
				return strOf(string(rune(k)))
			}
			if c.branch(Lt(t, K(128))) && c.branch(Le(K(0), t)) {
				return StrV{SeqV{byteT, []Piece{{v: t}}}}
			}
			return c.pureStr("utf8", t)
		}
	case isStr(from):
		if st, ok := tu.(*types.Slice); ok {
			s := x.(StrV)
			if b, ok := isInt(st.Elem()); ok && b.Kind() == types.Uint8 {
				if len(s.s.ps) == 0 {
					return c.newSlice(SeqV{st.Elem(), nil}, nil)
				}
				return c.newSlice(SeqV{st.Elem(), s.s.ps}, nil)
			}
			bs, ok := concBytes(s.s)
			if !ok {
				c.unsupported("[]rune of unknown string")
			}
			var ps []Piece
			for _, r := range string(bs) {
				ps = append(ps, Piece{v: K(int64(r))})
			}
			return c.newSlice(SeqV{st.Elem(), ps}, nil)
		}
	}
	if types.IdenticalIgnoreTags(fu, tu) {
		return x
	}
	if _, ok := tu.(*types.Pointer); ok {
		return x
	}
	c.unsupported("conversion from %s to %s", from, to)
	return nil
}

// pureStr is the string computed by an unknown function.
func (c *Ctx) pureStr(name string, args ...Val) Val {
	ts := make([]*Term, len(args))
	for i, a := range args {
		ts[i] = c.termOf(a)
	}
	return symOf(types.Typ[types.String], refTerm(OApp, name, 0, ts...))
}

// termOf encodes a value as a term.
func (c *Ctx) termOf(v Val) *Term {
	switch v := v.(type) {
	case nil:
		return tNil
	case *Term:
		return c.f.canon(v)
	case StructV:
		return refTerm(OApp, "struct", 0, c.termsOf(v.f)...)
	case TupleV:
		return refTerm(OApp, "tuple", 0, c.termsOf(v)...)
	case StrV:
		return c.termOf(v.s)
	case SeqV:
		if b, ok := concBytes(v); ok {
			return refTerm(OApp, fmt.Sprintf("%q", b), 0)
		}
		var ts []*Term
		s := simp(c.canonSeq(v))
		for _, p := range s.ps {
			switch {
			case p.t != nil:
				if c.f.decide(EqI(p.len(), K(0))) == 1 {
					continue
				}
				ts = append(ts, refTerm(OApp, "atom", 0, c.f.canon(p.t), c.f.canon(p.from), c.f.canon(p.to)))
			case p.n != nil:
				ts = append(ts, refTerm(OApp, "rep", 0, c.termOf(p.v), c.f.canon(p.n)))
			default:
				ts = append(ts, c.termOf(p.v))
			}
		}
		return refTerm(OApp, "seq", 0, ts...)
	case SliceV:
		return c.termOf(c.snapshot(v))
	case IfaceV:
		if p, ok := v.v.(*Term); ok && c.ref(p).op == OFresh {
			// objects that were created on the way are identified by their contents
			if pt, ok := v.t.Underlying().(*types.Pointer); ok {
				_ = pt
				if ob, ok := c.heapGet(c.ref(p)); ok {
					return refTerm(OApp, "obj "+tyKey(v.t), 0, c.termOf(ob))
				}
			}
		}
		return refTerm(OApp, "iface "+tyKey(v.t), 0, c.termOf(v.v))
	case FuncV:
		return refTerm(OApp, vstr(v), 0, c.termsOf(v.bind)...)
	}
	c.unsupported("cannot encode %s", vstr(v))
	return nil
}

func (c *Ctx) termsOf(vs []Val) []*Term {
	out := make([]*Term, len(vs))
	for i, v := range vs {
		out[i] = c.termOf(v)
	}
	return out
}

// ---- maps

func (c *Ctx) mapObj(m *Term) *MapV {
	v, ok := c.load(m).(*MapV)
	if !ok {
		c.unsupported("not a map: %s", m)
	}
	return v
}

func (c *Ctx) mapFind(m *MapV, k Val) (Val, *Term) { // value, found
	for i := len(m.ents) - 1; i >= 0; i-- {
		if c.branch(c.eqTerm(m.ents[i].k, k, m.mt.Key())) {
			return m.ents[i].v, tTrue
		}
	}
	for _, d := range m.dels {
		if c.branch(c.eqTerm(d, k, m.mt.Key())) {
			return zeroOf(m.mt.Elem()), tFalse
		}
	}
	if m.base != nil {
		kt := c.termOf(k)
		has := mk(OApp, SBool, "has", 0, m.base, kt)
		if c.branch(has) {
			return symOf(m.mt.Elem(), refTerm(OApp, "at", 0, m.base, kt)), tTrue
		}
	}
	return zeroOf(m.mt.Elem()), tFalse
}

func (c *Ctx) lookup(x, k Val, in *ssa.Lookup) Val {
	if s, ok := x.(StrV); ok {
		idx := k.(*Term)
		c.inRange(K(0), idx, AddK(seqLen(s.s), -1), "index out of range")
		return c.seqAt(s.s, idx)
	}
	m := c.ref(x.(*Term))
	var v Val
	found := tFalse
	if m == tNil || m.op != OFresh && c.isNilKnown(m) {
		v = zeroOf(in.X.Type().Underlying().(*types.Map).Elem())
	} else {
		v, found = c.mapFind(c.mapObj(m), k)
	}
	if in.CommaOk {
		return TupleV{v, found}
	}
	return v
}

func (c *Ctx) isNilKnown(t *Term) bool {
	return c.f.decide(EqRef(t, tNil)) == 1
}

func (c *Ctx) mapUpdate(m *Term, k, v Val) {
	m = c.ref(m)
	if m == tNil {
		c.panicT("assignment to entry in nil map")
	}
	mv := c.mapObj(m)
	n := &MapV{mt: mv.mt, base: mv.base, dels: mv.dels, ents: append([]MapEnt(nil), mv.ents...)}
	for i := range n.ents {
		if c.branch(c.eqTerm(n.ents[i].k, k, mv.mt.Key())) {
			n.ents[i] = MapEnt{n.ents[i].k, v}
			c.store(m, n)
			return
		}
	}
	n.ents = append(n.ents, MapEnt{k, v})
	c.store(m, n)
}

func (c *Ctx) mapDelete(m *Term, k Val) {
	m = c.ref(m)
	if m == tNil {
		return
	}
	mv := c.mapObj(m)
	n := &MapV{mt: mv.mt, base: mv.base, dels: mv.dels}
	found := false
	for i := range mv.ents {
		if !found && c.branch(c.eqTerm(mv.ents[i].k, k, mv.mt.Key())) {
			found = true
			continue
		}
		n.ents = append(n.ents, mv.ents[i])
	}
	if mv.base != nil {
		n.dels = append(append([]Val(nil), mv.dels...), k)
	}
	c.store(m, n)
}

func (c *Ctx) rangeIter(x Val) Val {
	n := 0
	switch x := x.(type) {
	case StrV:
		b, ok := concBytes(x.s)
		if !ok {
			c.unsupported("range over unknown string")
		}
		return IterV{str: b, isS: true, cell: &n}
	case *Term:
		m := c.ref(x)
		if m == tNil {
			return IterV{cell: &n}
		}
		mv := c.mapObj(m)
		if mv.base != nil {
			c.unsupported("range over unknown map")
		}
		ents := append([]MapEnt(nil), mv.ents...)
		if c.cfg.MapPerm && !c.cfg.MapPermAll && len(ents) > 1 {
			// the same direction everywhere
			if c.mapDir == 0 {
				c.mapDir = 1 + c.chooseSplit(2)
			}
			if c.mapDir == 2 {
				for i, j := 0, len(ents)-1; i < j; i, j = i+1, j-1 {
					ents[i], ents[j] = ents[j], ents[i]
				}
			}
		}
		if c.cfg.MapPermAll && len(ents) <= 3 {
			// any order
			for i := 0; i < len(ents)-1; i++ {
				j := i + c.choose(len(ents)-i)
				ents[i], ents[j] = ents[j], ents[i]
			}
		}
		return IterV{ents: ents, cell: &n}
	}
	c.unsupported("range over %s", vstr(x))
	return nil
}

func (c *Ctx) iterNext(it IterV, in *ssa.Next) Val {
	i := *it.cell
	if it.isS {
		if i >= len(it.str) {
			return TupleV{tFalse, K(0), K(0)}
		}
		for j, r := range string(it.str[i:]) {
			if j == 0 {
				n := len(string(it.str[i:]))
				for k := range string(it.str[i:]) {
					if k > 0 {
						n = k
						break
					}
				}
				*it.cell = i + n
				return TupleV{tTrue, K(int64(i)), K(int64(r))}
			}
		}
	}
	if i >= len(it.ents) {
		tt := in.Type().(*types.Tuple)
		z := func(t types.Type) Val {
			if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
				return tNil
			}
			return zeroOf(t)
		}
		return TupleV{tFalse, z(tt.At(1).Type()), z(tt.At(2).Type())}
	}
	*it.cell = i + 1
	return TupleV{tTrue, it.ents[i].k, it.ents[i].v}
}

// ---- builtins

func (c *Ctx) builtin(f *Frame, name string, call *ssa.CallCommon, args []Val) Val {
	switch name {
	case "len":
		switch x := args[0].(type) {
		case StrV:
			return seqLen(x.s)
		case SliceV:
			return x.ln
		case SeqV:
			return seqLen(x)
		case *Term:
			m := c.ref(x)
			if m == tNil {
				return K(0)
			}
			if at, ok := call.Args[0].Type().Underlying().(*types.Pointer); ok {
				return K(at.Elem().Underlying().(*types.Array).Len())
			}
			mv := c.mapObj(m)
			if mv.base == nil {
				return K(int64(len(mv.ents)))
			}
			if len(mv.ents) == 0 && len(mv.dels) == 0 {
				return ranged(mk(OApp, SInt, "maplen", 0, mv.base), 0, PosInf)
			}
		}
	case "cap":
		switch x := args[0].(type) {
		case SliceV:
			c.capFacts(x)
			return x.cp
		case SeqV:
			return seqLen(x)
		}
	case "append":
		return c.appendB(args[0].(SliceV), args[1], call.Args[0].Type())
	case "copy":
		return c.copyB(args[0].(SliceV), args[1], call.Args[0].Type())
	case "delete":
		c.mapDelete(args[0].(*Term), args[1])
		return nil
	case "min", "max":
		r := args[0].(*Term)
		for _, a := range args[1:] {
			t := a.(*Term)
			if name == "min" == c.branch(Le(r, t)) {
				continue
			}
			r = t
		}
		return r
	case "recover":
		// frames: the deferred function is on top, the panicking one below
		for i := len(c.stack) - 1; i >= 0; i-- {
			if c.stack[i].panicV != nil {
				v := c.stack[i].panicV.v
				c.stack[i].panicV = nil
				if s, ok := v.(StrV); ok {
					return IfaceV{types.Typ[types.String], s}
				}
				return v
			}
		}
		return tNil
	case "ssa:wrapnilchk":
		return args[0]
	case "print", "println":
		return nil
	case "clear":
		if m, ok := args[0].(*Term); ok {
			mv := c.mapObj(c.ref(m))
			c.store(m, &MapV{mt: mv.mt})
			return nil
		}
	case "close":
		return nil
	}
	c.unsupported("builtin %s", name)
	return nil
}

func (c *Ctx) appendB(s SliceV, arg Val, st types.Type) Val {
	et := st.Underlying().(*types.Slice).Elem()
	var add SeqV
	var argNil *Term = tFalse
	switch a := arg.(type) {
	case SliceV:
		add = c.sliceSeq(a, et)
		argNil = a.isnil
	case StrV:
		add = a.s
	default:
		c.unsupported("append of %s", vstr(arg))
	}
	_ = argNil
	n := seqLen(add)
	if k, ok := n.isConst(); ok && k == 0 {
		return s
	}
	if c.f.decide(EqI(n, K(0))) == 1 {
		return s
	}
	nl := Add(s.ln, n)
	fits := Le(nl, s.cp)
	inplace := false
	switch {
	case c.ref(s.base) == tNil:
	case fits == tTrue:
		inplace = true
	case fits == tFalse:
	default:
		switch c.f.decide(fits) {
		case 1:
			inplace = true
		case 0:
		default:
			if c.cfg.AppendFork {
				c.capFacts(s)
				inplace = c.branch(fits)
			} else if c.cfg.InPlace {
				c.assume(fits)
				inplace = true
			}
		}
	}
	if inplace {
		c.writeAt(s, s.ln, add, et)
		return SliceV{s.base, s.off, nl, s.cp, tFalse}
	}
	old := c.sliceSeq(s, et)
	nb := c.fresh(et)
	content := seqCat(SeqV{et, nil}, old, SeqV{et, add.ps})
	cp := ranged(mk(OCap, SInt, "", 0, refTerm(OApp, "grown", 0, nb)), 0, PosInf)
	c.s().heap[nb] = seqCat(content, SeqV{et, []Piece{{v: zeroOf(et), n: Sub(cp, nl)}}})
	if c.f.decide(Le(nl, cp)) == 2 {
		c.assumeLit(Le(nl, cp), true)
	}
	return SliceV{nb, K(0), nl, cp, tFalse}
}

// writeAt overwrites the elements of the backing array of s that begin at
// index at (relative to s).
func (c *Ctx) writeAt(s SliceV, at *Term, add SeqV, et types.Type) {
	base := c.ref(s.base)
	cont, ok := c.load(base).(SeqV)
	if !ok {
		c.unsupported("write to non-array")
	}
	from := Add(s.off, at)
	n := seqLen(add)
	total := seqLen(cont)
	pre := c.seqSlice(cont, K(0), from)
	post := c.seqSlice(cont, Add(from, n), total)
	c.store(base, seqCat(SeqV{et, nil}, pre, SeqV{et, add.ps}, post))
}

func (c *Ctx) copyB(d SliceV, arg Val, st types.Type) Val {
	et := st.Underlying().(*types.Slice).Elem()
	var src SeqV
	switch a := arg.(type) {
	case SliceV:
		n := a.ln
		if c.branch(Le(d.ln, n)) {
			n = d.ln
		}
		src = c.sliceSeq(SliceV{a.base, a.off, n, a.cp, a.isnil}, et)
		if k, ok := n.isConst(); !ok || k > 0 {
			if c.f.decide(EqI(n, K(0))) != 1 {
				c.writeAt(d, K(0), src, et)
			}
		}
		return n
	case StrV:
		n := seqLen(a.s)
		if c.branch(Le(d.ln, n)) {
			n = d.ln
		}
		src = c.seqSlice(a.s, K(0), n)
		if c.f.decide(EqI(n, K(0))) != 1 {
			c.writeAt(d, K(0), src, et)
		}
		return n
	}
	c.unsupported("copy from %s", vstr(arg))
	return nil
}

// isNilSlice: a nil slice has no elements.
func (c *Ctx) isNilSlice(s SliceV) *Term {
	if s.isnil == tTrue || s.isnil == tFalse {
		return s.isnil
	}
	if c.f.decide(EqI(s.ln, K(0))) == 0 {
		return tFalse
	}
	if c.branch(s.isnil) {
		c.assume(EqI(s.ln, K(0)))
		return tTrue
	}
	return tFalse
}
