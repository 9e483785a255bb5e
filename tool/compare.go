package main

import (
	"fmt"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// outcome of running one side of an obligation
type outcome struct {
	v     Val
	panic *targetPanic
}

func (c *Ctx) runSide(sd int, fn *ssa.Function, args []Val) (o outcome) {
	old := c.sd
	c.sd = sd
	depth := len(c.stack)
	defer func() {
		c.sd = old
		if r := recover(); r != nil {
			if tp, ok := r.(targetPanic); ok {
				c.stack = c.stack[:depth]
				o.panic = &tp
				return
			}
			panic(r)
		}
	}()
	o.v = c.call(fn, args, nil, fn.Pos())
	return
}

// pair checks that the implementation fn behaves like the specification sp.
func (c *Ctx) pair(fn, sp *ssa.Function, args []Val) {
	var oi, os outcome
	if c.cfg.ImplFirst {
		oi = c.runSide(0, fn, args)
		os = c.runSide(1, sp, args)
	} else {
		os = c.runSide(1, sp, args)
		if os.panic != nil && isRuntimePanic(os.panic) {
			// the specification says nothing about this case
			panic(abortPath{"done", ""})
		}
		oi = c.runSide(0, fn, args)
	}
	c.comparePanics(oi, os)
	if oi.panic != nil {
		return
	}
	cm := newCmp(c)
	cm.pairs(0, 1)
	if oi.v != nil || os.v != nil {
		cm.eq(oi.v, os.v, "result")
	}
	cm.events()
	if !c.cfg.NoHeap {
		cm.heap()
	}
	for _, l := range c.sides[0].locks {
		if l != 0 {
			c.violate("lock still held on return")
		}
	}
}

func isRuntimePanic(p *targetPanic) bool {
	s, ok := p.v.(StrV)
	if !ok {
		return false
	}
	b, ok := concBytes(s.s)
	return ok && string(b) == p.why
}

func (c *Ctx) comparePanics(oi, os outcome) {
	switch {
	case oi.panic != nil && os.panic == nil:
		c.violate("panics: %s at %s", oi.panic.why, c.w.posStr(oi.panic.pos))
	case oi.panic == nil && os.panic != nil:
		c.violate("does not panic as required: %s", os.panic.why)
	}
}

// compare two values of one side
func (c *Ctx) compare(sd int, a, b Val, what string) {
	cm := newCmp(c)
	cm.pairs(sd, sd)
	cm.eq(a, b, what)
}

type cmp struct {
	c    *Ctx
	sa   int
	sb   int
	ab   map[*Term]*Term
	ba   map[*Term]*Term
	deep int
}

func newCmp(c *Ctx) *cmp {
	return &cmp{c: c, ab: map[*Term]*Term{}, ba: map[*Term]*Term{}}
}

func (m *cmp) pairs(a, b int) { m.sa, m.sb = a, b }

func (m *cmp) on(sd int, f func()) {
	old := m.c.sd
	m.c.sd = sd
	f()
	m.c.sd = old
}

func (m *cmp) bad(what string, a, b Val) {
	m.c.violate("%s: got %s, want %s", what, m.c.show(a), m.c.show(b))
}

func (c *Ctx) show(v Val) string {
	if t, ok := v.(*Term); ok {
		v = c.f.canon(t)
	}
	s := vstr(v)
	if len(s) > 400 {
		s = s[:400] + "…"
	}
	return s
}

func (m *cmp) must(cond *Term, what string, a, b Val) {
	if !m.c.branch(cond) {
		m.bad(what, a, b)
	}
}

func freshRoot(t *Term) bool { return t.op == OFresh }

func (m *cmp) eq(a, b Val, what string) {
	c := m.c
	m.deep++
	if m.deep > 3000 {
		c.unsupported("comparison too deep")
	}
	m.on(m.sa, func() { a = c.concrete(a, nil) })
	m.on(m.sb, func() { b = c.concrete(b, nil) })
	switch x := a.(type) {
	case nil:
		if b != nil {
			m.bad(what, a, b)
		}
		return
	case *Term:
		y, ok := b.(*Term)
		if !ok {
			if iv, ok := b.(IfaceV); ok {
				if c.branch(isTyTerm(x, iv.t)) {
					m.eq(symOf(iv.t, refTerm(ODyn, tyKey(iv.t), 0, c.ref(x))), iv.v, what)
					return
				}
			}
			m.bad(what, a, b)
		}
		m.eqTermV(x, y, what)
		return
	case StructV:
		y, ok := b.(StructV)
		if !ok || len(x.f) != len(y.f) {
			m.bad(what, a, b)
		}
		for i := range x.f {
			m.eq(x.f[i], y.f[i], fmt.Sprintf("%s.%d", what, i))
		}
		return
	case TupleV:
		y, ok := b.(TupleV)
		if !ok || len(x) != len(y) {
			m.bad(what, a, b)
		}
		for i := range x {
			m.eq(x[i], y[i], fmt.Sprintf("%s #%d", what, i))
		}
		return
	case StrV:
		y, ok := b.(StrV)
		if !ok {
			m.bad(what, a, b)
		}
		m.eqSeq(x.s, y.s, what)
		return
	case SeqV:
		y, ok := b.(SeqV)
		if !ok {
			m.bad(what, a, b)
		}
		m.eqSeq(x, y, what)
		return
	case SliceV:
		y, ok := b.(SliceV)
		if !ok {
			m.bad(what, a, b)
		}
		var sx, sy SeqV
		m.on(m.sa, func() { sx = c.snapshotSeq(x) })
		m.on(m.sb, func() { sy = c.snapshotSeq(y) })
		m.eqSeq(sx, sy, what)
		return
	case IfaceV:
		switch y := b.(type) {
		case IfaceV:
			if !types.Identical(x.t, y.t) {
				m.bad(what, a, b)
			}
			m.eq(x.v, y.v, what)
			return
		case *Term:
			if c.branch(isTyTerm(y, x.t)) {
				m.eq(x.v, symOf(x.t, refTerm(ODyn, tyKey(x.t), 0, c.ref(y))), what)
				return
			}
			m.bad(what, a, b)
		}
		m.bad(what, a, b)
	case FuncV:
		y, ok := b.(FuncV)
		if !ok || x.fn != y.fn {
			m.bad(what, a, b)
		}
		return
	case *MapV:
		y, ok := b.(*MapV)
		if !ok || x.base != y.base || len(x.ents) != len(y.ents) {
			m.bad(what, a, b)
		}
		for _, e := range x.ents {
			found := false
			for _, g := range y.ents {
				if c.branch(c.eqTerm(e.k, g.k, x.mt.Key())) {
					m.eq(e.v, g.v, fmt.Sprintf("%s[%s]", what, vstr(e.k)))
					found = true
					break
				}
			}
			if !found {
				c.violate("%s: unexpected key %s", what, vstr(e.k))
			}
		}
		return
	}
	c.unsupported("comparison of %s and %s", vstr(a), vstr(b))
}

func (c *Ctx) snapshotSeq(s SliceV) SeqV {
	et := types.Type(byteT)
	b := c.ref(s.base)
	if b != tNil {
		if k, ok := s.ln.isConst(); ok && k == 0 {
			return SeqV{et, nil}
		}
		if q, ok := c.load(b).(SeqV); ok {
			et = q.et
		}
	}
	return c.sliceSeq(s, et)
}

func (m *cmp) eqTermV(x, y *Term, what string) {
	c := m.c
	x, y = c.f.canon(x), c.f.canon(y)
	if x.sort != SRef || y.sort != SRef {
		m.must(c.eqScalar(x, y), what, x, y)
		return
	}
	fx, fy := x.op == OFresh, y.op == OFresh
	switch {
	case x == y && (!fx || m.sa == m.sb):
		return
	case fx && fy:
		if o, ok := m.ab[x]; ok {
			if o != y {
				m.bad(what+" (identity)", x, y)
			}
			return
		}
		if o, ok := m.ba[y]; ok && o != x {
			m.bad(what+" (identity)", x, y)
		}
		m.ab[x], m.ba[y] = y, x
		var vx, vy Val
		var okx, oky bool
		m.on(m.sa, func() { vx, okx = c.heapGet(x) })
		m.on(m.sb, func() { vy, oky = c.heapGet(y) })
		if !okx || !oky {
			m.bad(what, x, y)
		}
		m.eq(vx, vy, "*"+what)
		return
	case isAddr(x) && isAddr(y) && x.op == y.op:
		if x.op == OFieldAddr && x.k != y.k {
			m.bad(what, x, y)
		}
		m.eqTermV(x.args[0], y.args[0], what)
		if x.op == OIndexAddr {
			m.must(EqI(x.args[1], y.args[1]), what, x, y)
		}
		return
	case fx != fy:
		m.bad(what, x, y)
	}
	m.must(c.eqScalar(x, y), what, x, y)
}

func (m *cmp) eqSeq(x, y SeqV, what string) {
	c := m.c
	lx, ly := seqLen(x), seqLen(y)
	if !c.branch(EqI(lx, ly)) {
		c.violate("%s: length: got %s, want %s (%s vs. %s)", what, c.show(lx), c.show(ly), c.show(x), c.show(y))
	}
	i := 0
	r, why := c.seqCmp(x, y, func(a, b Val) bool {
		m.eq(a, b, fmt.Sprintf("%s[%d]", what, i))
		i++
		return true
	})
	if !r {
		if why != "" {
			c.violate("%s: contents differ: %s", what, why)
		}
		m.bad(what, x, y)
	}
}

func (m *cmp) events() {
	c := m.c
	a, b := c.sides[0].events, c.sides[1].events
	for i := range a {
		if i >= len(b) {
			c.violate("unexpected %s(%s)", a[i].name, showArgs(c, a[i].args))
		}
		if a[i].name != b[i].name {
			c.violate("%s instead of %s", a[i].name, b[i].name)
		}
		for j := range a[i].args {
			if j < len(b[i].args) {
				m.eq(a[i].args[j], b[i].args[j], fmt.Sprintf("argument %d of %s", j, a[i].name))
			}
		}
	}
	if len(b) > len(a) {
		c.violate("missing %s(%s)", b[len(a)].name, showArgs(c, b[len(a)].args))
	}
}

func showArgs(c *Ctx, vs []Val) string {
	s := ""
	for i, v := range vs {
		if i > 0 {
			s += ", "
		}
		s += c.show(v)
	}
	return s
}

// heap compares the objects that existed before.
func (m *cmp) heap() {
	c := m.c
	seen := map[*Term]bool{}
	var rs []*Term
	for sd := 0; sd < 2; sd++ {
		for r := range c.sides[sd].wr {
			r = c.ref(r)
			if r.op == OFresh && !c.w.isInit(r) || seen[r] {
				continue
			}
			seen[r] = true
			rs = append(rs, r)
		}
	}
	sort.Slice(rs, func(i, j int) bool { return rs[i].id < rs[j].id })
	for _, r := range rs {
		var a, b Val
		m.on(0, func() { a = c.object(r) })
		m.on(1, func() { b = c.object(r) })
		m.eq(a, b, r.String())
	}
}
