package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type abortPath struct{ kind, msg string }

type targetPanic struct {
	v   Val
	why string
	pos token.Pos
}

type traceEnt struct {
	forced bool
	val    bool
	n, cur int
	f      *Facts // the facts after an assumption
}

// Explorer enumerates the paths through an obligation by depth-first search
// over the decisions that the facts of the path do not settle.
type Explorer struct {
	trace     []traceEnt
	Paths     int
	Cut       int
	Infeas    int
	Forks     int
	CutWhy    map[string]int
	Funcs     map[*ssa.Function]bool
	MaxPaths  int
	viol      []Violation
	samples   []string
	unsupport string
	Asserts   int
}

type Violation struct {
	What string
	Path []string
	Pos  []string
}

type Cfg struct {
	LoopK                      int
	RecK                       int
	Steps                      int
	NumCPU                     bool
	AppendFork                 bool
	InPlace                    bool // appends with unknown capacity happen in place
	Strict                     bool // the implementation must not rely on unchecked bounds
	MapPerm, MapPermAll        bool
	Sets                       bool // operations of charset by contract
	NoHeap                     bool
	Soft                       bool // an undecided rest is reported, not failed
	ImplFirst                  bool
	Overflow                   bool
	MaxPaths                   int
	SplitK, SplitN, SplitDepth int
	Candidates                 map[string][]types.Type
	RecEvents                  bool
	Opaque                     map[string]bool
	UF                         map[string]bool          // pure functions that are not looked into
	Subst                      map[string]*ssa.Function // library functions the harness stands in for
}

type Event struct {
	name string
	args []Val
	pos  token.Pos
	res  Val
	rest *types.Tuple
	out  Val // what was stored through the last argument
}

type side struct {
	heap   map[*Term]Val
	wr     map[*Term]bool
	events []Event
	nfresh int64
	ncpu   int
	locks  map[*Term]int
	rec    map[string]string
}

type Ctx struct {
	w                  *World
	ex                 *Explorer
	cfg                *Cfg
	f                  *Facts
	pos                int
	sd                 int
	sides              [2]side
	steps              int
	stack              []*Frame
	trail              []token.Pos // positions of the branches that were taken (implementation)
	syms               map[string]bool
	nsym               int
	mapDir             int
	lastP              token.Pos
	uids               int
	noted              map[string]bool
	skipInit           bool
	splitVal, splitCnt int
	chosen             []int
}

func (c *Ctx) s() *side { return &c.sides[c.sd] }

func newCtx(w *World, ex *Explorer, cfg *Cfg) *Ctx {
	c := &Ctx{w: w, ex: ex, cfg: cfg, f: NewFacts(), noted: map[string]bool{}}
	for i := range c.sides {
		c.sides[i] = side{heap: map[*Term]Val{}, wr: map[*Term]bool{}, locks: map[*Term]int{}, nfresh: int64(i+1) * 1000000, rec: map[string]string{}}
	}
	return c
}

// Run explores body until all paths have been seen.
func (ex *Explorer) Run(w *World, cfg *Cfg, body func(c *Ctx)) {
	if ex.CutWhy == nil {
		ex.CutWhy = map[string]int{}
	}
	if ex.Funcs == nil {
		ex.Funcs = map[*ssa.Function]bool{}
	}
	for {
		c := newCtx(w, ex, cfg)
		ex.one(c, body)
		if len(ex.viol) >= 3 || ex.unsupport != "" {
			return
		}
		if cfg.MaxPaths > 0 && ex.Paths+ex.Cut >= cfg.MaxPaths {
			ex.unsupport = fmt.Sprintf("more than %d paths", cfg.MaxPaths)
			return
		}
		// backtrack
		i := len(ex.trace) - 1
		for i >= 0 && (ex.trace[i].forced || ex.trace[i].cur+1 >= ex.trace[i].n) {
			i--
		}
		if i < 0 {
			return
		}
		ex.trace[i].cur++
		ex.trace = ex.trace[:i+1]
	}
}

func (ex *Explorer) one(c *Ctx, body func(c *Ctx)) {
	defer func() {
		r := recover()
		if r == nil {
			ex.Paths++
			if len(ex.samples) < 3 || ex.Paths == 17 {
				ex.samples = append(ex.samples, strings.Join(c.pathDesc(), " && "))
			}
			return
		}
		switch r := r.(type) {
		case abortPath:
			switch r.kind {
			case "skip":
			case "infeasible":
				ex.Infeas++
			case "cut":
				ex.Cut++
				ex.CutWhy[r.msg]++
			case "violation":
				ex.Paths++
				ex.viol = append(ex.viol, Violation{What: r.msg, Path: c.pathDesc(), Pos: c.posDesc()})
			case "done":
				ex.Paths++
			default:
				ex.unsupport = r.kind + ": " + r.msg + " at " + c.where()
			}
		case targetPanic:
			ex.viol = append(ex.viol, Violation{What: "panics: " + r.why, Path: c.pathDesc(), Pos: c.posDesc()})
		default:
			panic(r)
		}
	}()
	body(c)
}

func (c *Ctx) where() string {
	var s []string
	for i := len(c.stack) - 1; i >= 0 && len(s) < 4; i-- {
		s = append(s, c.stack[i].fn.String())
	}
	return c.w.posStr(c.lastP) + " in " + strings.Join(s, " < ")
}

func (c *Ctx) pathDesc() []string {
	var out []string
	if len(c.chosen) > 0 {
		out = append(out, fmt.Sprintf("alternatives %v", c.chosen))
	}
	for _, l := range c.f.log {
		s := l.String()
		if len(s) > 300 {
			s = s[:300] + "…"
		}
		out = append(out, s)
	}
	if len(out) > 60 && os.Getenv("GPEG_FULL") == "" {
		out = append(out[:60], "…")
	}
	return out
}

func (c *Ctx) posDesc() []string {
	var out []string
	seen := map[string]bool{}
	for i := len(c.trail) - 1; i >= 0 && len(out) < 14; i-- {
		p := c.w.posStr(c.trail[i])
		if p == "" || seen[p] || strings.Contains(p, "zz_gpegspec") {
			continue
		}
		seen[p] = true
		out = append(out, p)
	}
	return out
}

func (c *Ctx) violate(format string, args ...interface{}) {
	panic(abortPath{"violation", fmt.Sprintf(format, args...)})
}

func (c *Ctx) unsupported(format string, args ...interface{}) {
	panic(abortPath{"unsupported", fmt.Sprintf(format, args...)})
}

func (c *Ctx) next() (traceEnt, bool) {
	if c.pos < len(c.ex.trace) {
		e := c.ex.trace[c.pos]
		c.pos++
		return e, true
	}
	return traceEnt{}, false
}

func (c *Ctx) push(e traceEnt) {
	c.ex.trace = append(c.ex.trace, e)
	c.pos++
}

// branch decides cond, splitting the path if the facts do not settle it.
func (c *Ctx) branch(cond *Term) bool {
	v, _ := c.branchF(cond)
	return v
}

var forkLog = os.Getenv("GPEG_FORK") != ""

func (c *Ctx) branchF(cond *Term) (val bool, forked bool) {
	if cond == tTrue {
		return true, false
	}
	if cond == tFalse {
		return false, false
	}
	if b := cond; b.op == OBdd || b.op == ONot && b.args[0].op == OBdd {
		// split on the comparisons inside first
		if c.decide(cond) == unknown {
			neg := b.op == ONot
			if neg {
				b = b.args[0]
			}
			if v := bAtom(b.bits[0]); v != nil {
				val, _ := c.branchF(v)
				r := bTerm(bRestrict(b.bits[0], v, val))
				if neg {
					r = Not(r)
				}
				return c.branchF(r)
			}
		}
	}
	if e, ok := c.next(); ok {
		if e.forced {
			return e.val, false
		}
		v := e.cur == 0
		c.assumeLit(cond, v)
		return v, true
	}
	switch c.decide(cond) {
	case 1:
		c.push(traceEnt{forced: true, val: true})
		return true, false
	case 0:
		c.push(traceEnt{forced: true, val: false})
		return false, false
	}
	if forkLog {
		fmt.Fprintf(os.Stderr, "fork %.300v\n", cond)
	}
	c.push(traceEnt{n: 2})
	c.ex.Forks++
	c.assumeLit(cond, true)
	return true, true
}

func (c *Ctx) decide(cond *Term) int8 {
	return c.f.decide(cond)
}

func (c *Ctx) assumeLit(cond *Term, v bool) {
	if !v {
		cond = Not(cond)
	}
	if e, ok := c.next(); ok {
		c.f = e.f
		return
	}
	if c.f.decide(c.f.canon(cond)) != 1 {
		c.f = c.f.Clone()
		c.assumeNew(cond)
	}
	c.push(traceEnt{forced: true, f: c.f})
}

func (c *Ctx) assumeNew(cond *Term) {
	l := cond
	// type tests
	neg := false
	if l.op == ONot {
		neg = true
		l = l.args[0]
	}
	l = c.f.canon(l)
	if l.op == OIsTy {
		ty := typeByKey[l.name]
		ok := false
		if neg {
			ok = c.f.setNotType(l.args[0], ty)
		} else {
			ok = c.f.setType(l.args[0], ty)
		}
		if !ok {
			panic(abortPath{"infeasible", ""})
		}
		return
	}
	if !c.f.assume(cond) {
		panic(abortPath{"infeasible", ""})
	}
}

func (c *Ctx) assume(cond *Term) {
	if cond == tTrue {
		return
	}
	if cond == tFalse {
		panic(abortPath{"infeasible", ""})
	}
	c.assumeLit(cond, true)
}

// choose picks one of n alternatives.
func (c *Ctx) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if e, ok := c.next(); ok {
		c.chosen = append(c.chosen, e.cur)
		return e.cur
	}
	c.chosen = append(c.chosen, 0)
	c.push(traceEnt{n: n})
	c.ex.Forks++
	return 0
}

var typeByKey = map[string]types.Type{}

func isTyTerm(x *Term, t types.Type) *Term {
	k := tyKey(t)
	if _, ok := typeByKey[k]; !ok {
		typeByKey[k] = t
	}
	return mk(OIsTy, SBool, k, 0, x)
}

// ---- heap

func (c *Ctx) fresh(t types.Type) *Term {
	s := c.s()
	s.nfresh++
	r := refTerm(OFresh, "", s.nfresh)
	r.typ = t
	return r
}

func (c *Ctx) ref(t *Term) *Term {
	if len(c.f.subst) == 0 {
		return t
	}
	return c.f.canon(t)
}

func (c *Ctx) heapGet(r *Term) (Val, bool) {
	if v, ok := c.s().heap[r]; ok {
		return v, true
	}
	if v, ok := c.w.initHeap[r]; ok {
		return v, true
	}
	// the object may have been reached under a name that was merged later
	if len(c.f.subst) > 0 && r.op != OFresh {
		for k, v := range c.s().heap {
			if k != r && k.op != OFresh && c.f.canon(k) == r {
				delete(c.s().heap, k)
				c.s().heap[r] = v
				if c.s().wr[k] {
					c.s().wr[r] = true
				}
				return v, true
			}
		}
	}
	return nil, false
}

func starPath(r *Term) *Term { return refTerm(OApp, "*", 0, r) }

// object returns the contents of the object that r points to.
func (c *Ctx) object(r *Term) Val {
	if v, ok := c.heapGet(r); ok {
		return v
	}
	if r == tNil {
		c.panicT("nil pointer dereference")
	}
	if r.typ == nil {
		c.unsupported("object of unknown type %s", r)
	}
	v := c.initial(r)
	c.s().heap[r] = v
	return v
}

// initial gives the contents that an object had when the analysis began.
func (c *Ctx) initial(r *Term) Val {
	if v, ok := c.w.initHeap[r]; ok {
		return v
	}
	if r.op == OBack {
		cp := ranged(mk(OCap, SInt, "", 0, r.args[0]), 0, PosInf)
		return SeqV{r.typ, []Piece{{t: r, from: K(0), to: cp}}}
	}
	if m, ok := r.typ.Underlying().(*types.Map); ok {
		return &MapV{base: r, mt: m}
	}
	return symOf(r.typ, starPath(r))
}

func (c *Ctx) load(addr *Term) Val {
	addr = c.ref(addr)
	switch addr.op {
	case OFieldAddr:
		sv, ok := c.load(addr.args[0]).(StructV)
		if !ok {
			c.unsupported("field of non-struct %s", addr)
		}
		return sv.f[addr.k]
	case OIndexAddr:
		s, ok := c.load(addr.args[0]).(SeqV)
		if !ok {
			c.unsupported("element of non-sequence %s", addr)
		}
		return c.seqAt(s, addr.args[1])
	}
	return c.object(addr)
}

func (c *Ctx) store(addr *Term, v Val) {
	addr = c.ref(addr)
	switch addr.op {
	case OFieldAddr:
		p := addr.args[0]
		sv, ok := c.load(p).(StructV)
		if !ok {
			c.unsupported("field of non-struct %s", addr)
		}
		fs := append([]Val(nil), sv.f...)
		fs[addr.k] = v
		c.store(p, StructV{fs})
		return
	case OIndexAddr:
		p := addr.args[0]
		s, ok := c.load(p).(SeqV)
		if !ok {
			c.unsupported("element of non-sequence %s", addr)
		}
		c.store(p, c.seqSet(s, addr.args[1], v))
		return
	}
	if addr == tNil {
		c.panicT("nil pointer dereference")
	}
	if addr.op != OFresh {
		c.object(addr) // remember the initial contents
	}
	c.s().heap[addr] = v
	c.s().wr[addr] = true
}

func (c *Ctx) panicT(why string) {
	panic(targetPanic{v: strOf(why), why: why, pos: c.lastP})
}

// ---- sequences

func simp(s SeqV) SeqV {
	out := make([]Piece, 0, len(s.ps))
	for _, p := range s.ps {
		if p.t != nil || p.n != nil {
			if n, ok := p.len().isConst(); ok && n == 0 {
				continue
			}
		}
		if len(out) > 0 {
			q := &out[len(out)-1]
			if p.t != nil && q.t == p.t && q.to == p.from {
				q.to = p.to
				continue
			}
		}
		out = append(out, p)
	}
	return SeqV{s.et, out}
}

func seqCat(ss ...SeqV) SeqV {
	var ps []Piece
	var et types.Type
	for _, s := range ss {
		if et == nil {
			et = s.et
		}
		ps = append(ps, s.ps...)
	}
	return simp(SeqV{et, ps})
}

func (c *Ctx) atomAt(et types.Type, t, idx *Term) Val {
	return symOf(et, refTerm(OSel, "", 0, t, idx))
}

func (c *Ctx) seqAt(s SeqV, idx *Term) Val {
	if k, ok := idx.isConst(); ok && k >= 0 && k < int64(len(s.ps)) {
		// fast path: only units before
		i := int64(0)
		for ; i <= k; i++ {
			if s.ps[i].t != nil || s.ps[i].n != nil {
				break
			}
		}
		if i > k {
			return s.ps[k].v
		}
	}
	off := K(0)
	for i, p := range s.ps {
		end := Add(off, p.len())
		last := i == len(s.ps)-1
		if last || c.branch(Lt(idx, end)) {
			switch {
			case p.t != nil:
				return c.atomAt(s.et, p.t, c.f.canon(Add(p.from, Sub(idx, off))))
			default:
				return p.v
			}
		}
		off = end
	}
	c.panicT("index out of range")
	return nil
}

// seqSlice is s[lo:hi]; lo <= hi <= len(s) must hold.
func (c *Ctx) seqSlice(s SeqV, lo, hi *Term) SeqV {
	if l, ok := lo.isConst(); ok {
		if h, ok2 := hi.isConst(); ok2 {
			allu := int64(len(s.ps)) >= h
			for i := int64(0); allu && i < h; i++ {
				if s.ps[i].t != nil || s.ps[i].n != nil {
					allu = false
				}
			}
			if allu && l <= h && l >= 0 {
				return SeqV{s.et, s.ps[l:h:h]}
			}
		}
	}
	var out []Piece
	off := K(0)
	started := false
	for i, p := range s.ps {
		end := Add(off, p.len())
		from := off
		if !started {
			if i < len(s.ps)-1 && c.branch(Le(end, lo)) {
				off = end
				continue
			}
			started = true
			from = lo
		}
		// from..min(end,hi)
		to := end
		fin := false
		if i == len(s.ps)-1 || c.branch(Le(hi, end)) {
			to = hi
			fin = true
		}
		switch {
		case p.t != nil:
			out = append(out, Piece{t: p.t, from: Add(p.from, Sub(from, off)), to: Add(p.from, Sub(to, off))})
		case p.n != nil:
			out = append(out, Piece{v: p.v, n: Sub(to, from)})
		default:
			n := Sub(to, from)
			if k, ok := n.isConst(); ok {
				if k >= 1 {
					out = append(out, p)
				}
			} else if c.branch(Le(K(1), n)) {
				out = append(out, p)
			}
		}
		if fin {
			break
		}
		off = end
	}
	return simp(SeqV{s.et, out})
}

func (c *Ctx) seqSet(s SeqV, idx *Term, v Val) SeqV {
	if k, ok := idx.isConst(); ok && k >= 0 && k < int64(len(s.ps)) {
		allu := true
		for i := int64(0); i <= k; i++ {
			if s.ps[i].t != nil || s.ps[i].n != nil {
				allu = false
				break
			}
		}
		if allu {
			ps := append([]Piece(nil), s.ps...)
			ps[k] = Piece{v: v}
			return SeqV{s.et, ps}
		}
	}
	n := seqLen(s)
	return seqCat(c.seqSlice(s, K(0), idx), SeqV{s.et, []Piece{{v: v}}}, c.seqSlice(s, AddK(idx, 1), n))
}

// contents of a slice value
func (c *Ctx) sliceSeq(sl SliceV, et types.Type) SeqV {
	if k, ok := sl.ln.isConst(); ok && k == 0 || c.ref(sl.base) == tNil {
		return SeqV{et, nil}
	}
	if c.f.decide(EqI(sl.ln, K(0))) == 1 {
		return SeqV{et, nil}
	}
	s, ok := c.load(sl.base).(SeqV)
	if !ok {
		c.unsupported("slice of non-array")
	}
	return c.seqSlice(s, sl.off, Add(sl.off, sl.ln))
}

func (c *Ctx) newSlice(s SeqV, extra *Term) SliceV {
	b := c.fresh(s.et)
	n := seqLen(s)
	cp := n
	if extra != nil {
		cp = Add(n, extra)
		s = seqCat(s, SeqV{s.et, []Piece{{v: zeroOf(s.et), n: extra}}})
	}
	c.s().heap[b] = s
	return SliceV{b, K(0), n, cp, tFalse}
}

// bAtom finds a variable that is not just a bit of a number.
func bAtom(n *BNode) *Term {
	if n == bTrue || n == bFalse {
		return nil
	}
	if n.v.op != OBit && n.v.op != OVal {
		return n.v
	}
	if v := bAtom(n.hi); v != nil {
		return v
	}
	return bAtom(n.lo)
}

func bRestrict(n *BNode, v *Term, val bool) *BNode {
	if n == bTrue || n == bFalse {
		return n
	}
	if n.v == v {
		if val {
			return n.hi
		}
		return n.lo
	}
	return bIte(bVar(n.v), bRestrict(n.hi, v, val), bRestrict(n.lo, v, val))
}
