package main

import (
	"go/types"
	"sort"
)

// Facts is the set of conditions that hold on a path.
type Facts struct {
	subst  map[*Term]*Term
	ineqs  []*Term // canonical d, d <= 0
	dis    []*Term // canonical d, d != 0
	bools  map[*Term]bool
	types  map[*Term]types.Type
	ntypes map[*Term]map[string]bool
	log    []*Term
	models []*model // recent solutions of the inequalities

	memo  map[*Term]*Term
	qmemo map[*Term]int8 // decided literals in this version: 1 true, 0 false, 2 unknown
}

func NewFacts() *Facts {
	return &Facts{
		subst:  map[*Term]*Term{},
		bools:  map[*Term]bool{},
		types:  map[*Term]types.Type{},
		ntypes: map[*Term]map[string]bool{},
		memo:   map[*Term]*Term{},
		qmemo:  map[*Term]int8{},
	}
}

func (f *Facts) Clone() *Facts {
	g := &Facts{
		subst:  make(map[*Term]*Term, len(f.subst)+2),
		bools:  make(map[*Term]bool, len(f.bools)+2),
		types:  make(map[*Term]types.Type, len(f.types)),
		ntypes: make(map[*Term]map[string]bool, len(f.ntypes)),
		ineqs:  append([]*Term(nil), f.ineqs...),
		dis:    append([]*Term(nil), f.dis...),
		log:    append([]*Term(nil), f.log...),
		models: append([]*model(nil), f.models...),
		memo:   map[*Term]*Term{},
		qmemo:  map[*Term]int8{},
	}
	for k, v := range f.subst {
		g.subst[k] = v
	}
	for k, v := range f.bools {
		g.bools[k] = v
	}
	for k, v := range f.types {
		g.types[k] = v
	}
	for k, v := range f.ntypes {
		m := map[string]bool{}
		for a := range v {
			m[a] = true
		}
		g.ntypes[k] = m
	}
	return g
}

func (f *Facts) bump() {
	f.memo = map[*Term]*Term{}
	f.qmemo = map[*Term]int8{}
}

// canon rewrites t with the known equalities.
func (f *Facts) canon(t *Term) *Term {
	if len(f.subst) == 0 {
		return t
	}
	switch t.op {
	case OSym, OTrue, OFalse, ONil, OFresh, OEv:
		if r, ok := f.subst[t]; ok {
			return f.canon(r)
		}
		return t
	}
	if r, ok := f.memo[t]; ok {
		return r
	}
	r := f.rebuild(t)
	if s, ok := f.subst[r]; ok {
		r = f.canon(s)
	}
	f.memo[t] = r
	return r
}

// rebuild canonicalizes the arguments of t.
func (f *Facts) rebuild(t *Term) *Term {
	switch t.op {
	case OLin:
		r := K(t.k)
		changed := false
		for _, m := range t.mons {
			a := f.canon(m.a)
			if a != m.a {
				changed = true
			}
		}
		if !changed {
			return t
		}
		for _, m := range t.mons {
			r = addScaled(r, f.canon(m.a), m.c)
		}
		return r
	case OLe:
		a := f.canon(t.args[0])
		if a == t.args[0] {
			return t
		}
		return Le(a, K(0))
	case OEq0:
		a := f.canon(t.args[0])
		if a == t.args[0] {
			return t
		}
		return EqI(a, K(0))
	case OEqR:
		a, b := f.canon(t.args[0]), f.canon(t.args[1])
		return EqRef(a, b)
	case ONot:
		return Not(f.canon(t.args[0]))
	case OBit:
		a := f.canon(t.args[0])
		if a == t.args[0] {
			return t
		}
		return bTerm(toBits(a)[t.k])
	case OBVec:
		changed := false
		nb := make([]*BNode, len(t.bits))
		for i, b := range t.bits {
			nb[i] = f.bcanon(b)
			if nb[i] != b {
				changed = true
			}
		}
		if !changed {
			return t
		}
		return fromBits(nb)
	case OBdd:
		n := f.bcanon(t.bits[0])
		if n == t.bits[0] {
			return t
		}
		return bTerm(n)
	case OMul:
		return Mul(f.canon(t.args[0]), f.canon(t.args[1]))
	}
	if len(t.args) == 0 {
		return t
	}
	changed := false
	na := make([]*Term, len(t.args))
	for i, a := range t.args {
		na[i] = f.canon(a)
		if na[i] != a {
			changed = true
		}
	}
	if !changed {
		return t
	}
	n := mk(t.op, t.sort, t.name, t.k, na...)
	if n.typ == nil {
		n.typ = t.typ
	}
	if t.lo > n.lo {
		n.lo = t.lo
	}
	if t.hi < n.hi {
		n.hi = t.hi
	}
	return n
}

func (f *Facts) bcanon(n *BNode) *BNode {
	if n == bTrue || n == bFalse {
		return n
	}
	v := f.canon(n.v)
	if b, ok := f.bools[v]; ok {
		v = mkBool(b)
	}
	lo, hi := f.bcanon(n.lo), f.bcanon(n.hi)
	if v == n.v && lo == n.lo && hi == n.hi {
		return n
	}
	return bIte(bVar(v), hi, lo)
}

const (
	unknown = 2
)

// decide returns 1 if the literal is known to be true, 0 if it is known to be
// false and 2 if it is not known.
func (f *Facts) decide(l *Term) int8 {
	l = f.canon(l)
	switch l.op {
	case OTrue:
		return 1
	case OFalse:
		return 0
	case ONot:
		switch f.decide(l.args[0]) {
		case 1:
			return 0
		case 0:
			return 1
		}
		return 2
	}
	if b, ok := f.bools[l]; ok {
		if b {
			return 1
		}
		return 0
	}
	if r, ok := f.qmemo[l]; ok {
		return r
	}
	r := f.decide1(l)
	f.qmemo[l] = r
	return r
}

func (f *Facts) decide1(l *Term) int8 {
	switch l.op {
	case OLe:
		d := l.args[0]
		if !f.feasible(d) { // d <= 0 impossible
			return 0
		}
		if !f.feasible(Sub(K(1), d)) { // d >= 1 impossible
			return 1
		}
	case OEq0:
		d := l.args[0]
		if c, ms := d.lin(); len(ms) == 1 && (ms[0].c == 1 || ms[0].c == -1) {
			if r := f.decideBits(ms[0].a, -c*ms[0].c); r != unknown {
				return r
			}
		}
		if k, ms := d.lin(); k == 0 && len(ms) == 2 && ms[0].c == -ms[1].c {
			if a, b := selOf(ms[0].a), selOf(ms[1].a); a != nil && b != nil && a.args[0] == b.args[0] &&
				f.decide(EqI(a.args[1], b.args[1])) == 1 {
				return 1
			}
		}
		for _, x := range f.dis {
			if x == d || x == Scale(d, -1) {
				return 0
			}
		}
		if !f.feasible(d) || !f.feasible(Scale(d, -1)) {
			return 0
		}
		if !f.feasible(AddK(d, 1)) && !f.feasible(Sub(K(1), d)) {
			return 1
		}
		if !f.feasible(d, Scale(d, -1)) {
			return 0
		}
	case OEqR:
		a, b := l.args[0], l.args[1]
		if a == tNil || b == tNil {
			if b != tNil {
				a, b = b, a
			}
			if _, ok := f.types[a]; ok {
				return 0
			}
		}
		ta, oka := f.types[a]
		tb, okb := f.types[b]
		if oka && okb && !types.Identical(ta, tb) {
			return 0
		}
	case OIsTy:
		t := l.args[0]
		if t == tNil {
			return 0
		}
		if ty, ok := f.types[t]; ok {
			if tyKey(ty) == l.name {
				return 1
			}
			return 0
		}
		if f.ntypes[t][l.name] {
			return 0
		}
		if b, ok := f.bools[EqRef(t, tNil)]; ok && b {
			return 0
		}
	case OBdd:
		n := f.bcanon(l.bits[0])
		if n == bTrue {
			return 1
		}
		if n == bFalse {
			return 0
		}
		if m := f.narrowBits(n); m != n {
			if m == bTrue {
				return 1
			}
			if m == bFalse {
				return 0
			}
		}
	}
	return 2
}

// decideBits tells whether the bits of a that are known make it equal to c.
func (f *Facts) decideBits(a *Term, c int64) int8 {
	if a.op == OLin {
		return unknown
	}
	if _, ok := termTab[mkKey(OBit, "", 0, []*Term{a}, nil, nil)]; !ok {
		return unknown
	}
	all := true
	for i, b := range toBits(a) {
		b = f.bcanon(b)
		want := bFalse
		if uint64(c)>>uint(i)&1 != 0 {
			want = bTrue
		}
		if b == bTrue || b == bFalse {
			if b != want {
				return 0
			}
		} else {
			all = false
		}
	}
	if all {
		return 1
	}
	return unknown
}

// narrowBits uses the known range of numbers for their upper bits.
func (f *Facts) narrowBits(n *BNode) *BNode {
	max := map[*Term]int64{}
	seen := map[*BNode]bool{}
	var walk func(n *BNode)
	walk = func(n *BNode) {
		if n == bTrue || n == bFalse || seen[n] {
			return
		}
		seen[n] = true
		if n.v.op == OBit && n.v.k > max[n.v.args[0]] {
			max[n.v.args[0]] = n.v.k
		}
		walk(n.lo)
		walk(n.hi)
	}
	walk(n)
	sub := map[*Term]*BNode{}
	for x, k := range max {
		for _, w := range []int64{7, 8, 15, 16, 24, 31, 32} {
			if k < w {
				break
			}
			lo, hi := int64(0), int64(1)<<uint(w)-1
			if w == 7 || w == 15 || w == 31 {
				lo, hi = -(int64(1) << uint(w)), int64(1)<<uint(w)-1
			}
			if f.decide(Le(K(lo), x)) != 1 || f.decide(Le(x, K(hi))) != 1 {
				continue
			}
			top := bFalse
			if lo < 0 {
				top = bVar(mk(OBit, SBool, "", w, x))
			}
			for i := w; i <= k; i++ {
				if lo < 0 && i == w {
					continue
				}
				sub[mk(OBit, SBool, "", i, x)] = top
			}
			break
		}
	}
	if len(sub) == 0 {
		return n
	}
	memo := map[*BNode]*BNode{}
	var rec func(n *BNode) *BNode
	rec = func(n *BNode) *BNode {
		if n == bTrue || n == bFalse {
			return n
		}
		if r, ok := memo[n]; ok {
			return r
		}
		v, ok := sub[n.v]
		if !ok {
			v = bVar(n.v)
		}
		r := bIte(v, rec(n.hi), rec(n.lo))
		memo[n] = r
		return r
	}
	return rec(n)
}

// assume adds the literal; false means the facts became contradictory.
func (f *Facts) assume(l *Term) bool {
	l = f.canon(l)
	switch f.decide(l) {
	case 1:
		return true
	case 0:
		return false
	}
	f.log = append(f.log, l)
	return f.add(l, true)
}

func (f *Facts) add(l *Term, val bool) bool {
	if l.op == ONot {
		return f.add(l.args[0], !val)
	}
	switch l.op {
	case OTrue:
		return val
	case OFalse:
		return !val
	case OLe:
		d := l.args[0]
		if !val {
			d = Sub(K(1), d)
			n := Le(d, K(0))
			if n.op != OLe {
				return n == tTrue
			}
			d = n.args[0]
		}
		return f.addIneq(d)
	case OEq0:
		if val {
			return f.addEq(l.args[0])
		}
		return f.addDis(l.args[0])
	case OEqR:
		if val {
			return f.merge(l.args[0], l.args[1])
		}
		f.bools[l] = false
		f.bump()
		return true
	}
	if o, ok := f.bools[l]; ok {
		return o == val
	}
	f.bools[l] = val
	f.bump()
	if l.op == OBdd && val {
		// a conjunction of literals
		n := f.bcanon(l.bits[0])
		for n != bTrue && n != bFalse {
			if n.lo == bFalse {
				if !f.add(f.canon(n.v), true) {
					return false
				}
				n = n.hi
			} else if n.hi == bFalse {
				if !f.add(f.canon(n.v), false) {
					return false
				}
				n = n.lo
			} else {
				break
			}
		}
	}
	return true
}

func (f *Facts) addIneq(d *Term) bool {
	d = f.canon(d)
	if lo, hi := d.interval(); hi <= 0 && hi != PosInf {
		return true
	} else if lo > 0 && lo != NegInf {
		return false
	}
	f.ineqs = append(f.ineqs, d)
	f.bump()
	if !f.feasible(d) {
		return false
	}
	// both bounds met: an equality
	if !f.feasible(AddK(d, 1)) {
		// d <= -1 impossible, so d == 0
		return f.addEq(d)
	}
	return f.recheckDis()
}

func (f *Facts) recheckDis() bool {
	for i := 0; i < len(f.dis); i++ {
		d := f.canon(f.dis[i])
		if c, ok := d.isConst(); ok {
			if c == 0 {
				return false
			}
			f.dis = append(f.dis[:i:i], f.dis[i+1:]...)
			i--
			continue
		}
		if !f.feasible(AddK(d, 1)) { // d >= 0, so d >= 1
			f.dis = append(f.dis[:i:i], f.dis[i+1:]...)
			return f.addIneq(Sub(K(1), d))
		}
		if !f.feasible(Sub(K(1), d)) { // d <= 0, so d <= -1
			f.dis = append(f.dis[:i:i], f.dis[i+1:]...)
			return f.addIneq(AddK(d, 1))
		}
	}
	return true
}

func (f *Facts) addDis(d *Term) bool {
	d = f.canon(d)
	if c, ok := d.isConst(); ok {
		return c != 0
	}
	f.dis = append(f.dis, d)
	f.bump()
	return f.recheckDis()
}

func occurs(a, t *Term) bool {
	if a == t {
		return true
	}
	if t.depth <= a.depth {
		return false
	}
	for _, x := range t.args {
		if occurs(a, x) {
			return true
		}
	}
	for _, m := range t.mons {
		if occurs(a, m.a) {
			return true
		}
	}
	for _, b := range t.bits {
		if bOccurs(a, b) {
			return true
		}
	}
	return false
}

func bOccurs(a *Term, n *BNode) bool {
	if n == bTrue || n == bFalse {
		return false
	}
	return occurs(a, n.v) || bOccurs(a, n.lo) || bOccurs(a, n.hi)
}

func (f *Facts) addEq(d *Term) bool {
	d = f.canon(d)
	c, ms := d.lin()
	if len(ms) == 0 {
		return c == 0
	}
	if EqI(d, K(0)) == tFalse {
		return false
	}
	var best *Term
	var bc int64
	for _, m := range ms {
		if m.c != 1 && m.c != -1 {
			continue
		}
		bad := false
		for _, o := range ms {
			if o.a != m.a && occurs(m.a, o.a) {
				bad = true
			}
		}
		if bad {
			continue
		}
		if best == nil || m.a.depth > best.depth || m.a.depth == best.depth && m.a.id > best.id {
			best, bc = m.a, m.c
		}
	}
	if best == nil {
		f.ineqs = append(f.ineqs, d, Scale(d, -1))
		f.bump()
		return f.feasible(d) && f.recheckDis()
	}
	// bc*best + rest == 0  =>  best = -rest/bc
	rest := addScaled(d, best, -bc)
	val := Scale(rest, -bc)
	// keep the range of the eliminated atom
	lo, hi := best.lo, best.hi
	if !f.setSubst(best, val) {
		return false
	}
	if lo != NegInf {
		if !f.addIneq(Sub(K(lo), val)) {
			return false
		}
	}
	if hi != PosInf {
		if !f.addIneq(Sub(val, K(hi))) {
			return false
		}
	}
	return true
}

func refRank(t *Term) int {
	switch t.op {
	case ONil:
		return 0
	case OFresh:
		return 1
	case OFieldAddr, OIndexAddr:
		return 2
	}
	return 3
}

func (f *Facts) merge(a, b *Term) bool {
	a, b = f.canon(a), f.canon(b)
	if a == b {
		return true
	}
	if f.decide(EqRef(a, b)) == 0 {
		return false
	}
	ra, rb := refRank(a), refRank(b)
	if rb < ra || rb == ra && (b.depth < a.depth || b.depth == a.depth && b.id < a.id) {
		a, b = b, a
	}
	if occurs(b, a) {
		a, b = b, a
	}
	if ty, ok := f.types[b]; ok {
		if a == tNil {
			return false
		}
		if o, ok := f.types[a]; ok {
			if !types.Identical(o, ty) {
				return false
			}
		}
		if f.ntypes[a][tyKey(ty)] {
			return false
		}
		f.types[a] = ty
	}
	for k := range f.ntypes[b] {
		if f.ntypes[a] == nil {
			f.ntypes[a] = map[string]bool{}
		}
		f.ntypes[a][k] = true
	}
	return f.setSubst(b, a)
}

func (f *Facts) setSubst(a, v *Term) bool {
	f.subst[a] = v
	f.bump()
	// congruence: keys whose arguments changed
	type pair struct{ k, v *Term }
	var again []pair
	for k, v := range f.subst {
		if k == a {
			continue
		}
		if r := f.rebuild(k); r != k {
			again = append(again, pair{r, v})
			delete(f.subst, k)
			// keep the old key resolvable as well: canon rebuilds first
		}
	}
	sort.Slice(again, func(i, j int) bool { return again[i].k.id < again[j].k.id })
	if len(again) > 0 {
		f.bump()
	}
	for _, p := range again {
		var ok bool
		if p.k.sort == SInt {
			ok = f.addEq(Sub(p.k, p.v))
		} else {
			ok = f.merge(p.k, p.v)
		}
		if !ok {
			return false
		}
	}
	// recanonicalize
	old := f.ineqs
	f.ineqs = nil
	var neq []*Term
	for _, d := range old {
		c := f.canon(d)
		if k, ok := c.isConst(); ok {
			if k > 0 {
				return false
			}
			continue
		}
		neq = append(neq, c)
	}
	f.ineqs = neq
	var nd []*Term
	for _, d := range f.dis {
		c := f.canon(d)
		if k, ok := c.isConst(); ok {
			if k == 0 {
				return false
			}
			continue
		}
		nd = append(nd, c)
	}
	f.dis = nd
	type bp struct {
		k *Term
		v bool
	}
	var redo []bp
	for k, v := range f.bools {
		c := f.canon(k)
		if c != k {
			delete(f.bools, k)
			redo = append(redo, bp{c, v})
		}
	}
	sort.Slice(redo, func(i, j int) bool { return redo[i].k.id < redo[j].k.id })
	for k, ty := range f.types {
		c := f.canon(k)
		if c != k {
			delete(f.types, k)
			if o, ok := f.types[c]; ok && !types.Identical(o, ty) {
				return false
			}
			if c == tNil {
				return false
			}
			f.types[c] = ty
		}
	}
	for k, m := range f.ntypes {
		c := f.canon(k)
		if c != k {
			delete(f.ntypes, k)
			if f.ntypes[c] == nil {
				f.ntypes[c] = map[string]bool{}
			}
			for n := range m {
				f.ntypes[c][n] = true
			}
		}
	}
	f.bump()
	for _, p := range redo {
		if !f.add(p.k, p.v) {
			return false
		}
	}
	for _, d := range f.ineqs {
		if !f.feasible(d) {
			return false
		}
	}
	return f.recheckDis()
}

func (f *Facts) setType(t *Term, ty types.Type) bool {
	t = f.canon(t)
	if o, ok := f.types[t]; ok {
		return types.Identical(o, ty)
	}
	if t == tNil || f.ntypes[t][tyKey(ty)] {
		return false
	}
	if b, ok := f.bools[EqRef(t, tNil)]; ok && b {
		return false
	}
	f.types[t] = ty
	f.log = append(f.log, mk(OIsTy, SBool, tyKey(ty), 0, t))
	f.bump()
	return true
}

func (f *Facts) setNotType(t *Term, ty types.Type) bool {
	t = f.canon(t)
	if o, ok := f.types[t]; ok {
		return !types.Identical(o, ty)
	}
	if f.ntypes[t] == nil {
		f.ntypes[t] = map[string]bool{}
	}
	if !f.ntypes[t][tyKey(ty)] {
		f.log = append(f.log, Not(mk(OIsTy, SBool, tyKey(ty), 0, t)))
	}
	f.ntypes[t][tyKey(ty)] = true
	f.bump()
	return true
}

func tyKey(t types.Type) string {
	return types.TypeString(t, nil)
}

// ---- linear feasibility (Fourier-Motzkin with integer tightening)

type row struct {
	c  int64
	ms []Mon
}

// feasible tells whether the facts together with extra d_i <= 0 may hold.
// It may answer true for contradictory facts, never false for satisfiable ones.
func (f *Facts) feasible(extra ...*Term) bool {
	ex := make([]*Term, 0, len(extra))
	for _, e := range extra {
		e = f.canon(e)
		if c, ok := e.isConst(); ok {
			if c > 0 {
				return false
			}
			continue
		}
		ex = append(ex, e)
	}
	extra = ex
	for _, m := range f.models {
		if m.sat(extra) && m.sat(f.ineqs) {
			return true
		}
	}
	seen := map[*Term]bool{}
	var work []*Term
	addAtoms := func(d *Term) {
		_, ms := d.lin()
		for _, m := range ms {
			if !seen[m.a] {
				seen[m.a] = true
				work = append(work, m.a)
			}
		}
	}
	var rows []row
	for _, e := range extra {
		addAtoms(e)
		c, ms := e.lin()
		rows = append(rows, row{c, ms})
	}
	used := make([]bool, len(f.ineqs))
	for changed := true; changed; {
		changed = false
		for i, d := range f.ineqs {
			if used[i] {
				continue
			}
			_, ms := d.lin()
			for _, m := range ms {
				if seen[m.a] {
					used[i] = true
					changed = true
					addAtoms(d)
					c, ms := d.lin()
					rows = append(rows, row{c, ms})
					break
				}
			}
		}
	}
	for _, a := range work {
		if a.lo != NegInf {
			rows = append(rows, row{a.lo, []Mon{{a, -1}}})
		}
		if a.hi != PosInf {
			rows = append(rows, row{-a.hi, []Mon{{a, 1}}})
		}
	}
	ok, m := fm(rows)
	if m != nil {
		if len(f.models) > 0 {
			for a, v := range f.models[0].v {
				if _, ok := m.v[a]; !ok {
					m.v[a] = v
				}
			}
		}
		n := len(f.models)
		if n > 7 {
			n = 7
		}
		f.models = append([]*model{m}, f.models[:n]...)
	}
	return ok
}

// model is an assignment; it only saves work: whether it solves the
// inequalities is checked every time.
type model struct{ v map[*Term]int64 }

func (m *model) val(a *Term) int64 {
	if v, ok := m.v[a]; ok {
		return v
	}
	var v int64
	if a.lo > v {
		v = a.lo
	}
	if a.hi < v {
		v = a.hi
	}
	return v
}

func (m *model) sat(ds []*Term) bool {
	for _, d := range ds {
		c, ms := d.lin()
		for _, x := range ms {
			c += x.c * m.val(x.a)
		}
		if c > 0 {
			return false
		}
	}
	return true
}

func normRow(r row) (row, int) { // 0 keep, 1 trivially true, 2 false
	if len(r.ms) == 0 {
		if r.c > 0 {
			return r, 2
		}
		return r, 1
	}
	if g := gcdAll(r.ms); g > 1 {
		ms := make([]Mon, len(r.ms))
		for i := range ms {
			ms[i] = Mon{r.ms[i].a, r.ms[i].c / g}
		}
		r = row{-floorDiv(-r.c, g), ms}
	}
	return r, 0
}

func combineRows(p, n row, v *Term) row {
	var cp, cn int64
	for _, m := range p.ms {
		if m.a == v {
			cp = m.c
		}
	}
	for _, m := range n.ms {
		if m.a == v {
			cn = -m.c
		}
	}
	// cn*p + cp*n
	out := make([]Mon, 0, len(p.ms)+len(n.ms))
	i, j := 0, 0
	for i < len(p.ms) || j < len(n.ms) {
		switch {
		case j >= len(n.ms) || (i < len(p.ms) && p.ms[i].a.id < n.ms[j].a.id):
			out = append(out, Mon{p.ms[i].a, p.ms[i].c * cn})
			i++
		case i >= len(p.ms) || n.ms[j].a.id < p.ms[i].a.id:
			out = append(out, Mon{n.ms[j].a, n.ms[j].c * cp})
			j++
		default:
			c := p.ms[i].c*cn + n.ms[j].c*cp
			if c != 0 {
				out = append(out, Mon{p.ms[i].a, c})
			}
			i++
			j++
		}
	}
	return row{p.c*cn + n.c*cp, out}
}

func hashRow(ms []Mon) uint64 {
	h := uint64(14695981039346656037)
	for _, m := range ms {
		h = (h ^ uint64(m.a.id)) * 1099511628211
		h = (h ^ uint64(m.c)) * 1099511628211
	}
	return h
}

func sameMons(a, b []Mon) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func dedupe(rows []row) ([]row, bool) {
	best := make(map[uint64]int, len(rows))
	out := make([]row, 0, len(rows))
next:
	for _, r := range rows {
		r, st := normRow(r)
		if st == 2 {
			return nil, false
		}
		if st == 1 {
			continue
		}
		for k := hashRow(r.ms); ; k++ {
			i, ok := best[k]
			if !ok {
				best[k] = len(out)
				break
			}
			if sameMons(r.ms, out[i].ms) {
				if r.c > out[i].c {
					out[i].c = r.c
				}
				continue next
			}
		}
		out = append(out, r)
	}
	return out, true
}

var fmGiveUps int

type fmStep struct {
	v      *Term
	ps, ns []row
}

// fm decides the feasibility of the rows by Fourier-Motzkin elimination, and
// tries to give an integer solution.
func fm(rows []row) (bool, *model) {
	var steps []fmStep
	rows, ok := dedupe(rows)
	if !ok {
		return false, nil
	}
	for len(rows) > 0 {
		// choose the variable with the fewest products
		pos := map[*Term]int{}
		neg := map[*Term]int{}
		for _, r := range rows {
			for _, m := range r.ms {
				if m.c > 0 {
					pos[m.a]++
				} else {
					neg[m.a]++
				}
			}
		}
		var v *Term
		bestc := 1 << 60
		for a := range pos {
			c := pos[a]*neg[a] - pos[a] - neg[a]
			if v == nil || c < bestc || c == bestc && a.id < v.id {
				v, bestc = a, c
			}
		}
		for a := range neg {
			if pos[a] == 0 {
				c := -neg[a]
				if v == nil || c < bestc || c == bestc && a.id < v.id {
					v, bestc = a, c
				}
			}
		}
		var ps, ns, rest []row
		for _, r := range rows {
			s := 0
			for _, m := range r.ms {
				if m.a == v {
					if m.c > 0 {
						s = 1
					} else {
						s = -1
					}
				}
			}
			switch s {
			case 1:
				ps = append(ps, r)
			case -1:
				ns = append(ns, r)
			default:
				rest = append(rest, r)
			}
		}
		if len(ps)*len(ns) > 4000 {
			fmGiveUps++
			return true, nil
		}
		steps = append(steps, fmStep{v, ps, ns})
		for _, p := range ps {
			for _, n := range ns {
				rest = append(rest, combineRows(p, n, v))
			}
		}
		rows, ok = dedupe(rest)
		if !ok {
			return false, nil
		}
	}
	m := &model{map[*Term]int64{}}
	for k := len(steps) - 1; k >= 0; k-- {
		st := steps[k]
		lo, hi := int64(-1<<60), int64(1<<60)
		bound := func(r row) (int64, int64) {
			rest, cv := r.c, int64(0)
			for _, x := range r.ms {
				if x.a == st.v {
					cv = x.c
				} else {
					v, ok := m.v[x.a]
					if !ok {
						v = m.val(x.a)
						m.v[x.a] = v
					}
					rest += x.c * v
				}
			}
			return rest, cv
		}
		for _, r := range st.ps { // cv*v <= -rest
			rest, cv := bound(r)
			if b := floorDiv(-rest, cv); b < hi {
				hi = b
			}
		}
		for _, r := range st.ns { // -cv*v >= rest
			rest, cv := bound(r)
			if b := -floorDiv(-rest, -cv); b > lo {
				lo = b
			}
		}
		if lo > hi {
			return true, nil
		}
		switch {
		case lo > -1<<60 && lo+1 <= hi:
			m.v[st.v] = lo + 1
		case lo > -1<<60:
			m.v[st.v] = lo
		case hi < 1<<60:
			m.v[st.v] = hi - 1
		default:
			m.v[st.v] = m.val(st.v)
		}
	}
	return true, m
}

// selOf is the element selection that a is the value of.
func selOf(a *Term) *Term {
	if a.op == OVal && len(a.args) == 1 && a.args[0].op == OSel {
		return a.args[0]
	}
	return nil
}
