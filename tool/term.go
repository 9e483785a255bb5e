package main

import (
	"encoding/binary"
	"fmt"
	"go/types"
	"math"
	"sort"
	"strings"
)

// Terms are hash-consed symbolic values. There are four sorts: integers,
// booleans, references (pointers, interface values, functions, maps and any
// opaque value that is only compared) and sequences (the contents of strings,
// slices and arrays).

type Sort uint8

const (
	SInt Sort = iota
	SBool
	SRef
	SSeq
)

type Op uint8

const (
	OSym   Op = iota // free symbol
	OField           // field k of args[0]
	OSel             // element args[1] of sequence args[0]
	OLen             // length of sequence/slice path args[0]
	OCap             // capacity
	OBack            // backing array of slice path args[0]
	OIsNil           // nilness of slice path args[0]
	OVal             // scalar named by path args[0]
	ODyn             // dynamic value of interface args[0] as type name
	OEv              // result k of event
	OApp             // uninterpreted function
	OLin             // linear expression
	OBVec            // bit vector
	OMul             // product
	OTrue
	OFalse
	OLe   // lin <= 0
	OEq0  // lin == 0
	OEqR  // reference equality
	ONot  // negation
	OBit  // bit k of args[0]
	OBdd  // boolean function
	OIsTy // dynamic type of args[0] is name
	ONil
	OFresh
	OFieldAddr
	OIndexAddr
	OEqV // opaque equality of two composite values (arguments encoded)
)

type Mon struct {
	a *Term
	c int64
}

type Term struct {
	id    int
	op    Op
	sort  Sort
	name  string
	k     int64
	args  []*Term
	mons  []Mon // OLin
	bits  []*BNode
	typ   types.Type // for references
	lo    int64
	hi    int64
	depth int
}

const (
	NegInf = math.MinInt64
	PosInf = math.MaxInt64
)

var (
	termTab = map[string]*Term{}
	nterms  int
)

func mkKey(op Op, name string, k int64, args []*Term, mons []Mon, bits []*BNode) string {
	b := make([]byte, 0, 16+len(name)+len(args)*4+len(mons)*12)
	b = append(b, byte(op))
	b = binary.AppendVarint(b, k)
	b = binary.AppendVarint(b, int64(len(name)))
	b = append(b, name...)
	for _, a := range args {
		b = binary.AppendUvarint(b, uint64(a.id))
	}
	for _, m := range mons {
		b = append(b, 'm')
		b = binary.AppendUvarint(b, uint64(m.a.id))
		b = binary.AppendVarint(b, m.c)
	}
	for _, n := range bits {
		b = append(b, 'b')
		b = binary.AppendUvarint(b, uint64(n.id))
	}
	return string(b)
}

func mk(op Op, s Sort, name string, k int64, args ...*Term) *Term {
	key := mkKey(op, name, k, args, nil, nil)
	if t, ok := termTab[key]; ok {
		return t
	}
	t := &Term{op: op, sort: s, name: name, k: k, args: args, lo: NegInf, hi: PosInf}
	return intern(key, t)
}

func intern(key string, t *Term) *Term {
	nterms++
	t.id = nterms
	for _, a := range t.args {
		if a.depth >= t.depth {
			t.depth = a.depth + 1
		}
	}
	for _, m := range t.mons {
		if m.a.depth >= t.depth {
			t.depth = m.a.depth + 1
		}
	}
	termTab[key] = t
	return t
}

var (
	tTrue  = mk(OTrue, SBool, "", 0)
	tFalse = mk(OFalse, SBool, "", 0)
	tNil   = mk(ONil, SRef, "", 0)
)

func mkBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

// ---- integers

func mkLin(c int64, mons []Mon) *Term {
	if len(mons) == 1 && c == 0 && mons[0].c == 1 {
		return mons[0].a
	}
	key := mkKey(OLin, "", c, nil, mons, nil)
	if t, ok := termTab[key]; ok {
		return t
	}
	t := &Term{op: OLin, sort: SInt, k: c, mons: mons, lo: NegInf, hi: PosInf}
	if len(mons) == 0 {
		t.lo, t.hi = c, c
	}
	return intern(key, t)
}

func K(c int64) *Term { return mkLin(c, nil) }

func (t *Term) isConst() (int64, bool) {
	if t.op == OLin && len(t.mons) == 0 {
		return t.k, true
	}
	return 0, false
}

// linear view
func (t *Term) lin() (int64, []Mon) {
	if t.op == OLin {
		return t.k, t.mons
	}
	return 0, []Mon{{t, 1}}
}

func addScaled(a *Term, b *Term, f int64) *Term {
	ca, ma := a.lin()
	cb, mb := b.lin()
	out := make([]Mon, 0, len(ma)+len(mb))
	i, j := 0, 0
	for i < len(ma) || j < len(mb) {
		switch {
		case j >= len(mb) || (i < len(ma) && ma[i].a.id < mb[j].a.id):
			out = append(out, ma[i])
			i++
		case i >= len(ma) || mb[j].a.id < ma[i].a.id:
			if f != 0 {
				out = append(out, Mon{mb[j].a, mb[j].c * f})
			}
			j++
		default:
			c := ma[i].c + mb[j].c*f
			if c != 0 {
				out = append(out, Mon{ma[i].a, c})
			}
			i++
			j++
		}
	}
	return mkLin(ca+cb*f, out)
}

func Add(a, b *Term) *Term { return addScaled(a, b, 1) }
func Sub(a, b *Term) *Term { return addScaled(a, b, -1) }
func AddK(a *Term, k int64) *Term {
	if k == 0 {
		return a
	}
	return addScaled(a, K(k), 1)
}
func Scale(a *Term, f int64) *Term {
	if f == 0 {
		return K(0)
	}
	c, m := a.lin()
	out := make([]Mon, len(m))
	for i := range m {
		out[i] = Mon{m[i].a, m[i].c * f}
	}
	return mkLin(c*f, out)
}

func Mul(a, b *Term) *Term {
	if c, ok := a.isConst(); ok {
		return Scale(b, c)
	}
	if c, ok := b.isConst(); ok {
		return Scale(a, c)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(OMul, SInt, "", 0, a, b)
}

func ranged(t *Term, lo, hi int64) *Term {
	if lo > t.lo {
		t.lo = lo
	}
	if hi < t.hi {
		t.hi = hi
	}
	return t
}

// static interval of a term
func (t *Term) interval() (int64, int64) {
	if t.op != OLin {
		return t.lo, t.hi
	}
	lo, hi := t.k, t.k
	for _, m := range t.mons {
		al, ah := m.a.lo, m.a.hi
		if m.c < 0 {
			al, ah = ah, al
		}
		lo = satAddMul(lo, al, m.c, NegInf)
		hi = satAddMul(hi, ah, m.c, PosInf)
	}
	return lo, hi
}

func satAddMul(acc, v, c, inf int64) int64 {
	if acc == inf || v == NegInf || v == PosInf {
		return inf
	}
	p := v * c
	if c != 0 && (p/c != v) {
		return inf
	}
	s := acc + p
	if (p > 0 && s < acc) || (p < 0 && s > acc) {
		return inf
	}
	return s
}

// ---- booleans

func gcdAll(ms []Mon) int64 {
	var g int64
	for _, m := range ms {
		a := m.c
		if a < 0 {
			a = -a
		}
		for a != 0 {
			g, a = a, g%a
		}
	}
	return g
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

// Le builds a <= b
func Le(a, b *Term) *Term {
	d := Sub(a, b) // d <= 0
	lo, hi := d.interval()
	if hi <= 0 && hi != PosInf {
		return tTrue
	}
	if lo > 0 && lo != NegInf {
		return tFalse
	}
	c, ms := d.lin()
	if g := gcdAll(ms); g > 1 {
		out := make([]Mon, len(ms))
		for i := range ms {
			out[i] = Mon{ms[i].a, ms[i].c / g}
		}
		// g*x + c <= 0  <=>  x + ceil(c/g) <= 0
		d = mkLin(-floorDiv(-c, g), out)
	}
	return mk(OLe, SBool, "", 0, d)
}
func Lt(a, b *Term) *Term { return Le(AddK(a, 1), b) }

func EqI(a, b *Term) *Term {
	d := Sub(a, b)
	lo, hi := d.interval()
	if lo == 0 && hi == 0 {
		return tTrue
	}
	if (lo > 0 && lo != NegInf) || (hi < 0 && hi != PosInf) {
		return tFalse
	}
	c, ms := d.lin()
	if g := gcdAll(ms); g > 1 {
		if c%g != 0 {
			return tFalse
		}
		out := make([]Mon, len(ms))
		for i := range ms {
			out[i] = Mon{ms[i].a, ms[i].c / g}
		}
		d = mkLin(c/g, out)
	}
	// canonical sign
	if c, ms := d.lin(); len(ms) > 0 && ms[0].c < 0 {
		_ = c
		d = Scale(d, -1)
	}
	if c, ms := d.lin(); len(ms) == 1 && ms[0].c == 1 && ms[0].a.op == OBVec {
		if n := bitsEqual(ms[0].a.bits, uint64(-c)); n != nil {
			return bTerm(n)
		}
	}
	return mk(OEq0, SBool, "", 0, d)
}

// bitsEqual is the condition that the bits form the constant, if it is a
// conjunction of literals.
func bitsEqual(bits []*BNode, c uint64) *BNode {
	out := bTrue
	for i := len(bits) - 1; i >= 0; i-- {
		b := bits[i]
		if c>>uint(i)&1 == 0 {
			b = bNot(b)
		}
		if b == bFalse {
			return bFalse
		}
		for n := b; n != bTrue; {
			switch {
			case n.lo == bFalse:
				n = n.hi
			case n.hi == bFalse:
				n = n.lo
			default:
				return nil
			}
		}
		out = bAnd(out, b)
	}
	return out
}

func Not(b *Term) *Term {
	switch b.op {
	case OTrue:
		return tFalse
	case OFalse:
		return tTrue
	case ONot:
		return b.args[0]
	case OLe:
		// !(d <= 0)  <=>  d >= 1  <=>  1 - d <= 0
		return Le(K(1), b.args[0])
	}
	return mk(ONot, SBool, "", 0, b)
}

func EqRef(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if definitelyDistinct(a, b) {
		return tFalse
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(OEqR, SBool, "", 0, a, b)
}

func isAddr(t *Term) bool { return t.op == OFieldAddr || t.op == OIndexAddr }

func definitelyDistinct(a, b *Term) bool {
	if a.op == OFresh && b.op == OFresh {
		return a != b
	}
	if a.op == OFresh || isAddr(a) {
		if b.op == ONil {
			return true
		}
	}
	if b.op == OFresh || isAddr(b) {
		if a.op == ONil {
			return true
		}
	}
	// a fresh object is different from everything that existed before
	if a.op == OFresh && !isAddr(b) && b.op != OFresh {
		return true
	}
	if b.op == OFresh && !isAddr(a) && a.op != OFresh {
		return true
	}
	if a.op == ONil && b.op == OApp && b.name == "nonnil" || b.op == ONil && a.op == OApp && a.name == "nonnil" {
		return true
	}
	return false
}

// ---- printing

func (t *Term) String() string {
	switch t.op {
	case OTrue:
		return "true"
	case OFalse:
		return "false"
	case ONil:
		return "nil"
	case OSym:
		return t.name
	case OFresh:
		return fmt.Sprintf("new%d", t.k)
	case OField:
		return t.args[0].String() + "." + t.name
	case OFieldAddr:
		return "&" + t.args[0].String() + "." + fmt.Sprint(t.k)
	case OIndexAddr:
		return "&" + t.args[0].String() + "[" + t.args[1].String() + "]"
	case OSel:
		return t.args[0].String() + "[" + t.args[1].String() + "]"
	case OLen:
		return "len(" + t.args[0].String() + ")"
	case OCap:
		return "cap(" + t.args[0].String() + ")"
	case OBack:
		return t.args[0].String()
	case OIsNil:
		return "isnil(" + t.args[0].String() + ")"
	case OVal:
		return t.args[0].String()
	case ODyn:
		return t.args[0].String() + ".(" + t.name + ")"
	case OEv:
		return fmt.Sprintf("%s#%d", t.name, t.k)
	case OLin:
		var sb strings.Builder
		for i, m := range t.mons {
			switch {
			case m.c == 1 && i > 0:
				sb.WriteString("+")
			case m.c == 1:
			case m.c == -1:
				sb.WriteString("-")
			default:
				fmt.Fprintf(&sb, "%+d*", m.c)
			}
			sb.WriteString(m.a.String())
		}
		if t.k != 0 || len(t.mons) == 0 {
			if len(t.mons) > 0 {
				fmt.Fprintf(&sb, "%+d", t.k)
			} else {
				fmt.Fprintf(&sb, "%d", t.k)
			}
		}
		return sb.String()
	case OLe:
		return linCmp(t.args[0], "<=")
	case OEq0:
		return linCmp(t.args[0], "==")
	case ONot:
		if t.args[0].op == OEq0 {
			return linCmp(t.args[0].args[0], "!=")
		}
		if t.args[0].op == OEqR {
			return t.args[0].args[0].String() + " != " + t.args[0].args[1].String()
		}
		return "!" + t.args[0].String()
	case OEqR:
		return t.args[0].String() + " == " + t.args[1].String()
	case OBit:
		return fmt.Sprintf("%s{%d}", t.args[0], t.k)
	case OBdd:
		return t.bits[0].String()
	case OBVec:
		var s []string
		for i, b := range t.bits {
			if b != bFalse {
				s = append(s, fmt.Sprintf("%d:%s", i, b))
			}
		}
		return "bits(" + strings.Join(s, ",") + ")"
	case OIsTy:
		return t.args[0].String() + " is " + t.name
	case OMul:
		return t.args[0].String() + "*" + t.args[1].String()
	}
	var as []string
	for _, a := range t.args {
		as = append(as, a.String())
	}
	return t.name + "(" + strings.Join(as, ",") + ")"
}

func linCmp(d *Term, op string) string {
	c, ms := d.lin()
	var l, r []Mon
	for _, m := range ms {
		if m.c > 0 {
			l = append(l, m)
		} else {
			r = append(r, Mon{m.a, -m.c})
		}
	}
	lc, rc := int64(0), int64(0)
	if c > 0 {
		lc = c
	} else {
		rc = -c
	}
	return mkLin(lc, l).String() + " " + op + " " + mkLin(rc, r).String()
}

// ---- bit level

type BNode struct {
	id     int
	v      *Term // bool variable (nil for terminals)
	lo, hi *BNode
}

var (
	bFalse  = &BNode{id: 0}
	bTrue   = &BNode{id: 1}
	bTab    = map[[3]int]*BNode{}
	bN      = 2
	bIteTab = map[[3]int]*BNode{}
)

func bMk(v *Term, lo, hi *BNode) *BNode {
	if lo == hi {
		return lo
	}
	k := [3]int{v.id, lo.id, hi.id}
	if n, ok := bTab[k]; ok {
		return n
	}
	n := &BNode{id: bN, v: v, lo: lo, hi: hi}
	bN++
	bTab[k] = n
	return n
}

func bVar(v *Term) *BNode {
	switch v.op {
	case OTrue:
		return bTrue
	case OFalse:
		return bFalse
	case OBdd:
		return v.bits[0]
	case ONot:
		return bNot(bVar(v.args[0]))
	}
	return bMk(v, bFalse, bTrue)
}

func bIte(f, g, h *BNode) *BNode {
	if f == bTrue {
		return g
	}
	if f == bFalse {
		return h
	}
	if g == h {
		return g
	}
	if g == bTrue && h == bFalse {
		return f
	}
	k := [3]int{f.id, g.id, h.id}
	if n, ok := bIteTab[k]; ok {
		return n
	}
	v := f.v
	if g.v != nil && g.v.id < v.id {
		v = g.v
	}
	if h.v != nil && h.v.id < v.id {
		v = h.v
	}
	cof := func(n *BNode, hi bool) *BNode {
		if n.v != v {
			return n
		}
		if hi {
			return n.hi
		}
		return n.lo
	}
	r := bMk(v, bIte(cof(f, false), cof(g, false), cof(h, false)), bIte(cof(f, true), cof(g, true), cof(h, true)))
	bIteTab[k] = r
	return r
}
func bNot(a *BNode) *BNode    { return bIte(a, bFalse, bTrue) }
func bAnd(a, b *BNode) *BNode { return bIte(a, b, bFalse) }
func bOr(a, b *BNode) *BNode  { return bIte(a, bTrue, b) }
func bXor(a, b *BNode) *BNode { return bIte(a, bNot(b), b) }

func (n *BNode) String() string {
	switch n {
	case bTrue:
		return "1"
	case bFalse:
		return "0"
	}
	if n.lo == bFalse && n.hi == bTrue {
		return n.v.String()
	}
	return fmt.Sprintf("(%s?%s:%s)", n.v, n.hi, n.lo)
}

// bNode back to a boolean term
func bTerm(n *BNode) *Term {
	switch {
	case n == bTrue:
		return tTrue
	case n == bFalse:
		return tFalse
	case n.lo == bFalse && n.hi == bTrue:
		return n.v
	case n.lo == bTrue && n.hi == bFalse:
		return Not(n.v)
	}
	key := mkKey(OBdd, "", 0, nil, nil, []*BNode{n})
	if t, ok := termTab[key]; ok {
		return t
	}
	return intern(key, &Term{op: OBdd, sort: SBool, bits: []*BNode{n}})
}

// toBits gives the two's complement representation of an integer term with 64
// bits.
func toBits(t *Term) []*BNode {
	out := make([]*BNode, 64)
	if c, ok := t.isConst(); ok {
		for i := range out {
			out[i] = bFalse
			if uint64(c)>>uint(i)&1 != 0 {
				out[i] = bTrue
			}
		}
		return out
	}
	if t.op == OBVec {
		copy(out, t.bits)
		return out
	}
	// sum of disjoint bit fields?
	if t.op == OLin && t.k == 0 {
		if r := disjointSum(t.mons); r != nil {
			return r
		}
	}
	return atomBits(t)
}

func disjointSum(ms []Mon) []*BNode {
	out := make([]*BNode, 64)
	for i := range out {
		out[i] = bFalse
	}
	for _, m := range ms {
		if m.c <= 0 || m.c&(m.c-1) != 0 {
			return nil
		}
		sh := 0
		for int64(1)<<uint(sh) != m.c {
			sh++
		}
		lo, _ := m.a.interval()
		if lo < 0 {
			return nil
		}
		bs := toBits(m.a)
		for i := 0; i+sh < 64; i++ {
			if bs[i] == bFalse {
				continue
			}
			if out[i+sh] != bFalse {
				return nil
			}
			out[i+sh] = bs[i]
		}
		for i := 64 - sh; i < 64; i++ {
			if bs[i] != bFalse {
				return nil
			}
		}
	}
	return out
}

func atomBits(t *Term) []*BNode {
	out := make([]*BNode, 64)
	lo, hi := t.interval()
	n := 64
	signed := true
	if lo >= 0 {
		signed = false
		n = 0
		for n < 63 && (hi == PosInf || hi >= int64(1)<<uint(n)) {
			n++
		}
		if hi == PosInf {
			n = 64
		}
	} else if lo != NegInf && hi != PosInf {
		n = 1
		for n < 63 && !(lo >= -(int64(1)<<uint(n-1)) && hi < int64(1)<<uint(n-1)) {
			n++
		}
	}
	for i := range out {
		switch {
		case i < n:
			out[i] = bVar(mk(OBit, SBool, "", int64(i), t))
		case signed:
			out[i] = out[n-1]
		default:
			out[i] = bFalse
		}
	}
	return out
}

// fromBits turns bits into an integer term, recovering the original term if
// they are exactly its bits.
func fromBits(bits []*BNode) *Term {
	// constant?
	var c uint64
	isc := true
	var src *Term
	for i, b := range bits {
		if b == bTrue {
			c |= 1 << uint(i)
		} else if b != bFalse {
			isc = false
			if src == nil && b.v.op == OBit {
				src = b.v.args[0]
			}
		}
	}
	if isc {
		return K(int64(c))
	}
	if src != nil {
		ab := toBits(src)
		same := true
		for i := range ab {
			if ab[i] != bits[i] {
				same = false
				break
			}
		}
		if same {
			return src
		}
	}
	key := mkKey(OBVec, "", 0, nil, nil, bits)
	if t, ok := termTab[key]; ok {
		return t
	}
	t := &Term{op: OBVec, sort: SInt, bits: bits, lo: NegInf, hi: PosInf}
	if bits[63] == bFalse {
		t.lo = 0
		n := 63
		for n > 0 && bits[n-1] == bFalse {
			n--
		}
		if n < 63 {
			t.hi = int64(1)<<uint(n) - 1
		}
	}
	for _, b := range bits {
		if b.v != nil && b.v.depth >= t.depth {
			t.depth = b.v.depth + 1
		}
	}
	return intern(key, t)
}

func sortTerms(ts []*Term) {
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
}
