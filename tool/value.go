package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is an abstract value: a *Term (integers, booleans, pointers, maps,
// opaque values) or one of the composite values below. All are immutable.
type Val interface{}

type StructV struct{ f []Val }

// Piece is a part of a sequence: a single element, a range of an unknown
// sequence, or a value that is repeated.
type Piece struct {
	v        Val   // unit (n == nil) or repeated value
	n        *Term // number of repetitions
	t        *Term // atom
	from, to *Term
}

func (p Piece) len() *Term {
	if p.t != nil {
		return Sub(p.to, p.from)
	}
	if p.n != nil {
		return p.n
	}
	return K(1)
}

type SeqV struct {
	et types.Type
	ps []Piece
}

type StrV struct{ s SeqV }

type SliceV struct {
	base        *Term // backing array
	off, ln, cp *Term
	isnil       *Term
}

type IfaceV struct {
	t types.Type
	v Val
}

type FuncV struct {
	fn     *ssa.Function
	bind   []Val
	native func(c *Ctx, args []Val) Val
	name   string
}

type TupleV []Val

type MapEnt struct{ k, v Val }
type MapV struct {
	ents []MapEnt
	base *Term // unknown initial contents
	mt   *types.Map
	dels []Val // deleted keys of the base
}

// iterator over a map or string
type IterV struct {
	ents []MapEnt
	str  []byte
	isS  bool
	cell *int
}

var byteT = types.Typ[types.Uint8]

func seqLen(s SeqV) *Term {
	n := K(0)
	for _, p := range s.ps {
		n = Add(n, p.len())
	}
	return n
}

func strOf(s string) StrV {
	ps := make([]Piece, len(s))
	for i := 0; i < len(s); i++ {
		ps[i] = Piece{v: K(int64(s[i]))}
	}
	return StrV{SeqV{byteT, ps}}
}

// concrete contents of a byte sequence
func concBytes(s SeqV) ([]byte, bool) {
	out := make([]byte, 0, len(s.ps))
	for _, p := range s.ps {
		if p.t != nil {
			if c, ok := p.len().isConst(); ok && c == 0 {
				continue
			}
			return nil, false
		}
		n := int64(1)
		if p.n != nil {
			c, ok := p.n.isConst()
			if !ok {
				return nil, false
			}
			n = c
		}
		t, ok := p.v.(*Term)
		if !ok {
			return nil, false
		}
		c, ok := t.isConst()
		if !ok {
			return nil, false
		}
		for i := int64(0); i < n; i++ {
			out = append(out, byte(c))
		}
	}
	return out, true
}

func intRange(b *types.Basic) (int64, int64, bool) {
	switch b.Kind() {
	case types.Int8:
		return -128, 127, true
	case types.Int16:
		return -1 << 15, 1<<15 - 1, true
	case types.Int32, types.UntypedRune:
		return -1 << 31, 1<<31 - 1, true
	case types.Uint8:
		return 0, 255, true
	case types.Uint16:
		return 0, 1<<16 - 1, true
	case types.Uint32:
		return 0, 1<<32 - 1, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 0, PosInf, true
	}
	return NegInf, PosInf, false
}

func isInt(t types.Type) (*types.Basic, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if ok && b.Info()&types.IsInteger != 0 {
		return b, true
	}
	return nil, false
}

func isStr(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsFloat|types.IsComplex) != 0
}

func refTerm(op Op, name string, k int64, args ...*Term) *Term {
	return mk(op, SRef, name, k, args...)
}

// symOf is the unknown value of type t that is named by path.
func symOf(t types.Type, path *Term) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return mk(OVal, SBool, "", 0, path)
		case u.Info()&types.IsString != 0:
			n := ranged(mk(OLen, SInt, "", 0, path), 0, PosInf)
			return StrV{SeqV{byteT, []Piece{{t: refTerm(OBack, "", 0, path), from: K(0), to: n}}}}
		case u.Info()&types.IsInteger != 0:
			v := mk(OVal, SInt, "", 0, path)
			if lo, hi, ok := intRange(u); ok {
				ranged(v, lo, hi)
			}
			return v
		case u.Info()&types.IsFloat != 0:
			return mk(OVal, SInt, "f", 0, path)
		case u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil:
			return refTerm(OVal, "", 0, path)
		}
	case *types.Struct:
		fs := make([]Val, u.NumFields())
		for i := range fs {
			fs[i] = symOf(u.Field(i).Type(), refTerm(OField, u.Field(i).Name(), int64(i), path))
		}
		return StructV{fs}
	case *types.Array:
		return symArray(u, path)
	case *types.Slice:
		base := refTerm(OBack, "", 0, path)
		if base.typ == nil {
			base.typ = u.Elem()
		}
		ln := ranged(mk(OLen, SInt, "", 0, path), 0, PosInf)
		cp := ranged(mk(OCap, SInt, "", 0, path), 0, PosInf)
		return SliceV{base, K(0), ln, cp, mk(OIsNil, SBool, "", 0, path)}
	case *types.Pointer:
		p := refTerm(OVal, "", 0, path)
		if p.typ == nil {
			p.typ = u.Elem()
		}
		return p
	case *types.Map:
		p := refTerm(OVal, "", 0, path)
		if p.typ == nil {
			p.typ = t
		}
		return p
	case *types.Interface, *types.Signature, *types.Chan:
		p := refTerm(OVal, "", 0, path)
		if p.typ == nil {
			p.typ = t
		}
		return p
	case *types.Tuple:
		out := make(TupleV, u.Len())
		for i := range out {
			out[i] = symOf(u.At(i).Type(), refTerm(OField, fmt.Sprint(i), int64(i), path))
		}
		return out
	}
	panic(abortPath{kind: "unsupported", msg: "symbolic value of type " + t.String()})
}

func symArray(u *types.Array, path *Term) Val {
	if u.Len() <= 64 {
		ps := make([]Piece, u.Len())
		for i := range ps {
			ps[i] = Piece{v: symOf(u.Elem(), refTerm(OSel, "", 0, path, K(int64(i))))}
		}
		return SeqV{u.Elem(), ps}
	}
	return SeqV{u.Elem(), []Piece{{t: path, from: K(0), to: K(u.Len())}}}
}

func zeroOf(t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return tFalse
		case u.Info()&types.IsString != 0:
			return StrV{SeqV{byteT, nil}}
		case u.Info()&types.IsInteger != 0:
			return K(0)
		case u.Info()&types.IsFloat != 0:
			return mk(OApp, SInt, "float", 0, K(0))
		}
		return tNil
	case *types.Struct:
		fs := make([]Val, u.NumFields())
		for i := range fs {
			fs[i] = zeroOf(u.Field(i).Type())
		}
		return StructV{fs}
	case *types.Array:
		if u.Len() == 0 {
			return SeqV{u.Elem(), nil}
		}
		if u.Len() <= 64 {
			ps := make([]Piece, u.Len())
			z := zeroOf(u.Elem())
			for i := range ps {
				ps[i] = Piece{v: z}
			}
			return SeqV{u.Elem(), ps}
		}
		return SeqV{u.Elem(), []Piece{{v: zeroOf(u.Elem()), n: K(u.Len())}}}
	case *types.Slice:
		return nilSlice
	case *types.Tuple:
		out := make(TupleV, u.Len())
		for i := range out {
			out[i] = zeroOf(u.At(i).Type())
		}
		return out
	}
	return tNil
}

var nilSlice = SliceV{tNil, K(0), K(0), K(0), tTrue}

func vstr(v Val) string {
	switch v := v.(type) {
	case nil:
		return "<none>"
	case *Term:
		return v.String()
	case StructV:
		var s []string
		for _, f := range v.f {
			s = append(s, vstr(f))
		}
		return "{" + strings.Join(s, " ") + "}"
	case StrV:
		if b, ok := concBytes(v.s); ok {
			return fmt.Sprintf("%q", b)
		}
		return "str" + vstr(v.s)
	case SeqV:
		var s []string
		for i, p := range v.ps {
			if i > 20 {
				s = append(s, "…")
				break
			}
			switch {
			case p.t != nil:
				s = append(s, fmt.Sprintf("%s[%s:%s]", p.t, p.from, p.to))
			case p.n != nil:
				s = append(s, fmt.Sprintf("%s×%s", vstr(p.v), p.n))
			default:
				s = append(s, vstr(p.v))
			}
		}
		return "<" + strings.Join(s, ",") + ">"
	case SliceV:
		if v.isnil == tTrue {
			return "nil"
		}
		return fmt.Sprintf("%s[%s:+%s]", v.base, v.off, v.ln)
	case IfaceV:
		return fmt.Sprintf("%s(%s)", types.TypeString(v.t, func(p *types.Package) string { return p.Name() }), vstr(v.v))
	case FuncV:
		if v.fn != nil {
			return v.fn.String()
		}
		return v.name
	case TupleV:
		var s []string
		for _, f := range v {
			s = append(s, vstr(f))
		}
		return "(" + strings.Join(s, ", ") + ")"
	case *MapV:
		var s []string
		for _, e := range v.ents {
			s = append(s, vstr(e.k)+":"+vstr(e.v))
		}
		return "map{" + strings.Join(s, " ") + "}"
	}
	return fmt.Sprintf("%T", v)
}
