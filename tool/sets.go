package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// With the option "sets", the operations of package charset are replaced by
// their contracts (which property C12 decides for the real operations):
// membership in a combination of sets is membership in its operands.

type setDef struct {
	op   string
	sets []Val   // operands that are sets
	el   []*Term // operands that are bytes
}

var setDefs = map[*Term]setDef{}

const setPkg = modPath + "/charset"

func isSetT(t types.Type) bool {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == setPkg && n.Obj().Name() == "Set"
}

// setKey identifies an unknown set, and nil a set with known contents.
func setKey(v Val) *Term {
	for {
		switch x := v.(type) {
		case StructV:
			if len(x.f) == 0 {
				return nil
			}
			v = x.f[0]
			continue
		case SeqV:
			if len(x.ps) == 0 {
				return nil
			}
			if x.ps[0].t != nil {
				return x.ps[0].t
			}
			v = x.ps[0].v
			continue
		case *Term:
			if _, ok := x.isConst(); ok {
				return nil
			}
			return x
		}
		return nil
	}
}

func setWords(v Val) (w [4]uint64, ok bool) {
	s, ok1 := v.(StructV)
	if !ok1 || len(s.f) != 1 {
		return w, false
	}
	q, ok1 := s.f[0].(SeqV)
	if !ok1 {
		return w, false
	}
	i := 0
	for _, p := range q.ps {
		if p.t != nil {
			return w, false
		}
		n := int64(1)
		if p.n != nil {
			if n, ok1 = p.n.isConst(); !ok1 {
				return w, false
			}
		}
		t, ok1 := p.v.(*Term)
		if !ok1 {
			return w, false
		}
		k, ok1 := t.isConst()
		if !ok1 {
			return w, false
		}
		for ; n > 0 && i < 4; n-- {
			w[i] = uint64(k)
			i++
		}
	}
	return w, i == 4
}

func (c *Ctx) setHas(s Val, b *Term) bool {
	if k := setKey(s); k != nil {
		if d, ok := setDefs[k]; ok {
			switch d.op {
			case "New":
				for _, e := range d.el {
					if c.branch(EqI(b, e)) {
						return true
					}
				}
				return false
			case "Range":
				return c.branch(Le(d.el[0], b)) && c.branch(Le(b, d.el[1]))
			case "Complement":
				return !c.setHas(d.sets[0], b)
			case "Add":
				return c.setHas(d.sets[0], b) || c.setHas(d.sets[1], b)
			case "Sub":
				return c.setHas(d.sets[0], b) && !c.setHas(d.sets[1], b)
			}
		}
		return c.branch(mk(OVal, SBool, "", 0, refTerm(OApp, "set.has", 0, k, c.f.canon(b))))
	}
	w, ok := setWords(s)
	if !ok {
		c.unsupported("contents of a set")
	}
	has := func(i int) bool { return w[i>>6]&(1<<(i&63)) != 0 }
	if k, ok := c.f.canon(b).isConst(); ok {
		return has(int(k & 255))
	}
	for i := 0; i < 256; {
		j := i
		for j < 256 && has(j) == has(i) {
			j++
		}
		if j == 256 || c.branch(Le(b, K(int64(j-1)))) {
			return has(i)
		}
		i = j
	}
	return false
}

// setModel applies the contract of a function of package charset.
func (c *Ctx) setModel(fn *ssa.Function, args []Val, pos token.Pos) (Val, bool) {
	name := fn.Name()
	recv := fn.Signature.Recv()
	if recv != nil && !isSetT(recv.Type()) {
		return nil, false
	}
	set := func(v Val, t types.Type) Val {
		if _, ok := t.Underlying().(*types.Pointer); ok {
			return c.load(c.addrOf(v, "argument"))
		}
		return v
	}
	def := func(d setDef) (Val, bool) {
		var ts []*Term
		known := true
		for _, s := range d.sets {
			k := setKey(s)
			if k == nil {
				w, ok := setWords(s)
				if !ok {
					c.unsupported("contents of a set")
				}
				for _, x := range w {
					ts = append(ts, K(int64(x)))
				}
				continue
			}
			known = false
			ts = append(ts, k)
		}
		for i := range d.el {
			d.el[i] = c.f.canon(d.el[i])
			if _, ok := d.el[i].isConst(); !ok {
				known = false
			}
		}
		if known && d.op != "New" && d.op != "Range" {
			return nil, false
		}
		if known && (d.op == "Range" || len(d.el) <= 1 || d.op == "New") {
			return nil, false
		}
		ts = append(ts, d.el...)
		v := resultVal(fn.Signature.Results(), refTerm(OApp, "set."+d.op, 0, ts...))
		setDefs[setKey(v)] = d
		return v, true
	}
	switch name {
	case "Has":
		if len(args) != 2 {
			return nil, false
		}
		return mkBool(c.setHas(set(args[0], recv.Type()), args[1].(*Term))), true
	case "Size":
		s := set(args[0], recv.Type())
		k := setKey(s)
		if k == nil {
			return nil, false
		}
		return ranged(mk(OVal, SInt, "", 0, refTerm(OApp, "set.size", 0, k)), 0, 256), true
	case "New":
		if len(args) != 1 {
			return nil, false
		}
		sl, ok := args[0].(SliceV)
		if !ok {
			return nil, false
		}
		var el []*Term
		for _, p := range c.sliceSeq(sl, byteT).ps {
			t, ok := p.v.(*Term)
			if p.t != nil || p.n != nil || !ok {
				return nil, false
			}
			el = append(el, t)
		}
		return def(setDef{op: "New", el: el})
	case "Range":
		if len(args) != 2 {
			return nil, false
		}
		return def(setDef{op: "Range", el: []*Term{args[0].(*Term), args[1].(*Term)}})
	case "Complement":
		return def(setDef{op: name, sets: []Val{set(args[0], recv.Type())}})
	case "Add", "Sub":
		if len(args) != 2 {
			return nil, false
		}
		return def(setDef{op: name, sets: []Val{set(args[0], recv.Type()), set(args[1], fn.Signature.Params().At(0).Type())}})
	}
	return nil, false
}
