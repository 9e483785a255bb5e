package main

import (
	"bytes"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

// Models of functions whose source is not analysed: the intrinsics of the
// reference specifications and the parts of the standard library whose meaning
// is fixed.

func origin(fn *ssa.Function) *ssa.Function {
	if o := fn.Origin(); o != nil {
		return o
	}
	return fn
}

func (c *Ctx) str(v Val) string {
	if s, ok := v.(StrV); ok {
		if b, ok := concBytes(s.s); ok {
			return string(b)
		}
	}
	c.unsupported("constant string expected: %s", vstr(v))
	return ""
}

func (c *Ctx) kint(v Val) int64 {
	if t, ok := v.(*Term); ok {
		if k, ok := c.f.canon(t).isConst(); ok {
			return k
		}
	}
	c.unsupported("constant expected: %s", vstr(v))
	return 0
}

// variadic gives the elements of a ...interface{} argument.
func (c *Ctx) variadic(v Val) []Val {
	sl := v.(SliceV)
	s := c.sliceSeq(sl, types.NewInterfaceType(nil, nil))
	var out []Val
	for _, p := range s.ps {
		if p.t != nil || p.n != nil {
			c.unsupported("unknown variadic arguments")
		}
		out = append(out, p.v)
	}
	return out
}

func unwrapI(v Val) Val {
	if i, ok := v.(IfaceV); ok {
		return i.v
	}
	return v
}

func (c *Ctx) model(fn *ssa.Function, args []Val, pos token.Pos) (Val, bool) {
	o := origin(fn)
	if o.Pkg == nil && o.Object() == nil {
		return nil, false
	}
	if c.w.specFn[o] {
		return c.intrinsic(fn, o.Name(), args, pos)
	}
	name := o.String()
	if f := c.cfg.Subst[name]; f != nil {
		c.w.build(f.Pkg)
		return c.run(f, args, nil), true
	}
	if c.cfg.UF[name] {
		var ts []*Term
		for i, a := range args {
			sig := o.Signature
			at := types.Type(nil)
			if sig.Recv() != nil {
				if at = sig.Recv().Type(); i > 0 {
					at = sig.Params().At(i - 1).Type()
				}
			} else {
				at = sig.Params().At(i).Type()
			}
			if _, ok := at.Underlying().(*types.Pointer); ok {
				a = c.load(c.addrOf(a, "argument"))
			}
			ts = append(ts, c.termOf(a))
		}
		return resultVal(fn.Signature.Results(), refTerm(OApp, name, 0, ts...)), true
	}
	if c.cfg.Sets && o.Pkg != nil && o.Pkg.Pkg.Path() == setPkg {
		if v, ok := c.setModel(o, args, pos); ok {
			return v, true
		}
	}
	if c.cfg.Opaque[name] {
		return c.event(name, args, fn.Signature.Results(), pos), true
	}
	if o.Pkg != nil && c.w.repoPkg[o.Pkg] {
		return nil, false
	}
	return c.stdlib(fn, name, args, pos)
}

func (c *Ctx) intrinsic(fn *ssa.Function, name string, args []Val, pos token.Pos) (Val, bool) {
	switch name {
	case "gAssume":
		c.assumeLit(args[0].(*Term), true)
		return nil, true
	case "gAssert":
		if !c.branch(args[0].(*Term)) {
			c.violate("%s", c.str(args[1]))
		}
		c.ex.Asserts++
		return nil, true
	case "gFail":
		c.violate("%s", c.str(args[0]))
	case "gSame":
		c.compare(0, unwrapI(args[0]), unwrapI(args[1]), c.str(args[2]))
		c.ex.Asserts++
		return nil, true
	case "gKnown": // is the condition decided to be true?
		return mkBool(c.decide(args[0].(*Term)) == 1), true
	case "gChoose":
		n := int(c.kint(args[0]))
		return K(int64(c.chooseSplit(n))), true
	case "gCut":
		panic(abortPath{"cut", c.str(args[0])})
	case "gDone":
		panic(abortPath{"done", ""})
	case "gSym":
		return c.symbol(fn.Signature.Results().At(0).Type(), c.str(args[0])), true
	case "gUF":
		ts := []*Term{}
		for _, a := range c.variadic(args[1]) {
			ts = append(ts, c.termOf(unwrapI(a)))
		}
		return symOf(fn.Signature.Results().At(0).Type(), refTerm(OApp, c.str(args[0]), 0, ts...)), true
	case "gEv":
		return c.event(c.str(args[0]), unwrapAll(c.variadic(args[1])), fn.Signature.Results(), pos), true
	case "gEvent":
		return c.event(c.str(args[0]), unwrapAll(c.variadic(args[1])), nil, pos), true
	case "gEvents":
		return K(int64(len(c.s().events))), true
	case "gEvName", "gEvRes", "gEvErr", "gEvArg", "gEvOut":
		i := int(c.kint(args[0]))
		if i < 0 || i >= len(c.s().events) {
			c.unsupported("event %d", i)
		}
		e := c.s().events[i]
		switch name {
		case "gEvName":
			return strOf(e.name), true
		case "gEvOut":
			if e.out == nil {
				return zeroOf(fn.Signature.Results().At(0).Type()), true
			}
			return e.out, true
		case "gEvArg":
			k := int(c.kint(args[1]))
			if k < 0 {
				k += len(e.args)
			}
			if k >= len(e.args) {
				return zeroOf(fn.Signature.Results().At(0).Type()), true
			}
			iv, ok := e.args[k].(IfaceV)
			if !ok {
				return zeroOf(fn.Signature.Results().At(0).Type()), true
			}
			if p, ok := iv.t.Underlying().(*types.Pointer); ok {
				return IfaceV{t: p.Elem(), v: c.load(c.addrOf(iv.v, "argument"))}, true
			}
			return iv, true
		}
		if e.rest == nil || e.rest.Len() == 0 {
			return zeroOf(fn.Signature.Results().At(0).Type()), true
		}
		k := e.rest.Len() - 1
		if name == "gEvRes" {
			k = int(c.kint(args[1]))
		}
		rv := e.res
		if e.rest.Len() > 1 {
			switch t := rv.(type) {
			case TupleV:
				rv = t[k]
			case StructV:
				rv = t.f[k]
			}
		}
		rt := e.rest.At(k).Type()
		if name == "gEvErr" && tyKey(rt) != "error" {
			return zeroOf(fn.Signature.Results().At(0).Type()), true
		}
		if types.IsInterface(rt) {
			return rv, true
		}
		return IfaceV{t: rt, v: rv}, true
	case "gPartLike":
		x, ok1 := args[0].(IfaceV)
		like, ok2 := args[1].(IfaceV)
		if !ok1 || !ok2 || x.t == nil || like.t == nil {
			return zeroOf(fn.Signature.Results().At(0).Type()), true
		}
		var find func(t types.Type, v Val) Val
		find = func(t types.Type, v Val) Val {
			if types.Identical(t, like.t) {
				return IfaceV{t: t, v: v}
			}
			if st, ok := t.Underlying().(*types.Struct); ok {
				for i := 0; i < st.NumFields(); i++ {
					if sv, ok := v.(StructV); ok {
						if r := find(st.Field(i).Type(), sv.f[i]); r != nil {
							return r
						}
					}
				}
			}
			return nil
		}
		if r := find(x.t, x.v); r != nil {
			return r, true
		}
		return zeroOf(fn.Signature.Results().At(0).Type()), true
	case "gMentions":
		return mkBool(c.mentions(args[0], unwrapI(args[1]))), true
	case "gConst": // concrete value if the path fixes it
		return c.f.canon(args[0].(*Term)), true
	case "gIsConst":
		_, ok := c.f.canon(args[0].(*Term)).isConst()
		return mkBool(ok), true
	case "gPopcount":
		n := K(0)
		for _, b := range toBits(c.f.canon(args[0].(*Term))) {
			n = Add(n, b2i(b))
		}
		return n, true
	case "gLocked":
		n := 0
		for _, k := range c.s().locks {
			n += k
		}
		return K(int64(n)), true
	}
	return nil, false
}

func unwrapAll(vs []Val) []Val {
	out := make([]Val, len(vs))
	for i, v := range vs {
		out[i] = unwrapI(v)
	}
	return out
}

func (c *Ctx) symbol(t types.Type, name string) Val {
	c.nsym++
	// the same symbol on both sides if the names agree
	return symOf(t, refTerm(OSym, name, 0))
}

// mentions tells whether the value depends on the given symbolic value.
func (c *Ctx) mentions(v Val, x Val) bool {
	t := c.termOf(v)
	for _, a := range c.atomsOf(x) {
		if occurs(a, t) {
			return true
		}
	}
	return false
}

func (c *Ctx) atomsOf(x Val) []*Term {
	switch x := x.(type) {
	case *Term:
		return []*Term{c.f.canon(x)}
	case StructV:
		var out []*Term
		for _, f := range x.f {
			out = append(out, c.atomsOf(f)...)
		}
		return out
	case StrV:
		return c.atomsOf(x.s)
	case SeqV:
		var out []*Term
		for _, p := range x.ps {
			if p.t != nil {
				out = append(out, p.t)
			} else {
				out = append(out, c.atomsOf(p.v)...)
			}
		}
		return out
	case SliceV:
		return c.atomsOf(c.snapshot(x))
	case IfaceV:
		return c.atomsOf(x.v)
	}
	return nil
}

func (c *Ctx) newError(args ...Val) Val {
	return IfaceV{c.w.errT, refTerm(OApp, "nonnil", 0, c.termsOf(args)...)}
}

// goValue turns a concrete abstract value into a Go value for formatting.
func (c *Ctx) goValue(v Val) (interface{}, bool) {
	iv, ok := v.(IfaceV)
	if !ok {
		return nil, false
	}
	switch u := iv.t.(type) {
	case *types.Basic:
		switch x := iv.v.(type) {
		case *Term:
			x = c.f.canon(x)
			k, ok := x.isConst()
			if u.Info()&types.IsBoolean != 0 {
				if x == tTrue || x == tFalse {
					return x == tTrue, true
				}
				return nil, false
			}
			if !ok {
				return nil, false
			}
			switch u.Kind() {
			case types.Int:
				return int(k), true
			case types.Int32:
				return int32(k), true
			case types.Uint8:
				return uint8(k), true
			case types.Uint64:
				return uint64(k), true
			case types.Int64:
				return k, true
			case types.Int16:
				return int16(k), true
			case types.Uint16:
				return uint16(k), true
			case types.Uint32:
				return uint32(k), true
			}
		case StrV:
			if b, ok := concBytes(x.s); ok {
				return string(b), true
			}
		}
	}
	return nil, false
}

// fmtArgs calls String/Error methods of the arguments as fmt does.
func (c *Ctx) fmtArgs(args []Val, pos token.Pos) []Val {
	out := make([]Val, len(args))
	for i, a := range args {
		a = c.concrete(a, nil)
		if iv, ok := a.(IfaceV); ok {
			if _, basic := iv.t.(*types.Basic); !basic {
				if m := c.w.strMethod(iv.t, "Error"); m != nil && isStringer(m) {
					a = IfaceV{types.Typ[types.String], c.call(m, []Val{iv.v}, nil, pos)}
				} else if m := c.w.strMethod(iv.t, "String"); m != nil && isStringer(m) {
					a = IfaceV{types.Typ[types.String], c.call(m, []Val{iv.v}, nil, pos)}
				}
			}
		}
		out[i] = a
	}
	return out
}

func isStringer(m *ssa.Function) bool {
	r := m.Signature.Results()
	return m.Signature.Params().Len() == 0 && r.Len() == 1 && isStr(r.At(0).Type())
}

func (c *Ctx) sprintf(format Val, args []Val, pos token.Pos) Val {
	args = c.fmtArgs(args, pos)
	f, ok := format.(StrV)
	if fb, okb := concBytes(f.s); ok && okb {
		var gs []interface{}
		all := true
		for _, a := range args {
			g, ok := c.goValue(a)
			if !ok {
				all = false
				break
			}
			gs = append(gs, g)
		}
		if all {
			return strOf(fmt.Sprintf(string(fb), gs...))
		}
		// %s and %v with strings are concatenation
		if s, ok := c.concatFormat(string(fb), args); ok {
			return s
		}
	}
	return c.pureStr("Sprintf", append([]Val{format}, args...)...)
}

func (c *Ctx) concatFormat(f string, args []Val) (Val, bool) {
	var out SeqV
	out.et = byteT
	i := 0
	for len(f) > 0 {
		k := strings.IndexByte(f, '%')
		if k < 0 {
			out = seqCat(out, strOf(f).s)
			break
		}
		out = seqCat(out, strOf(f[:k]).s)
		if k+1 >= len(f) {
			return nil, false
		}
		verb := f[k+1]
		f = f[k+2:]
		if verb == '%' {
			out = seqCat(out, strOf("%").s)
			continue
		}
		if i >= len(args) {
			return nil, false
		}
		a := args[i]
		i++
		if g, ok := c.goValue(a); ok {
			out = seqCat(out, strOf(fmt.Sprintf("%"+string(verb), g)).s)
			continue
		}
		if s, ok := unwrapI(a).(StrV); ok && (verb == 's' || verb == 'v') {
			out = seqCat(out, s.s)
			continue
		}
		if !strings.ContainsRune("dsvqcxbtT", rune(verb)) {
			return nil, false
		}
		out = seqCat(out, c.pureStr("fmt%"+string(verb), a).(StrV).s)
	}
	return StrV{out}, true
}

func (c *Ctx) bytesOf(v Val) SeqV {
	switch v := v.(type) {
	case SliceV:
		return c.sliceSeq(v, byteT)
	case StrV:
		return v.s
	}
	c.unsupported("bytes of %s", vstr(v))
	return SeqV{}
}

const readLock = 1000

func (c *Ctx) lockOp(addr Val, d int) {
	t := c.addrOf(addr, "lock")
	o := c.s().locks[t]
	n := o + d
	if d == 1 && o > 0 || d == readLock && o%readLock > 0 {
		c.panicT("lock taken twice (deadlock)")
	}
	if n < 0 || d == -1 && o%readLock == 0 {
		c.panicT("unlock of unlocked mutex")
	}
	c.s().locks[t] = n
}

func b2i(b *BNode) *Term {
	switch b {
	case bTrue:
		return K(1)
	case bFalse:
		return K(0)
	}
	return ranged(mk(OApp, SInt, "b2i", 0, bTerm(b)), 0, 1)
}

func (c *Ctx) bufField(p Val, k int) (*Term, SeqV) {
	a := c.addrOf(p, "buffer")
	st := c.load(a).(StructV)
	f := refTerm(OFieldAddr, "buf", int64(k), a)
	return f, c.sliceSeq(st.f[k].(SliceV), byteT)
}

func (c *Ctx) stdlib(fn *ssa.Function, name string, args []Val, pos token.Pos) (Val, bool) {
	switch name {
	case "fmt.Sprintf":
		return c.sprintf(args[0], c.variadic(args[1]), pos), true
	case "fmt.Sprint", "fmt.Sprintln":
		return c.pureStr(name, c.fmtArgs(c.variadic(args[0]), pos)...), true
	case "fmt.Errorf":
		s := c.sprintf(args[0], c.variadic(args[1]), pos)
		return c.newError(s), true
	case "errors.New":
		return c.newError(args[0]), true
	case "(*errors.errorString).Error":
		t := c.addrOf(args[0], "error")
		if t.op == OApp && t.name == "nonnil" {
			return symOf(types.Typ[types.String], refTerm(OApp, "errtext", 0, t)), true
		}
	case "fmt.Println", "fmt.Printf", "fmt.Print":
		c.event(name, c.variadic(args[len(args)-1]), nil, pos)
		return TupleV{K(0), tNil}, true
	case "strconv.Itoa":
		if k, ok := c.f.canon(args[0].(*Term)).isConst(); ok {
			return strOf(strconv.Itoa(int(k))), true
		}
		return c.pureStr(name, args...), true
	case "strconv.Quote", "strconv.QuoteToASCII":
		if b, ok := concBytes(args[0].(StrV).s); ok {
			if name == "strconv.Quote" {
				return strOf(strconv.Quote(string(b))), true
			}
			return strOf(strconv.QuoteToASCII(string(b))), true
		}
		return c.pureStr(name, args...), true
	case "strconv.QuoteRune", "strconv.QuoteRuneToASCII":
		if k, ok := c.f.canon(args[0].(*Term)).isConst(); ok {
			if name == "strconv.QuoteRune" {
				return strOf(strconv.QuoteRune(rune(k))), true
			}
			return strOf(strconv.QuoteRuneToASCII(rune(k))), true
		}
		return c.pureStr(name, args...), true
	case "strconv.ParseUint", "strconv.ParseInt", "strconv.Atoi":
		if b, ok := concBytes(args[0].(StrV).s); ok {
			var v int64
			var err error
			switch name {
			case "strconv.ParseUint":
				var u uint64
				u, err = strconv.ParseUint(string(b), int(c.kint(args[1])), int(c.kint(args[2])))
				v = int64(u)
			case "strconv.ParseInt":
				v, err = strconv.ParseInt(string(b), int(c.kint(args[1])), int(c.kint(args[2])))
			default:
				var i int
				i, err = strconv.Atoi(string(b))
				v = int64(i)
			}
			if err != nil {
				return TupleV{K(v), c.newError(strOf(err.Error()))}, true
			}
			return TupleV{K(v), tNil}, true
		}
		var ts []*Term
		for _, a := range args {
			ts = append(ts, c.termOf(a))
		}
		return symOf(fn.Signature.Results(), refTerm(OApp, name, 0, ts...)), true
	case "bytes.Equal":
		return mkBool(c.seqEq(c.bytesOf(args[0]), c.bytesOf(args[1]), byteT)), true
	case "bytes.Count", "bytes.Index", "bytes.LastIndex", "strings.Index", "strings.Count", "strings.LastIndex":
		x, ok1 := concBytes(c.bytesOf(args[0]))
		y, ok2 := concBytes(c.bytesOf(args[1]))
		if ok1 && ok2 {
			switch name[strings.IndexByte(name, '.')+1:] {
			case "Count":
				return K(int64(bytes.Count(x, y))), true
			case "Index":
				return K(int64(bytes.Index(x, y))), true
			default:
				return K(int64(bytes.LastIndex(x, y))), true
			}
		}
		return c.searchModel(name[strings.IndexByte(name, '.')+1:], c.bytesOf(args[0]), c.bytesOf(args[1])), true
	case "bytes.IndexByte":
		return c.searchModel("Index", c.bytesOf(args[0]), SeqV{byteT, []Piece{{v: args[1]}}}), true
	case "strings.Repeat":
		if b, ok := concBytes(args[0].(StrV).s); ok {
			if k, ok := c.f.canon(args[1].(*Term)).isConst(); ok && k >= 0 {
				return strOf(strings.Repeat(string(b), int(k))), true
			}
		}
		return c.pureStr(name, args...), true
	case "strings.Join", "strings.Replace", "strings.ReplaceAll", "strings.Title", "strings.ToLower", "strings.ToUpper", "strings.TrimSpace", "strings.TrimSuffix", "strings.TrimPrefix":
		return c.pureStr(name, args...), true
	case "(*bytes.Buffer).Write", "(*bytes.Buffer).WriteString", "(*bytes.Buffer).WriteByte", "(*bytes.Buffer).WriteRune":
		f, s := c.bufField(args[0], 0)
		return c.bufWrite(name, f, s, args)
	case "(*bytes.Buffer).Bytes":
		f, _ := c.bufField(args[0], 0)
		return c.load(f), true
	case "(*bytes.Buffer).String":
		_, s := c.bufField(args[0], 0)
		return StrV{s}, true
	case "(*bytes.Buffer).Len":
		_, s := c.bufField(args[0], 0)
		return seqLen(s), true
	case "bytes.NewBufferString", "bytes.NewBuffer":
		p := c.fresh(fn.Signature.Results().At(0).Type().(*types.Pointer).Elem())
		st := zeroOf(p.typ).(StructV)
		st.f[0] = c.newSlice(SeqV{byteT, c.bytesOf(args[0]).ps}, nil)
		c.s().heap[p] = st
		return p, true
	case "(*strings.Builder).Write", "(*strings.Builder).WriteString", "(*strings.Builder).WriteByte", "(*strings.Builder).WriteRune":
		f, s := c.bufField(args[0], 1)
		return c.bufWrite(name, f, s, args)
	case "(*strings.Builder).String":
		_, s := c.bufField(args[0], 1)
		return StrV{s}, true
	case "(*strings.Builder).Len":
		_, s := c.bufField(args[0], 1)
		return seqLen(s), true
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
		c.lockOp(args[0], 1)
		return nil, true
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock":
		c.lockOp(args[0], -1)
		return nil, true
	case "(*sync.RWMutex).RLock":
		c.lockOp(args[0], readLock)
		return nil, true
	case "(*sync.RWMutex).RUnlock":
		c.lockOp(args[0], -readLock)
		return nil, true
	case "(*sync.WaitGroup).Add", "(*sync.WaitGroup).Done", "(*sync.WaitGroup).Wait":
		return nil, true
	case "runtime.NumCPU", "runtime.GOMAXPROCS":
		if c.cfg.NumCPU {
			if c.s().ncpu == 0 {
				c.s().ncpu = c.choose(3) + 1
			}
			return K(int64(c.s().ncpu)), true
		}
		return K(2), true
	case "math/bits.OnesCount64", "math/bits.OnesCount8", "math/bits.OnesCount", "math/bits.OnesCount32":
		n := K(0)
		for _, b := range toBits(c.f.canon(args[0].(*Term))) {
			n = Add(n, b2i(b))
		}
		return n, true
	case "reflect.TypeOf":
		v := c.concrete(args[0], nil)
		if iv, ok := v.(IfaceV); ok {
			t := refTerm(OApp, "rtype", 0, refTerm(OApp, tyKey(iv.t), 0))
			rtypes[t] = iv.t
			return t, true
		}
		t := v.(*Term)
		if t == tNil {
			return tNil, true
		}
		return refTerm(OApp, "rtype", 0, t), true
	case "unicode.SimpleFold":
		if k, ok := c.f.canon(args[0].(*Term)).isConst(); ok {
			return K(int64(unicode.SimpleFold(rune(k)))), true
		}
		return symOf(types.Typ[types.Rune], refTerm(OApp, name, 0, c.f.canon(args[0].(*Term)))), true
	case "unicode.IsLetter", "unicode.IsDigit", "unicode.IsSpace", "unicode.ToLower", "unicode.ToUpper", "unicode.IsUpper", "unicode.IsLower":
		return symOf(fn.Signature.Results().At(0).Type(), refTerm(OApp, name, 0, c.f.canon(args[0].(*Term)))), true
	case "encoding/gob.Register":
		return nil, true
	case "math/rand.Seed":
		return nil, true
	case "log.Fatal", "log.Fatalf", "os.Exit":
		c.panicT(name)
	case "math/rand.Intn", "math/rand.Float64", "math/rand.Int":
		return c.event(name, nil, fn.Signature.Results(), pos), true
	}
	if o := origin(fn); o.Pkg != nil {
		switch o.Pkg.Pkg.Path() {
		case "encoding/gob", "encoding/json", "compress/gzip", "os", "io/ioutil", "log", "math/rand", "reflect":
			v := c.event(name, args, fn.Signature.Results(), pos)
			switch name {
			case "(*encoding/gob.Decoder).Decode", "(*encoding/json.Decoder).Decode", "encoding/json.Unmarshal":
				c.fill(args)
			}
			return v, true
		case "regexp/syntax":
			if o.Name() == "Parse" {
				return c.event(name, args, fn.Signature.Results(), pos), true
			}
		case "io":
			if o.Name() == "ReadAll" || o.Name() == "Copy" {
				return c.event(name, args, fn.Signature.Results(), pos), true
			}
		}
		if o.Name() != "init" {
			c.w.build(o.Pkg)
		}
	}
	return nil, false
}

var rtypes = map[*Term]types.Type{}

func (c *Ctx) rtypeMethod(t *Term, name string) Val {
	ty := rtypes[t]
	switch name {
	case "Comparable":
		if ty != nil {
			return mkBool(types.Comparable(ty))
		}
		return mk(OApp, SBool, "comparable", 0, t.args[0])
	case "String", "Name":
		return c.pureStr("rtype."+name, t)
	}
	c.unsupported("reflect.Type.%s", name)
	return nil
}

func (c *Ctx) bufWrite(name string, f *Term, s SeqV, args []Val) (Val, bool) {
	var add SeqV
	var res Val
	switch name[strings.LastIndexByte(name, '.')+1:] {
	case "Write":
		add = c.bytesOf(args[1])
		res = TupleV{seqLen(add), tNil}
	case "WriteString":
		add = args[1].(StrV).s
		res = TupleV{seqLen(add), tNil}
	case "WriteByte":
		add = SeqV{byteT, []Piece{{v: args[1]}}}
		res = tNil
	case "WriteRune":
		k, ok := c.f.canon(args[1].(*Term)).isConst()
		if !ok {
			c.unsupported("WriteRune of unknown rune")
		}
		add = strOf(string(rune(k))).s
		res = TupleV{seqLen(add), tNil}
	}
	n := c.newSlice(seqCat(SeqV{byteT, nil}, s, add), nil)
	c.store(f, n)
	return res, true
}

// searchModel: bytes.Count, Index and LastIndex of unknown text.
func (c *Ctx) searchModel(kind string, s, sep SeqV) Val {
	n := seqLen(s)
	m := seqLen(sep)
	if c.branch(Lt(n, m)) {
		if kind == "Count" {
			return K(0)
		}
		return K(-1)
	}
	if kn, ok := c.f.canon(n).isConst(); ok && kn <= 32 {
		if km, ok := c.f.canon(m).isConst(); ok && km > 0 {
			at := func(i int) bool {
				for j := 0; j < int(km); j++ {
					if !c.branch(c.eqTerm(c.seqAt(s, K(int64(i+j))), c.seqAt(sep, K(int64(j))), byteT)) {
						return false
					}
				}
				return true
			}
			last := int(kn - km)
			switch kind {
			case "Index":
				for i := 0; i <= last; i++ {
					if at(i) {
						return K(int64(i))
					}
				}
				return K(-1)
			case "LastIndex":
				for i := last; i >= 0; i-- {
					if at(i) {
						return K(int64(i))
					}
				}
				return K(-1)
			default:
				k := 0
				for i := 0; i <= last; {
					if at(i) {
						k++
						i += int(km)
					} else {
						i++
					}
				}
				return K(int64(k))
			}
		}
	}
	t := mk(OApp, SInt, "bytes."+kind, 0, c.termOf(s), c.termOf(sep))
	if kind == "Count" {
		ranged(t, 0, PosInf)
		c.assume(Le(t, AddK(n, 1)))
		return t
	}
	ranged(t, -1, PosInf)
	c.assume(Le(t, Sub(n, m)))
	return t
}

func constInt(v constant.Value) int64 {
	i, _ := constant.Int64Val(v)
	return i
}

// chooseSplit is choose, where the first choices distribute the paths among
// the parts of the harness.
func (c *Ctx) chooseSplit(n int) int {
	k := c.choose(n)
	if c.cfg.SplitN > 1 && c.splitCnt < c.cfg.SplitDepth && c.sd == 0 && n > 1 {
		c.splitCnt++
		c.splitVal = c.splitVal*n + k
		if c.splitCnt == c.cfg.SplitDepth && c.splitVal%c.cfg.SplitN != c.cfg.SplitK {
			panic(abortPath{"skip", ""})
		}
	}
	return k
}

func (w *World) strMethod(t types.Type, name string) *ssa.Function {
	sel := types.NewMethodSet(t).Lookup(nil, name)
	if sel == nil {
		return nil
	}
	f := w.prog.MethodValue(sel)
	if f != nil && f.Pkg != nil {
		w.build(f.Pkg)
	}
	return f
}
