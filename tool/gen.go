package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
)

// Obligations of C25 are generated from the kinds of instructions and of
// patterns that the source declares, so that new kinds are covered as well.

func kindsOf(p *packages.Package, iface string, ptr bool) []*types.Named {
	o := p.Types.Scope().Lookup(iface)
	if o == nil {
		return nil
	}
	it, ok := o.Type().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var out []*types.Named
	for _, n := range p.Types.Scope().Names() {
		tn, ok := p.Types.Scope().Lookup(n).(*types.TypeName)
		if !ok || tn.IsAlias() || !tn.Exported() {
			continue
		}
		nt, ok := tn.Type().(*types.Named)
		if !ok || nt.TypeParams().Len() > 0 {
			continue
		}
		if _, ok := nt.Underlying().(*types.Struct); !ok {
			continue
		}
		var t types.Type = nt
		if ptr {
			t = types.NewPointer(nt)
		}
		if types.Implements(t, it) {
			out = append(out, nt)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Obj().Name() < out[j].Obj().Name() })
	return out
}

func genC25(repo string) (map[string][]byte, error) {
	cfg := &packages.Config{Mode: packages.NeedName | packages.NeedTypes | packages.NeedImports | packages.NeedDeps | packages.NeedSyntax | packages.NeedTypesInfo,
		Dir: repo, Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off")}
	ps, err := packages.Load(cfg, "./isa", "./pattern")
	if err != nil {
		return nil, err
	}
	out := map[string][]byte{}
	for _, p := range ps {
		switch p.PkgPath {
		case modPath + "/pattern":
			out[filepath.Join(repo, "pattern", "zz_gpegspec_kinds.go")] = genPatterns(p)
		case modPath + "/isa":
			out[filepath.Join(repo, "vm", "zz_gpegspec_kinds.go")] = genInsns(p)
		}
	}
	if len(out) != 2 {
		return nil, fmt.Errorf("packages isa and pattern not found")
	}
	return out, nil
}

type subField struct{ name, set string }

// subFields lists the fields of a pattern kind that hold subpatterns.
func subFields(n *types.Named) []subField {
	var out []subField
	st := n.Underlying().(*types.Struct)
	isP := func(t types.Type) bool {
		n, ok := t.(*types.Named)
		return ok && n.Obj().Name() == "Pattern" && n.Obj().Pkg().Path() == modPath+"/pattern"
	}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		switch t := f.Type().(type) {
		case *types.Named:
			if isP(t) {
				out = append(out, subField{f.Name(), "%s"})
			}
		case *types.Slice:
			if isP(t.Elem()) {
				out = append(out, subField{f.Name(), "[]Pattern{&DotNode{N: 3}, %s}"})
			}
		case *types.Map:
			if isP(t.Elem()) {
				if b, ok := t.Key().Underlying().(*types.Basic); ok && b.Kind() == types.String {
					out = append(out, subField{f.Name(), `map[string]Pattern{"A": &DotNode{N: 3}, "B": %s}`})
				}
			}
		}
	}
	return out
}

// literal is an expression for a pattern of some kind with x as one of its
// subpatterns.
func literal(name string, fs []subField, f subField) string {
	var init []string
	for _, g := range fs {
		v := "&DotNode{N: 7}"
		if g.name == f.name {
			v = "x"
		}
		init = append(init, g.name+": "+fmt.Sprintf(g.set, v))
	}
	if name == "GrammarNode" {
		init = append(init, `Start: "A"`)
	}
	return fmt.Sprintf("&%s{%s}", name, strings.Join(init, ", "))
}

func genPatterns(p *packages.Package) []byte {
	var b strings.Builder
	b.WriteString("//go:build go1.21\n\npackage pattern\n\n")
	// makers of every kind around a subpattern, for nesting
	var inner []string
	for _, n := range kindsOf(p, "Pattern", true) {
		fs := subFields(n)
		for _, f := range fs {
			inner = append(inner, literal(n.Obj().Name(), fs, f))
		}
	}
	fmt.Fprintf(&b, "func gInner(k int, x Pattern) Pattern {\n\tswitch k {\n")
	for i, l := range inner {
		fmt.Fprintf(&b, "\tcase %d:\n\t\treturn %s\n", i, l)
	}
	fmt.Fprintf(&b, "\t}\n\treturn x\n}\n\n")
	for _, n := range kindsOf(p, "Pattern", true) {
		name := n.Obj().Name()
		fs := subFields(n)
		for _, f := range fs {
			fmt.Fprintf(&b, `//g:opt loop=300 rec=20
func gC25_%[1]s_%[2]s_Nested() {
	leaf := &LiteralNode{Str: "subpattern"}
	k := gChoose(%[4]d)
	x := gInner(k, leaf)
	var t Pattern = %[3]s
	in, n, all := 0, 0, 0
	WalkPattern(t, true, func(s Pattern) {
		all++
		if s == Pattern(leaf) {
			n++
		}
		if s == x {
			in++
		}
	})
	gAssert(n == 1 && in == 1, "walking a %[1]s does not visit what its subpattern %[2]s consists of exactly once")
	gAssert(CountSubPatterns(t) == all, "the number of subpatterns of a %[1]s is wrong")
	gAssert(gContains(Prettify(t), "subpattern"), "the printed form of a %[1]s lacks what its subpattern %[2]s consists of")
}

`, name, f.name, literal(name, fs, f), len(inner))
			lit := literal(name, fs, f)
			fmt.Fprintf(&b, `//g:opt loop=300 rec=20
func gC25_%[1]s_%[2]s() {
	x := &LiteralNode{Str: "subpattern"}
	var t Pattern = %[3]s
	n, self, all := 0, 0, 0
	WalkPattern(t, true, func(s Pattern) {
		all++
		if s == Pattern(x) {
			n++
		}
		if s == t {
			self++
		}
	})
	gAssert(n == 1, "walking a %[1]s does not visit its subpattern %[2]s exactly once")
	gAssert(self == 1, "walking a %[1]s does not visit the pattern itself exactly once")
	gAssert(CountSubPatterns(t) == all, "the number of subpatterns of a %[1]s is wrong")
	gAssert(gContains(Prettify(t), "subpattern"), "the printed form of a %[1]s lacks its subpattern %[2]s")
}

`, name, f.name, lit)
		}
		if len(fs) == 0 {
			fmt.Fprintf(&b, `//g:opt loop=260 rec=20
func gC25_%[1]s() {
	t := &%[1]s{}
	n := 0
	WalkPattern(t, true, func(s Pattern) { n++ })
	gAssert(n == 1 && CountSubPatterns(t) == 1, "the number of subpatterns of a %[1]s is wrong")
	gAssert(Prettify(t) != "<invalid>", "a %[1]s cannot be printed")
}

`, name)
		}
	}
	return []byte(b.String())
}

func genInsns(p *packages.Package) []byte {
	var b strings.Builder
	b.WriteString("//go:build go1.21\n\npackage vm\n\nimport \"github.com/zyedidia/gpeg/isa\"\n\n")
	var all []string
	for _, n := range kindsOf(p, "Insn", false) {
		name := n.Obj().Name()
		if name == "Label" || name == "Nop" {
			continue
		}
		st := n.Underlying().(*types.Struct)
		var init []string
		lbl, chk := "", false
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			if nt, ok := f.Type().(*types.Named); ok && f.Exported() {
				switch nt.Obj().Name() {
				case "Label":
					lbl = f.Name()
					init = append(init, f.Name()+": isa.Label{Id: gSym[int](\"label\")}")
				case "Checker":
					chk = true
					init = append(init, f.Name()+": gOpaque{1}")
				}
			}
		}
		lit := fmt.Sprintf("isa.%s{%s}", name, strings.Join(init, ", "))
		if name != "" {
			all = append(all, fmt.Sprintf("isa.%s{}", name))
		}
		_ = chk
		fmt.Fprintf(&b, "//g:opt loop=300 rec=20\nfunc gC25_%s() {\n\tgInsnKind(%s, %v)\n", name, lit, lbl != "")
		b.WriteString("}\n\n")
	}
	fmt.Fprintf(&b, "var gAllInsns = []isa.Insn{%s}\n", strings.Join(all, ", "))
	return []byte(b.String())
}
