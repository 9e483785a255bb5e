package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/zyedidia/gpeg"

type World struct {
	repo                string
	fset                *token.FileSet
	pkgs                []*packages.Package
	prog                *ssa.Program
	initHeap            map[*Term]Val
	initMax             int64
	repoPkg             map[*ssa.Package]bool
	specFn              map[*ssa.Function]bool // intrinsics
	built               map[*ssa.Package]bool
	errT                types.Type
	harness             []*Harness
	globals             map[*ssa.Global]*Term
	errN                int64
	inited              map[*ssa.Package]bool
	dropped, droppedWhy []string
}

type Harness struct {
	Prop, Name string
	Fn, Spec   *ssa.Function
	Opts       map[string]string
	Pkg        string
}

func (w *World) posStr(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := w.fset.Position(p)
	f := q.Filename
	if r, err := filepath.Rel(w.repo, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func (w *World) isInit(r *Term) bool {
	_, ok := w.initHeap[r]
	return ok
}

func (w *World) build(p *ssa.Package) {
	if !w.built[p] {
		w.built[p] = true
		p.Build()
	}
}

func (w *World) globalRef(g *ssa.Global) *Term {
	if t, ok := w.globals[g]; ok {
		return t
	}
	et := g.Type().Underlying().(*types.Pointer).Elem()
	t := refTerm(OApp, "nonnil", 0, refTerm(OSym, g.String(), 0))
	t.typ = et
	w.globals[g] = t
	if g.Pkg != nil && !w.repoPkg[g.Pkg] && tyKey(et) == "error" {
		w.errN++
		w.initHeap[t] = IfaceV{w.errT, refTerm(OApp, "nonnil", 0, refTerm(OSym, g.String()+"!", 0))}
	}
	return t
}

func (w *World) method(t types.Type, m *types.Func) *ssa.Function {
	f := w.prog.LookupMethod(t, m.Pkg(), m.Name())
	if f != nil && f.Pkg != nil {
		w.build(f.Pkg)
	}
	return f
}

// load type-checks the repository together with the reference specifications.
func load(repo string, overlay map[string][]byte, patterns ...string) (*World, error) {
	env := append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off")
	cfg := &packages.Config{
		Mode:    packages.LoadAllSyntax,
		Dir:     repo,
		Overlay: overlay,
		Env:     env,
	}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	drop := map[string]bool{}
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if !strings.HasPrefix(p.PkgPath, modPath) {
			return
		}
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
			file, _, _ := strings.Cut(e.Pos, ":")
			if strings.Contains(string(overlay[file]), "//g:optional") {
				drop[file] = true
			}
		}
	})
	if len(drop) > 0 {
		// contracts of unexported functions apply only while these exist
		ov := map[string][]byte{}
		for f, b := range overlay {
			if !drop[f] {
				ov[f] = b
			}
		}
		w, err := load(repo, ov, patterns...)
		if err == nil {
			for f := range drop {
				w.dropped = append(w.dropped, filepath.Base(f))
			}
			w.droppedWhy = append(w.droppedWhy, errs...)
		}
		return w, err
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("type errors: %s", strings.Join(errs, "; "))
	}
	if os.Getenv("GPEG_INTERNALS") != "" {
		internals(pkgs)
	}
	w := &World{repo: repo, pkgs: pkgs, initHeap: map[*Term]Val{}, repoPkg: map[*ssa.Package]bool{},
		specFn: map[*ssa.Function]bool{}, built: map[*ssa.Package]bool{}, globals: map[*ssa.Global]*Term{}, inited: map[*ssa.Package]bool{}}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	w.prog = prog
	w.fset = prog.Fset
	for _, p := range prog.AllPackages() {
		path := p.Pkg.Path()
		if path == modPath || strings.HasPrefix(path, modPath+"/") {
			w.repoPkg[p] = true
		}
		if path == "errors" {
			w.errT = types.NewPointer(p.Type("errorString").Type())
		}
	}
	var rp []*ssa.Package
	for p := range w.repoPkg {
		rp = append(rp, p)
	}
	sort.Slice(rp, func(i, j int) bool { return rp[i].Pkg.Path() < rp[j].Pkg.Path() })
	for _, p := range rp {
		w.build(p)
	}
	w.findHarnesses(rp)
	return w, nil
}

var harnessRe = regexp.MustCompile(`^g(C\d\d)_(.+?)(_A|_B)?$`)

func (w *World) findHarnesses(rp []*ssa.Package) {
	docs := map[token.Pos]*ast.CommentGroup{}
	packages.Visit(w.pkgs, nil, func(p *packages.Package) {
		if !strings.HasPrefix(p.PkgPath, modPath) {
			return
		}
		for _, f := range p.Syntax {
			if !strings.Contains(w.fset.Position(f.Pos()).Filename, "zz_gpegspec") {
				continue
			}
			for _, d := range f.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok {
					docs[fd.Name.Pos()] = fd.Doc
				}
			}
		}
	})
	byKey := map[string]*Harness{}
	for _, p := range rp {
		for _, m := range p.Members {
			fn, ok := m.(*ssa.Function)
			if !ok {
				continue
			}
			if !strings.Contains(w.fset.Position(fn.Pos()).Filename, "zz_gpegspec") {
				continue
			}
			if strings.HasPrefix(fn.Name(), "g") {
				if mt := harnessRe.FindStringSubmatch(fn.Name()); mt != nil {
					key := p.Pkg.Path() + "." + mt[1] + mt[2]
					h := byKey[key]
					if h == nil {
						h = &Harness{Prop: mt[1], Name: mt[2], Opts: map[string]string{}, Pkg: p.Pkg.Path()}
						byKey[key] = h
						w.harness = append(w.harness, h)
					}
					if mt[3] == "_B" {
						h.Spec = fn
					} else {
						h.Fn = fn
					}
					if d := docs[fn.Pos()]; d != nil {
						for _, cm := range d.List {
							if s, ok := strings.CutPrefix(cm.Text, "//g:opt "); ok {
								for _, o := range strings.Fields(s) {
									k, v, _ := strings.Cut(o, "=")
									h.Opts[k] = v
								}
							}
						}
					}
				} else if len(fn.Name()) > 1 && fn.Name()[1] >= 'A' && fn.Name()[1] <= 'Z' && isIntrinsic[fn.Name()] {
					w.specFn[fn] = true
				}
			}
		}
	}
	sort.Slice(w.harness, func(i, j int) bool {
		a, b := w.harness[i], w.harness[j]
		if a.Prop != b.Prop {
			return a.Prop < b.Prop
		}
		return a.Name < b.Name
	})
}

var isIntrinsic = map[string]bool{
	"gAssume": true, "gAssert": true, "gFail": true, "gSame": true, "gKnown": true, "gChoose": true, "gCut": true,
	"gDone": true, "gSym": true, "gUF": true, "gEv": true, "gEvent": true, "gEvents": true, "gMentions": true,
	"gConst": true, "gIsConst": true, "gLocked": true, "gPopcount": true, "gEvName": true, "gEvRes": true, "gEvErr": true, "gEvArg": true, "gEvOut": true, "gPartLike": true,
}

func (h *Harness) cfg() *Cfg {
	get := func(k string, d int) int {
		if s, ok := h.Opts[k]; ok {
			n, err := strconv.Atoi(s)
			if err == nil {
				return n
			}
		}
		return d
	}
	has := func(k string) bool { _, ok := h.Opts[k]; return ok }
	cf := &Cfg{
		LoopK: get("loop", 3), RecK: get("rec", 3), Steps: get("steps", 3000000),
		AppendFork: has("appendfork"), InPlace: has("inplace"), NumCPU: has("numcpu"), Strict: has("strict"), MapPerm: has("mapperm"), MapPermAll: h.Opts["mapperm"] == "all",
		Soft: has("soft"), Sets: has("sets"), NoHeap: has("noheap"), ImplFirst: has("implfirst"), MaxPaths: get("maxpaths", 200000),
		Candidates: map[string][]types.Type{}, Opaque: map[string]bool{},
	}
	if s := h.Opts["opaque"]; s != "" {
		for _, o := range strings.Split(s, ",") {
			cf.Opaque[o] = true
		}
	}
	cf.UF = map[string]bool{}
	if s := h.Opts["uf"]; s != "" {
		for _, o := range strings.Split(s, ",") {
			cf.UF[o] = true
		}
	}
	if s := h.Opts["subst"]; s != "" {
		cf.Subst = map[string]*ssa.Function{}
		for _, o := range strings.Split(s, ",") {
			if a, b, ok := strings.Cut(o, ":"); ok && h.Fn != nil && h.Fn.Pkg != nil {
				if f := h.Fn.Pkg.Func(b); f != nil {
					cf.Subst[a] = f
				}
			}
		}
	}
	return cf
}

// initPackages evaluates the package-level initialization that fn depends on.
func (w *World) initPackages(p *ssa.Package) error {
	if w.inited[p] {
		return nil
	}
	w.inited[p] = true
	// dependencies first (inside the repository, and utf8)
	for _, im := range p.Pkg.Imports() {
		ip := w.prog.Package(im)
		if ip == nil {
			continue
		}
		if w.repoPkg[ip] || im.Path() == "unicode/utf8" {
			if err := w.initPackages(ip); err != nil {
				return err
			}
		} else {
			for _, sub := range im.Imports() {
				if sub.Path() == "unicode/utf8" {
					if sp := w.prog.Package(sub); sp != nil {
						if err := w.initPackages(sp); err != nil {
							return err
						}
					}
				}
			}
		}
	}
	w.build(p)
	init := p.Func("init")
	if init == nil {
		return nil
	}
	ex := &Explorer{}
	cfg := &Cfg{LoopK: 1000000, RecK: 1000, Steps: 100000000, Subst: w.initSubst(p)}
	ex.Run(w, cfg, func(c *Ctx) {
		c.sides[0].nfresh = 3000000 + w.initMax
		for _, g := range p.Members {
			if gl, ok := g.(*ssa.Global); ok {
				t := w.globalRef(gl)
				if _, ok := w.initHeap[t]; !ok {
					c.s().heap[t] = zeroOf(t.typ)
				}
			}
		}
		// only this package: calls of other init functions are skipped
		c.skipInit = true
		c.run(init, nil, nil)
		for r, v := range c.s().heap {
			w.initHeap[r] = v
		}
		w.initMax = c.sides[0].nfresh - 3000000
	})
	if ex.unsupport != "" {
		return fmt.Errorf("init of %s: %s", p.Pkg.Path(), ex.unsupport)
	}
	if len(ex.viol) > 0 {
		return fmt.Errorf("init of %s: %s", p.Pkg.Path(), ex.viol[0].What)
	}
	if ex.Paths != 1 {
		return fmt.Errorf("init of %s: %d paths", p.Pkg.Path(), ex.Paths)
	}
	return nil
}

// initSubst are the functions that are replaced while a package is initialized.
func (w *World) initSubst(p *ssa.Package) map[string]*ssa.Function {
	m := map[string]*ssa.Function{}
	for _, h := range w.harness {
		if h.Fn == nil || h.Fn.Pkg != p {
			continue
		}
		if s := h.Opts["initsubst"]; s != "" {
			for _, o := range strings.Split(s, ",") {
				if a, b, ok := strings.Cut(o, ":"); ok {
					if f := p.Func(b); f != nil {
						m[a] = f
					}
				}
			}
		}
	}
	return m
}

// internals lists the unexported names of the repository that the
// specifications refer to (for maintenance: what they depend on).
func internals(pkgs []*packages.Package) {
	seen := map[string]bool{}
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if p.TypesInfo == nil || !strings.HasPrefix(p.PkgPath, modPath) {
			return
		}
		for id, o := range p.TypesInfo.Uses {
			f := p.Fset.Position(id.Pos()).Filename
			if !strings.Contains(f, "zz_gpegspec") || o.Exported() || o.Pkg() == nil || !strings.HasPrefix(o.Pkg().Path(), modPath) {
				continue
			}
			if df := p.Fset.Position(o.Pos()).Filename; strings.Contains(df, "zz_gpegspec") {
				continue
			}
			seen[filepath.Base(f)+": "+o.String()] = true
		}
	})
	var l []string
	for s := range seen {
		l = append(l, s)
	}
	sort.Strings(l)
	for _, s := range l {
		fmt.Fprintln(os.Stderr, s)
	}
}
