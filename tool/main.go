package main

import (
	"embed"
	"encoding/json"
	"flag"
	"fmt"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

//go:embed spec
var specFS embed.FS

var (
	flagProp  = flag.String("prop", "", "property to check")
	flagRepo  = flag.String("repo", "/repo", "repository")
	flagTier  = flag.String("tier", "quick", "quick or thorough")
	flagEv    = flag.String("evidence", "", "evidence file to write")
	flagShard = flag.String("shard", "", "i/n (worker)")
	flagRun   = flag.String("run", "", "only harnesses whose name contains this")
	flagV     = flag.Bool("v", false, "verbose")
	flagKnown = flag.String("known", "", "known findings")
	flagAll   = flag.Bool("all", false, "do not stop at the first violation")
	flagJ     = flag.Int("j", 8, "workers")
)

type HRes struct {
	Name       string
	Paths      int
	Cut        int
	Infeasible int
	Forks      int
	Asserts    int
	CutWhy     map[string]int
	Funcs      []string
	Viol       []Violation
	Unsupport  string
	Undecided  string
	Samples    []string
	Secs       float64
}

var propFile = regexp.MustCompile(`^c\d\d`)

// wanted tells whether a specification file of a property is needed for
// another one: only what a check needs has to fit the code.
func wanted(dir, prop, name string) bool {
	need := map[string]bool{}
	work := []string{prop}
	for len(work) > 0 {
		p := work[0]
		work = work[1:]
		if need[p] {
			continue
		}
		need[p] = true
		b, _ := specFS.ReadFile("spec/" + dir + "/" + p + ".go.txt")
		for _, l := range strings.Split(string(b), "\n") {
			if s, ok := strings.CutPrefix(l, "//g:needs "); ok {
				work = append(work, strings.Fields(s)...)
			}
		}
	}
	return need[name[:3]]
}

func overlayFiles(repo string) (map[string][]byte, error) {
	out := map[string][]byte{}
	base, err := specFS.ReadFile("spec/base.go.txt")
	if err != nil {
		return nil, err
	}
	pk := map[string]string{}
	if *flagProp == "C25" {
		if out, err = genC25(repo); err != nil {
			return nil, err
		}
	}
	err = fs.WalkDir(specFS, "spec", func(p string, d fs.DirEntry, err error) error {
		if err != nil || d.IsDir() || !strings.HasSuffix(p, ".go.txt") || p == "spec/base.go.txt" {
			return err
		}
		b, err := specFS.ReadFile(p)
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel("spec", p)
		dir := filepath.Dir(rel)
		name := strings.TrimSuffix(filepath.Base(rel), ".go.txt")
		if *flagProp != "" && propFile.MatchString(name) && !wanted(dir, strings.ToLower(*flagProp), name) {
			return nil
		}
		out[filepath.Join(repo, dir, "zz_gpegspec_"+name+".go")] = b
		for _, l := range strings.Split(string(b), "\n") {
			if s, ok := strings.CutPrefix(l, "package "); ok {
				pk[dir] = strings.TrimSpace(s)
				break
			}
		}
		return nil
	})
	for dir, name := range pk {
		out[filepath.Join(repo, dir, "zz_gpegspec_base.go")] = []byte(strings.Replace(string(base), "package PKG", "package "+name, 1))
	}
	return out, err
}

func runHarness(w *World, h *Harness, it workItem) (res HRes) {
	res.Name = h.Name
	t0 := time.Now()
	defer func() {
		if r := recover(); r != nil {
			res.Unsupport = fmt.Sprintf("internal error: %v\n%s", r, debug.Stack())
		}
		res.Secs = time.Since(t0).Seconds()
	}()
	if h.Fn == nil {
		res.Unsupport = "harness without implementation side"
		return
	}
	if err := w.initPackages(h.Fn.Pkg); err != nil {
		res.Unsupport = err.Error()
		return
	}
	ex := &Explorer{}
	cfg := h.cfg()
	ex.MaxPaths = cfg.MaxPaths
	cfg.SplitK, cfg.SplitN, cfg.SplitDepth = it.K, it.N, h.depth()
	ex.Run(w, cfg, func(c *Ctx) {
		var args []Val
		for _, p := range h.Fn.Params {
			args = append(args, symOf(p.Type(), refTerm(OSym, p.Name(), 0)))
		}
		if h.Spec != nil {
			c.pair(h.Fn, h.Spec, args)
			c.ex.Asserts++
			return
		}
		o := c.runSide(0, h.Fn, args)
		if o.panic != nil {
			c.violate("panics: %s at %s", o.panic.why, c.w.posStr(o.panic.pos))
		}
	})
	res.Paths, res.Cut, res.Infeasible, res.Forks, res.CutWhy, res.Asserts = ex.Paths, ex.Cut, ex.Infeas, ex.Forks, ex.CutWhy, ex.Asserts
	res.Viol, res.Unsupport, res.Samples = ex.viol, ex.unsupport, ex.samples
	if cfg.Soft && res.Unsupport != "" && len(res.Viol) == 0 {
		res.Undecided, res.Unsupport = res.Unsupport, ""
	}
	for f := range ex.Funcs {
		if !strings.Contains(w.fset.Position(f.Pos()).Filename, "zz_gpegspec") {
			res.Funcs = append(res.Funcs, strings.ReplaceAll(f.String(), modPath+"/", ""))
		}
	}
	sort.Strings(res.Funcs)
	return
}

func main() {
	flag.Parse()
	debug.SetGCPercent(400)
	repo, _ := filepath.Abs(*flagRepo)
	if *flagShard != "" {
		if f := os.Getenv("GPEG_PROF"); f != "" {
			w, _ := os.Create(fmt.Sprintf("%s.%d", f, os.Getpid()))
			pprof.StartCPUProfile(w)
			defer pprof.StopCPUProfile()
		}
		worker(repo)
		return
	}
	os.Exit(check(repo))
}

func dirsOf(prop string, ov map[string][]byte, repo string) []string {
	seen := map[string]bool{}
	for p, b := range ov {
		if strings.Contains(string(b), "func g"+prop+"_") {
			rel, _ := filepath.Rel(repo, filepath.Dir(p))
			seen["./"+rel] = true
		}
	}
	var out []string
	for d := range seen {
		out = append(out, d)
	}
	sort.Strings(out)
	return out
}

// workItem is one harness, or a part of one.
type workItem struct {
	Name string
	K, N int
}

type workerHello struct {
	List    []workItem
	Err     string
	Dropped []string
}

func (h *Harness) depth() int {
	n := 1
	if s, ok := h.Opts["splitdepth"]; ok {
		fmt.Sscanf(s, "%d", &n)
	}
	return n
}

func worker(repo string) {
	enc := json.NewEncoder(os.Stdout)
	var hello workerHello
	ov, err := overlayFiles(repo)
	var w *World
	if err == nil {
		var dirs []string
		if len(analyses[*flagProp]) > 0 {
			dirs = []string{"./..."}
		} else {
			dirs = dirsOf(*flagProp, ov, repo)
		}
		if len(dirs) == 0 {
			err = fmt.Errorf("nothing to check for %s", *flagProp)
		} else {
			w, err = load(repo, ov, dirs...)
		}
	}
	if err != nil {
		hello.Err = err.Error()
		enc.Encode(hello)
		return
	}
	hello.Dropped = w.droppedWhy
	byName := map[string]*Harness{}
	for _, h := range w.harness {
		if h.Prop != *flagProp || !strings.Contains(h.Name, *flagRun) {
			continue
		}
		if _, ok := h.Opts["thorough"]; ok && *flagTier != "thorough" {
			continue
		}
		if byName[h.Name] != nil {
			hello.Err = "duplicate harness " + h.Name
		}
		byName[h.Name] = h
		n := 1
		if s, ok := h.Opts["split"]; ok {
			fmt.Sscanf(s, "%d", &n)
		}
		for k := 0; k < n; k++ {
			hello.List = append(hello.List, workItem{h.Name, k, n})
		}
	}
	for name := range analyses[*flagProp] {
		if strings.Contains(name, *flagRun) {
			hello.List = append(hello.List, workItem{"@" + name, 0, 1})
		}
	}
	sort.SliceStable(hello.List, func(i, j int) bool {
		if hello.List[i].N != hello.List[j].N {
			return hello.List[i].N > hello.List[j].N
		}
		return hello.List[i].Name < hello.List[j].Name
	})
	enc.Encode(hello)
	dec := json.NewDecoder(os.Stdin)
	for {
		var it workItem
		if dec.Decode(&it) != nil {
			return
		}
		if strings.HasPrefix(it.Name, "@") {
			enc.Encode(runAnalysis(w, it.Name[1:], analyses[*flagProp][it.Name[1:]]))
			continue
		}
		enc.Encode(runHarness(w, byName[it.Name], it))
		runtime.GC()
	}
}

func runAnalysis(w *World, name string, f func(w *World) HRes) (res HRes) {
	t0 := time.Now()
	defer func() {
		if r := recover(); r != nil {
			res.Unsupport = fmt.Sprintf("internal error: %v\n%s", r, debug.Stack())
		}
		res.Name = "@" + name
		res.Secs = time.Since(t0).Seconds()
	}()
	return f(w)
}

// runWorkers runs all work items; stop tells whether a result ends the run.
func runWorkers(repo string, limit time.Duration, stop func(HRes) bool) []HRes {
	var mu sync.Mutex
	var all []HRes
	var queue []workItem
	var dropped []HRes
	var have, halted bool
	var wg sync.WaitGroup
	deadline := time.Now().Add(limit)
	n := *flagJ
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			cmd := exec.Command(os.Args[0], "-prop", *flagProp, "-repo", repo, "-tier", *flagTier, "-run", *flagRun, "-shard", fmt.Sprintf("%d/%d", i, n))
			cmd.Stderr = os.Stderr
			in, _ := cmd.StdinPipe()
			out, _ := cmd.StdoutPipe()
			add := func(r HRes) {
				mu.Lock()
				all = append(all, r)
				if stop(r) {
					halted = true
				}
				mu.Unlock()
			}
			if err := cmd.Start(); err != nil {
				add(HRes{Name: "worker", Unsupport: err.Error()})
				return
			}
			cur := ""
			kill := time.AfterFunc(time.Until(deadline), func() { cmd.Process.Kill() })
			go func() {
				for {
					time.Sleep(200 * time.Millisecond)
					mu.Lock()
					h := halted
					mu.Unlock()
					if h {
						cmd.Process.Kill()
						return
					}
				}
			}()
			defer kill.Stop()
			defer cmd.Wait()
			defer in.Close()
			dec := json.NewDecoder(out)
			enc := json.NewEncoder(in)
			var hello workerHello
			if err := dec.Decode(&hello); err != nil {
				mu.Lock()
				h := halted
				mu.Unlock()
				if h {
					return
				}
				add(HRes{Name: "worker", Unsupport: "worker failed: " + err.Error()})
				return
			}
			if hello.Err != "" {
				if i == 0 {
					add(HRes{Name: "load", Unsupport: hello.Err})
				}
				return
			}
			mu.Lock()
			if !have {
				have = true
				queue = hello.List
				for _, d := range hello.Dropped {
					dropped = append(dropped, HRes{Name: "contracts of unexported functions", Undecided: d})
				}
			}
			mu.Unlock()
			for {
				mu.Lock()
				if len(queue) == 0 || halted {
					mu.Unlock()
					return
				}
				it := queue[0]
				queue = queue[1:]
				mu.Unlock()
				cur = it.Name
				enc.Encode(it)
				var r HRes
				if err := dec.Decode(&r); err != nil {
					mu.Lock()
					h := halted
					mu.Unlock()
					if !h {
						why := "analysis process ended: " + err.Error()
						if time.Now().After(deadline) {
							why = "not decided within the time limit"
						}
						add(HRes{Name: cur, Unsupport: why})
					}
					return
				}
				add(r)
			}
		}(i)
	}
	wg.Wait()
	sort.SliceStable(all, func(i, j int) bool { return all[i].Name < all[j].Name })
	if !halted && len(queue) > 0 {
		all = append(all, HRes{Name: queue[0].Name, Unsupport: fmt.Sprintf("%d obligations were not analysed", len(queue))})
	}
	// merge the parts
	out := dropped
	for _, r := range all {
		if len(out) > 0 && out[len(out)-1].Name == r.Name {
			out[len(out)-1].merge(r)
		} else {
			out = append(out, r)
		}
	}
	return out
}

func (a *HRes) merge(b HRes) {
	a.Paths += b.Paths
	a.Cut += b.Cut
	a.Infeasible += b.Infeasible
	a.Forks += b.Forks
	a.Asserts += b.Asserts
	for k, v := range b.CutWhy {
		if a.CutWhy == nil {
			a.CutWhy = map[string]int{}
		}
		a.CutWhy[k] += v
	}
	seen := map[string]bool{}
	for _, f := range a.Funcs {
		seen[f] = true
	}
	for _, f := range b.Funcs {
		if !seen[f] {
			a.Funcs = append(a.Funcs, f)
		}
	}
	a.Viol = append(a.Viol, b.Viol...)
	if a.Unsupport == "" {
		a.Unsupport = b.Unsupport
	}
	if a.Undecided == "" {
		a.Undecided = b.Undecided
	}
	a.Secs += b.Secs
}

var _ *ssa.Function

// analyses are the decision procedures that are not path based.
var analyses = map[string]map[string]func(w *World) HRes{}

func register(prop, name string, f func(w *World) HRes) {
	if analyses[prop] == nil {
		analyses[prop] = map[string]func(w *World) HRes{}
	}
	analyses[prop][name] = f
}
