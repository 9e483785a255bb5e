package main

import (
	_ "embed"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

// known is one line of the known-findings file.
type known struct {
	harness, match, what string
}

func loadKnown(path, prop string) []known {
	var out []known
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		parts := strings.Split(strings.TrimPrefix(l, "known: "), " | ")
		k := known{}
		ok := false
		for _, p := range parts {
			n, v, _ := strings.Cut(strings.TrimSpace(p), "=")
			switch n {
			case "property":
				ok = v == prop
			case "harness":
				k.harness = v
			case "match":
				k.match = v
			case "what":
				k.what = v
			}
		}
		if ok && k.harness != "" && k.match != "" {
			out = append(out, k)
		}
	}
	return out
}

func check(repo string) int {
	t0 := time.Now()
	ks := loadKnown(*flagKnown, *flagProp)
	isKnown := func(h string, v Violation) *known {
		for i := range ks {
			if ks[i].harness == h && strings.Contains(v.What+" "+strings.Join(v.Pos, " "), ks[i].match) {
				return &ks[i]
			}
		}
		return nil
	}
	limit := 840 * time.Second
	if *flagTier == "thorough" {
		limit = 4 * time.Hour
	}
	rs := runWorkers(repo, limit, func(r HRes) bool {
		if *flagAll {
			return false
		}
		if r.Unsupport != "" {
			return true
		}
		for _, v := range r.Viol {
			if isKnown(r.Name, v) == nil {
				return true
			}
		}
		return false
	})
	rc := 0
	var report []string
	var paths, asserts, cut, infeas, forks, viols int
	funcs := map[string]bool{}
	cutWhy := map[string]int{}
	knownSeen := map[string]bool{}
	var und []string
	type hsum struct {
		Obligation  string `json:"obligation"`
		Paths       int    `json:"paths"`
		Obligations int    `json:"facts_decided"`
		Cut         int    `json:"cut_by_bounds"`
	}
	var sums []hsum
	var samples []interface{}
	stopped := false // the rest was not analysed because something was found
	for _, r := range rs {
		stopped = stopped || len(r.Viol) > 0 && !*flagAll
	}
	for _, r := range rs {
		if *flagV || *flagEv == "" {
			fmt.Printf("%-40s paths %d cut %d %v infeas %d forks %d asserts %d %.1fs\n", r.Name, r.Paths, r.Cut, r.CutWhy, r.Infeasible, r.Forks, r.Asserts, r.Secs)
		}
		paths += r.Paths
		asserts += r.Asserts
		cut += r.Cut
		infeas += r.Infeasible
		forks += r.Forks
		for k, v := range r.CutWhy {
			cutWhy[k] += v
		}
		for _, f := range r.Funcs {
			funcs[f] = true
		}
		sums = append(sums, hsum{r.Name, r.Paths, r.Asserts, r.Cut})
		if len(samples) < 6 && len(r.Samples) > 0 {
			s := r.Samples[len(r.Samples)-1]
			if len(s) > 600 {
				s = s[:600] + "…"
			}
			samples = append(samples, r.Name+": "+s)
		}
		if r.Undecided != "" {
			und = append(und, r.Name+": "+r.Undecided)
		}
		bad := func(v Violation) {
			rc = 1
			viols++
			report = append(report, fmt.Sprintf("%s: %s", r.Name, v.What))
			for _, p := range v.Pos {
				report = append(report, "    at "+p)
			}
			for _, p := range v.Path {
				report = append(report, "    when "+p)
			}
		}
		if r.Unsupport != "" {
			bad(Violation{What: "the property could not be established: " + r.Unsupport})
		} else if !stopped && len(r.Viol) == 0 && (r.Paths == 0 || r.Asserts == 0) && r.Undecided == "" {
			bad(Violation{What: "the property could not be established: nothing was analysed"})
		}
		for _, v := range r.Viol {
			if k := isKnown(r.Name, v); k != nil {
				if !knownSeen[k.what] {
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", *flagProp, k.what)
				}
				knownSeen[k.what] = true
				continue
			}
			bad(v)
		}
	}
	if len(rs) == 0 {
		rc = 1
		report = append(report, "nothing was analysed")
	}
	if *flagEv != "" {
		var fl []string
		for f := range funcs {
			fl = append(fl, f)
		}
		sort.Strings(fl)
		seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
		info := propInfo[*flagProp]
		cov := map[string]interface{}{
			"explanation":            info.expl,
			"rule":                   info.rule,
			"obligations":            asserts,
			"paths_analysed":         paths,
			"paths_cut_by_bounds":    cut,
			"cut_reasons":            cutWhy,
			"infeasible_branches":    infeas,
			"branch_points":          forks,
			"functions_analysed":     fl,
			"analyses":               sums,
			"samples":                samples,
			"undecided_and_reported": und,
		}
		ev := map[string]interface{}{
			"property": *flagProp, "tier": *flagTier, "seed": seed, "level": "other",
			"coverage": cov, "wall_s": time.Since(t0).Seconds(), "violations": viols,
			"assumptions": append([]string{
				"the abstract interpreter's model of Go and of the standard library functions it does not look into is right",
				"loops, recursion and sizes are explored up to the bounds stated in DESIGN.md; paths beyond them are counted as cut, not decided",
			}, info.assume...),
		}
		b, _ := json.MarshalIndent(ev, "", " ")
		os.MkdirAll(filepath.Dir(*flagEv), 0o755)
		if err := os.WriteFile(*flagEv, append(b, '\n'), 0o644); err != nil {
			fmt.Println(err)
			return 2
		}
	}
	if rc != 0 {
		replay := ""
		if *flagEv != "" {
			replay = filepath.Join(filepath.Dir(*flagEv), *flagProp+".violation.txt")
			os.WriteFile(replay, []byte(strings.Join(report, "\n")+"\n"), 0o644)
		}
		for i, l := range report {
			if i < 40 || *flagV {
				fmt.Println(l)
			}
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", *flagProp, replay)
	} else if *flagEv != "" {
		fmt.Printf("ok property=%s: %d paths, %d facts decided, %d functions, %d paths cut by bounds, %.1fs\n", *flagProp, paths, asserts, len(funcs), cut, time.Since(t0).Seconds())
		os.Remove(filepath.Join(filepath.Dir(*flagEv), *flagProp+".violation.txt"))
	}
	return rc
}

type pinfo struct {
	expl, rule string
	assume     []string
}

var propInfo = map[string]pinfo{}

//go:embed info.json
var infoJSON []byte

func init() {
	var m map[string]struct {
		Note, Rule string
		Assume     []string
	}
	if err := json.Unmarshal(infoJSON, &m); err != nil {
		panic(err)
	}
	for k, v := range m {
		propInfo[k] = pinfo{v.Note, v.Rule, v.Assume}
	}
}
