package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"regexp"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

func loadWorld(dir string) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Tests: false}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		os.Exit(3)
	}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			fmt.Fprintln(os.Stderr, "load:", e)
			os.Exit(3)
		}
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.NaiveForm|ssa.GlobalDebug|ssa.InstantiateGenerics)
	prog.Build()
	loadedPkgs = pkgs
	W = &World{prog: prog, pkgs: map[string]*ssa.Package{}, records: SDB.Records, tags: map[string]int64{}}
	for _, p := range prog.AllPackages() {
		W.pkgs[p.Pkg.Path()] = p
	}
	buildIndex()
}

type Report struct {
	Prop        string         `json:"prop"`
	Functions   []FuncReport   `json:"functions"`
	Obligations int            `json:"obligations"`
	Discharged  int            `json:"discharged"`
	Trivial     int            `json:"trivial"`
	Vacuity     int            `json:"vacuity_checks"`
	SolverTime  float64        `json:"solver_seconds"`
	BySolver    map[string]int `json:"by_solver"`
	Failed      []FailReport   `json:"failed"`
	Trusted     []string       `json:"trusted"`
	Inlined     []string       `json:"inlined"`
	MathInt     []string       `json:"mathint"`
	Wall        float64        `json:"wall"`
	Notes       []string       `json:"notes"`
}
type FuncReport struct {
	Name        string `json:"name"`
	Obligations int    `json:"obligations"`
	Discharged  int    `json:"discharged"`
	Loops       int    `json:"loops"`
	Err         string `json:"err,omitempty"`
}
type FailReport struct {
	Name   string `json:"name"`
	Kind   string `json:"kind"`
	Pos    string `json:"pos"`
	Src    string `json:"src"`
	Status string `json:"status"`
	Output string `json:"output"`
}

func verifyFunc(spec *FuncSpec) *FuncResult {
	r := genFunc(spec, nil, nil)
	if r.unres == "" && !strings.Contains(r.Err, "not found in the code") {
		r.wait = solveStart(r.Obls)
		return r
	}
	if strings.Contains(r.Err, "function ") && strings.Contains(r.Err, "not found in the code") {
		return r
	}
	// renamed locals or re-arranged loops: look for another reading of the contract
	tries := 0
	save := failFast
	failFast = true
	defer func() { failFast = save }()
	good := func(r *FuncResult) bool {
		if r.Err != "" {
			return false
		}
		solveAll(r.Obls)
		for _, o := range r.Obls {
			if !o.Vacuity && o.Status != "trivial" && o.Status != "proved" {
				return false
			}
		}
		return true
	}
	var rec func(r *FuncResult, alias map[string]string, lm []int, d int) *FuncResult
	rec = func(r *FuncResult, alias map[string]string, lm []int, d int) *FuncResult {
		if r.unres == "" || d > 3 {
			return nil
		}
		for _, c := range r.cands {
			if tries > 60 {
				return nil
			}
			tries++
			a := map[string]string{}
			for k, v := range alias {
				a[k] = v
			}
			a[r.unres] = c
			n := genFunc(spec, a, lm)
			if n.unres != "" {
				if z := rec(n, a, lm, d+1); z != nil {
					return z
				}
				continue
			}
			if good(n) {
				return n
			}
		}
		return nil
	}
	if r.unres != "" {
		if z := rec(r, nil, nil, 0); z != nil {
			return z
		}
	}
	// loop alignments: order-preserving maps from code loops to contract loops
	n := r.Loops
	var ords []int
	for o := range spec.Loops {
		ords = append(ords, o)
	}
	sort.Ints(ords)
	var maps [][]int
	var gen func(i, j int, cur []int)
	gen = func(i, j int, cur []int) {
		if len(maps) > 24 {
			return
		}
		if i == n {
			maps = append(maps, append([]int{}, cur...))
			return
		}
		for k := j; k < len(ords); k++ {
			gen(i+1, k+1, append(cur, ords[k]))
		}
		gen(i+1, j, append(cur, -1))
	}
	if n <= 6 {
		gen(0, 0, nil)
	}
	for _, lm := range maps {
		m := genFunc(spec, nil, lm)
		if m.unres != "" {
			if z := rec(m, nil, lm, 1); z != nil {
				return z
			}
			continue
		}
		if good(m) {
			return m
		}
	}
	return r
}

func main() {
	repo := flag.String("repo", "/repo", "")
	cdir := flag.String("contracts", "/verif/contracts", "")
	prop := flag.String("prop", "", "property id: verify its functions and everything they rely on")
	fre := flag.String("func", "", "regexp of contract names")
	verbose := flag.Bool("v", false, "")
	jout := flag.String("json", "", "")
	dump := flag.String("dump", "", "dump SSA of function")
	flag.StringVar(&keepQueries, "keep", "", "directory for queries")
	flag.BoolVar(&debugPanics, "debug", false, "")
	flag.Float64Var(&quickTO, "t", quickTO, "")
	flag.Float64Var(&slowTO, "T", slowTO, "")
	flag.IntVar(&jobs, "j", jobs, "")
	fast := flag.Bool("fast", false, "no portfolio")
	closure := flag.Bool("closure", true, "")
	flag.Parse()
	t0 := time.Now()
	loadSpecs(*cdir)
	loadWorld(*repo)
	addImpls()
	if *dump != "" {
		for k, f := range fnIndex {
			if strings.Contains(k, *dump) {
				fmt.Println("==", k)
				f.WriteTo(os.Stdout)
			}
		}
		return
	}
	var err error
	tmpDir, err = os.MkdirTemp("", "govc")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	defer os.RemoveAll(tmpDir)
	failFast = *fast
	for i, l := range SDB.Lemmas {
		lemmaOrder[l.Name] = i
		if l.Axiom || len(l.Trig) > 0 {
			if a := lemmaAxiom(l); a != nil {
				axioms = append(axioms, a)
			}
		}
	}
	if keepQueries != "" {
		os.MkdirAll(keepQueries, 0o755)
	}
	queue := []string{}
	seen := map[string]bool{}
	push := func(k string) {
		if !seen[k] {
			seen[k] = true
			queue = append(queue, k)
		}
	}
	var re *regexp.Regexp
	if *fre != "" {
		re = regexp.MustCompile(*fre)
	}
	has := func(ps []string) bool {
		for _, p := range ps {
			if p == *prop {
				return true
			}
		}
		return false
	}
	for _, s := range SDB.Funcs {
		if s.Kind != "func" {
			continue
		}
		if re != nil && re.MatchString(s.Pkg+"."+s.Name) || re == nil && (*prop == "" || has(s.Props)) {
			push(specKey(s))
		}
	}
	for _, l := range SDB.Lemmas {
		if re != nil && re.MatchString("lemma "+l.Name) || re == nil && (*prop == "" || has(l.Props)) {
			push("lemma " + l.Name)
		}
	}
	rep := &Report{Prop: *prop, BySolver: map[string]int{}}
	trusted := map[string]bool{}
	inl := map[string]bool{}
	type item struct {
		k string
		r *FuncResult
	}
	var items []item
	for len(queue) > 0 {
		k := queue[0]
		queue = queue[1:]
		var r *FuncResult
		if strings.HasPrefix(k, "lemma ") {
			l := findLemma(k[6:])
			if l.Axiom {
				trusted["axiom "+l.Name+" ("+l.Pos+")"] = true
				continue
			}
			r = genLemma(l)
			r.wait = solveStart(r.Obls)
		} else {
			s := SDB.ByName[k]
			if s == nil {
				continue
			}
			if s.Kind != "func" || s.Trusted != "" || s.NoCheck {
				why := s.Trusted
				trusted[strings.TrimSpace(k+" "+why)] = true
				continue
			}
			r = verifyFunc(s)
			if s.MathInt {
				rep.MathInt = append(rep.MathInt, k)
			}
		}
		if *closure && re == nil {
			for u := range r.Used {
				push(u)
			}
		}
		for t := range r.Trusted {
			if strings.HasPrefix(t, "axiom ") {
				trusted[t] = true
			}
		}
		for t := range r.Inlined {
			inl[t] = true
		}
		items = append(items, item{k, r})
	}
	var all []*Oblig
	for _, it := range items {
		if it.r.wait != nil {
			it.r.wait()
		}
		all = append(all, it.r.Obls...)
	}
	escalate(all)
	for _, it := range items {
		k, r := it.k, it.r
		fr := FuncReport{Name: k, Loops: r.Loops, Err: r.Err}
		if strings.HasPrefix(r.Err, "contract: function ") && strings.Contains(r.Err, "not found in the code") && !exportedKey(k) {
			// an internal helper that no longer exists: what used it is verified without it
			rep.Notes = append(rep.Notes, k+": "+r.Err)
			continue
		}
		if r.Err != "" {
			rep.Failed = append(rep.Failed, FailReport{Name: k + ": " + "verification condition generation", Kind: "generate", Status: "undecided", Output: r.Err})
		}
		rets, vac := 0, 0
		for _, o := range r.Obls {
			rep.SolverTime += o.Time
			if o.Vacuity {
				rep.Vacuity++
				if strings.Contains(o.Name, "entry") {
					if o.Status == "vacuous" {
						rep.Failed = append(rep.Failed, FailReport{Name: o.Name, Kind: "vacuity", Status: "vacuous", Src: "precondition is contradictory"})
					}
				} else {
					rets++
					if o.Status == "vacuous" {
						vac++
					}
				}
				continue
			}
			rep.Obligations++
			fr.Obligations++
			switch o.Status {
			case "trivial":
				rep.Trivial++
				rep.Discharged++
				fr.Discharged++
				rep.BySolver["simplifier"]++
			case "proved":
				rep.Discharged++
				fr.Discharged++
				rep.BySolver[o.Solver]++
			default:
				rep.Failed = append(rep.Failed, FailReport{Name: o.Name, Kind: o.Kind, Pos: o.Pos, Src: o.Src, Status: o.Status, Output: clip(o.Output)})
			}
			if *verbose {
				fmt.Printf("  %-9s %6.2fs %-10s %s  [%s]\n", o.Status, o.Time, o.Solver, o.Name, o.Pos)
			}
		}
		if rets > 0 && rets == vac {
			rep.Failed = append(rep.Failed, FailReport{Name: k + ": vacuity", Kind: "vacuity", Status: "vacuous", Src: "no return is reachable under the contract"})
		}
		if fr.Obligations == 0 && r.Err == "" {
			rep.Failed = append(rep.Failed, FailReport{Name: k + ": no obligations", Kind: "vacuity", Status: "vacuous"})
		}
		rep.Functions = append(rep.Functions, fr)
		if *verbose || *jout == "" {
			ft := 0.0
			for _, o := range r.Obls {
				ft += o.Time
			}
			fmt.Printf("%-70s %d/%d  %.1fs %s\n", k, fr.Discharged, fr.Obligations, ft, r.Err)
		}
	}
	for t := range trusted {
		rep.Trusted = append(rep.Trusted, t)
	}
	sort.Strings(rep.Trusted)
	rep.Inlined = sortedKeys(inl)
	rep.Wall = time.Since(t0).Seconds()
	if *jout != "" {
		b, _ := json.MarshalIndent(rep, "", " ")
		os.WriteFile(*jout, b, 0o644)
	}
	if *jout == "" || *verbose {
		for _, f := range rep.Failed {
			fmt.Printf("FAILED %s [%s] %s\n   %s\n   %s\n", f.Name, f.Status, f.Pos, f.Src, strings.ReplaceAll(f.Output, "\n", " | "))
		}
		fmt.Printf("obligations %d discharged %d (trivial %d) solver %.1fs wall %.1fs\n", rep.Obligations, rep.Discharged, rep.Trivial, rep.SolverTime, rep.Wall)
	}
	if len(rep.Failed) > 0 {
		os.RemoveAll(tmpDir)
		os.Exit(1)
	}
}

func exportedKey(k string) bool {
	n := k
	if i := strings.LastIndexAny(n, ". /"); i >= 0 {
		n = n[i+1:]
	}
	return n != "" && n[0] >= 'A' && n[0] <= 'Z'
}

func clip(s string) string {
	if len(s) > 600 {
		return s[:600]
	}
	return s
}
