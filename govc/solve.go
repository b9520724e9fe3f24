package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

var (
	debugPanics bool
	tmpDir      string
	quickTO     = 3.0
	slowTO      = 40.0
	splitTO     = 12.0
	keepQueries string
	jobs        = 8
)

// ---- prelude ----

var preludeDone bool

func bv(n, s string) *Term { return BoundVar(n, s) }

func buildPrelude() {
	if preludeDone {
		return
	}
	preludeDone = true
	add := func(name string, syms []string, vars []*Term, trig []*Term, body *Term) {
		var q []string
		for _, s := range syms {
			q = append(q, quote(s))
		}
		axioms = append(axioms, &AxiomT{Name: "prelude " + name, T: Forall(vars, [][]*Term{trig}, body), Syms: q})
	}
	z := IntLit(0)
	s := bv("s", SStr)
	t := bv("t", SStr)
	i := bv("i", "Int")
	j := bv("j", "Int")
	k := bv("k", "Int")
	a := bv("a", ArrSort("Int", "Int"))
	// make sure the symbols are declared
	SLen(s)
	SAt(s, i)
	MkStr(a, i, j)
	SSub(s, i, j)
	SCat(s, t)
	add("slen-nonneg", []string{"slen"}, []*Term{s}, []*Term{SLen(s)}, And(Le(z, SLen(s)), Le(SLen(s), maxLen())))
	add("byte", []string{"sat"}, []*Term{s, i}, []*Term{SAt(s, i)}, And(Le(z, SAt(s, i)), Le(SAt(s, i), IntLit(255))))
	m := MkStr(a, i, j)
	add("mkstr-len", []string{"mkstr"}, []*Term{a, i, j}, []*Term{m}, Implies(And(Le(z, j), Le(j, maxLen())), Eq(SLen(m), j)))
	add("mkstr-at", []string{"mkstr", "sat"}, []*Term{a, i, j, k}, []*Term{SAt(m, k)}, Implies(And(Le(z, k), Lt(k, j), Le(z, Select(a, Add(i, k))), Le(Select(a, Add(i, k)), IntLit(255))), Eq(SAt(m, k), Select(a, Add(i, k)))))
	ss := SSub(s, i, j)
	ok := And(Le(z, i), Le(i, j), Le(j, SLen(s)))
	add("ssub-len", []string{"ssub"}, []*Term{s, i, j}, []*Term{ss}, Implies(ok, Eq(SLen(ss), Sub(j, i))))
	add("ssub-at", []string{"ssub", "sat"}, []*Term{s, i, j, k}, []*Term{SAt(ss, k)}, Implies(And(ok, Le(z, k), Lt(k, Sub(j, i))), Eq(SAt(ss, k), SAt(s, Add(i, k)))))
	add("ssub-whole", []string{"ssub"}, []*Term{s, i, j}, []*Term{ss}, Implies(And(Eq(i, z), Eq(j, SLen(s))), Eq(ss, s)))
	l := bv("l", "Int")
	sm := SSub(m, k, l)
	add("ssub-mkstr", []string{"ssub", "mkstr"}, []*Term{a, i, j, k, l}, []*Term{sm}, Implies(And(Le(z, k), Le(k, l), Le(l, j), Le(j, maxLen())), Eq(sm, MkStr(a, Add(i, k), Sub(l, k)))))
	ssb := SSub(ss, k, l)
	add("ssub-ssub", []string{"ssub"}, []*Term{s, i, j, k, l}, []*Term{ssb}, Implies(And(ok, Le(z, k), Le(k, l), Le(l, Sub(j, i))), Eq(ssb, SSub(s, Add(i, k), Add(i, l)))))
	c := SCat(s, t)
	add("scat-len", []string{"scat"}, []*Term{s, t}, []*Term{c}, Implies(Le(Add(SLen(s), SLen(t)), maxLen()), Eq(SLen(c), Add(SLen(s), SLen(t)))))
	add("scat-at", []string{"scat", "sat"}, []*Term{s, t, k}, []*Term{SAt(c, k)}, Implies(And(Le(z, k), Lt(k, Add(SLen(s), SLen(t)))), Eq(SAt(c, k), Ite(Lt(k, SLen(s)), SAt(s, k), SAt(t, Sub(k, SLen(s)))))))
	// extensionality on demand: seqv(s,t)
	DeclFun("seqv", []string{SStr, SStr}, "Bool")
	sv := App("seqv", "Bool", s, t)
	kk := bv("k", "Int")
	axioms = append(axioms, &AxiomT{Name: "prelude seqv", Syms: []string{"seqv"}, T: Forall([]*Term{s, t}, [][]*Term{{sv}}, And(Eq(sv, Eq(s, t)),
		Eq(sv, And(Eq(SLen(s), SLen(t)), Forall([]*Term{kk}, [][]*Term{{SAt(s, kk)}, {SAt(t, kk)}}, Implies(And(Le(z, kk), Lt(kk, SLen(s))), Eq(SAt(s, kk), SAt(t, kk))))))))})
	ix := Ix(i, j)
	add("ix", []string{"ix"}, []*Term{i, j}, []*Term{ix}, Eq(ix, Add(i, j)))
	ixx := Ix(ix, k)
	add("ix-ix", []string{"ix"}, []*Term{i, j, k}, []*Term{ixx}, Eq(ixx, Ix(i, Add(j, k))))
	// empty string
	add("empty", []string{"slen"}, []*Term{s}, []*Term{SLen(s)}, Implies(Eq(SLen(s), z), Eq(s, StrLit(""))))
}

var boxDone = map[string]bool{}

func boxAxioms(syms map[string]bool) {
	for s := range syms {
		n := strings.Trim(s, "|")
		if !strings.HasPrefix(n, "box_") || boxDone[n] {
			continue
		}
		boxDone[n] = true
		sig := funDecls[s]
		v := BoundVar("v", sig.args[0])
		b := App(n, "Int", v)
		axioms = append(axioms, &AxiomT{Name: "prelude " + n, Syms: []string{s}, T: Forall([]*Term{v}, [][]*Term{{b}}, Eq(App("un"+n, sig.args[0], b), v))})
	}
}

func litFacts(syms map[string]bool) []*Term {
	var out []*Term
	var lits []*Term
	for _, s := range strOrder {
		t := strLits[s]
		if !syms[t.op] {
			continue
		}
		lits = append(lits, t)
		l := mk("slen", "Int", t)
		out = append(out, Eq(l, IntLit(int64(len(s)))))
		if len(s) <= 24 {
			for i := 0; i < len(s); i++ {
				out = append(out, Eq(mk("sat", "Int", t, IntLit(int64(i))), IntLit(int64(s[i]))))
			}
		}
	}
	if len(lits) > 1 {
		out = append(out, mk("distinct", "Bool", lits...))
	}
	return out
}

// ---- query construction (single-threaded: term store is shared) ----

func buildQuery(o *Oblig, lemmaLimit string) string {
	x := o.x
	var as []*Term
	for i := 0; i < o.nass; i++ {
		a := x.assumps[i]
		if x.isAnc(a.node, o.node) {
			as = append(as, a.t)
		}
	}
	as = append(as, o.guard)
	if o.goal != False {
		as = append(as, Not(o.goal))
	}
	return finishQuery(o, lemmaLimit, as)
}

// splitQueries: the obligation case by case, for the ways the paths to it go at the last merges
// (and for none of these ways, so the cases always cover everything). nil if there are none.
func splitQueries(o *Oblig, lemmaLimit string) []string {
	x := o.x
	var cases []map[int]int // merge -> way
	cases = append(cases, map[int]int{})
	n := 0
	var used []int
	for i := len(x.merges) - 1; i >= 0 && n < 3; i-- {
		m := x.merges[i]
		if !x.isAnc(m.node, o.node) || len(m.reach) > 8 || len(cases)*(len(m.reach)+1) > 24 {
			continue
		}
		n++
		used = append(used, i)
		var next []map[int]int
		for _, c := range cases {
			for k := 0; k <= len(m.reach); k++ {
				d := map[int]int{i: k}
				for a, b := range c {
					d[a] = b
				}
				next = append(next, d)
			}
		}
		cases = next
	}
	if n == 0 {
		return nil
	}
	var out []string
	for _, c := range cases {
		sub := map[*Term]*Term{}
		var facts []*Term
		var conj func(t *Term)
		conj = func(t *Term) {
			facts = append(facts, t)
			switch t.op {
			case "and":
				for _, a := range t.args {
					conj(a)
				}
			case "not":
				sub[t.args[0]] = False
			}
			if t != True && t != False {
				sub[t] = True
			}
		}
		drop := func(node int) bool { return false }
		for _, i := range used {
			m, k := x.merges[i], c[i]
			if k == len(m.reach) {
				for _, r := range m.reach {
					conj(Not(r))
				}
				continue
			}
			conj(m.reach[k])
			for _, r := range m.reach[:k] {
				facts = append(facts, Not(r))
			}
			prev := drop
			drop = func(node int) bool {
				return prev(node) || x.isAnc(node, m.node) && node != m.node && !x.isAnc(node, m.pred[k])
			}
		}
		delete(sub, True)
		delete(sub, False)
		memo := map[*Term]*Term{}
		var as []*Term
		for i := 0; i < o.nass; i++ {
			a := x.assumps[i]
			if x.isAnc(a.node, o.node) && !drop(a.node) {
				if t := Subst(a.t, sub, memo); t != True {
					as = append(as, t)
				}
			}
		}
		as = append(as, facts...)
		as = append(as, Subst(o.guard, sub, memo))
		if o.goal != False {
			as = append(as, Not(Subst(o.goal, sub, memo)))
		}
		dead := false
		for _, a := range as {
			if a == False {
				dead = true
			}
		}
		if dead {
			continue
		}
		out = append(out, finishQuery(o, lemmaLimit, as))
	}
	return out
}

func finishQuery(o *Oblig, lemmaLimit string, as []*Term) string {
	x := o.x
	if o.bv {
		return PrintQuery(as)
	}
	syms := map[string]bool{}
	visited := map[*Term]bool{}
	collectSyms(as, visited, syms)
	boxAxioms(syms)
	used := map[*AxiomT]bool{}
	for {
		grew := false
		boxAxioms(syms)
		for _, ax := range axioms {
			if used[ax] {
				continue
			}
			if lemmaLimit != "" && ax.Def == lemmaLimit && strings.HasPrefix(ax.Name, "lemma ") {
				continue
			}
			if strings.HasPrefix(ax.Name, "lemma ") && !lemmaAllowed(ax.Def, lemmaLimit) {
				continue
			}
			ok := true
			for _, s := range ax.Syms {
				if !syms[s] {
					ok = false
					break
				}
			}
			if !ok {
				continue
			}
			used[ax] = true
			grew = true
			as = append(as, ax.T)
			collectSyms([]*Term{ax.T}, visited, syms)
			if strings.HasPrefix(ax.Name, "lemma ") {
				x.usedContracts["lemma "+ax.Def] = true
			}
		}
		if !grew {
			break
		}
	}
	as = append(as, litFacts(syms)...)
	return PrintQuery(as)
}

var lemmaOrder = map[string]int{}

// a lemma may only rely on lemmas declared before it
func lemmaAllowed(use, in string) bool {
	if in == "" {
		return true
	}
	return lemmaOrder[use] < lemmaOrder[in]
}

type solverCfg struct {
	name string
	cmd  func(file string, to float64) []string
	pre  string
}

var (
	z3new = solverCfg{"z3-5.3", func(f string, to float64) []string {
		return []string{"z3-new", "-smt2", fmt.Sprintf("-T:%d", int(to)+1), f}
	}, "(set-option :smt.auto_config false)\n(set-option :smt.mbqi false)\n(set-option :smt.random_seed 1)\n(set-option :smt.arith.solver 2)\n"}
	z3cs = solverCfg{"z3-5.3-cs3", func(f string, to float64) []string {
		return []string{"z3-new", "-smt2", fmt.Sprintf("-T:%d", int(to)+1), f}
	}, "(set-option :smt.auto_config false)\n(set-option :smt.mbqi false)\n(set-option :smt.random_seed 1)\n(set-option :smt.case_split 3)\n(set-option :smt.array.extensional false)\n"}
	z3def = solverCfg{"z3-5.3-mbqi", func(f string, to float64) []string {
		return []string{"z3-new", "-smt2", fmt.Sprintf("-T:%d", int(to)+1), f}
	}, "(set-option :smt.random_seed 1)\n"}
	z3a2 = solverCfg{"z3-5.3-seed7", func(f string, to float64) []string {
		return []string{"z3-new", "-smt2", fmt.Sprintf("-T:%d", int(to)+1), f}
	}, "(set-option :smt.auto_config false)\n(set-option :smt.mbqi false)\n(set-option :smt.random_seed 7)\n(set-option :smt.arith.solver 2)\n"}
	z3old = solverCfg{"z3-4.8", func(f string, to float64) []string {
		return []string{"z3", "-smt2", fmt.Sprintf("-T:%d", int(to)+1), f}
	}, "(set-option :smt.auto_config false)\n(set-option :smt.mbqi false)\n"}
	cvc5c = solverCfg{"cvc5", func(f string, to float64) []string {
		return []string{"cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", int(to*1000)), f}
	}, "(set-logic ALL)\n"}
)

// z3 5.3's default tactic rewrites quantified frame facts so that their triggers no
// longer fire; the plain smt tactic does not.
func checkSat(c solverCfg) string {
	if c.name == "z3-5.3" || c.name == "z3-5.3-seed7" || c.name == "z3-5.3-cs3" {
		return "(check-sat-using smt)\n"
	}
	return "(check-sat)\n"
}

func runSolver(ctx context.Context, c solverCfg, body string, id string, to float64) (string, float64, string) {
	f := filepath.Join(tmpDir, id+"."+c.name+".smt2")
	txt := c.pre + body + checkSat(c)
	if err := os.WriteFile(f, []byte(txt), 0o644); err != nil {
		return "error", 0, err.Error()
	}
	defer os.Remove(f)
	args := c.cmd(f, to)
	cx, cancel := context.WithTimeout(ctx, time.Duration((to+3)*float64(time.Second)))
	defer cancel()
	t0 := time.Now()
	cmd := exec.CommandContext(cx, args[0], args[1:]...)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	_ = cmd.Run()
	el := time.Since(t0).Seconds()
	r := strings.TrimSpace(out.String())
	for strings.HasPrefix(r, "WARNING") {
		i := strings.IndexByte(r, '\n')
		if i < 0 {
			break
		}
		r = r[i+1:]
	}
	first := r
	if i := strings.IndexByte(r, '\n'); i >= 0 {
		first = r[:i]
	}
	switch first {
	case "unsat", "sat", "unknown":
		return first, el, r
	}
	if strings.Contains(r, "timeout") || r == "" {
		return "timeout", el, r
	}
	return "error", el, r
}

var solveErrs sync.Map

// solveOne decides an obligation.
func solveOne(o *Oblig, id string) {
	if o.Status == "trivial" {
		return
	}
	ctx := context.Background()
	if o.Vacuity {
		r, t, _ := runSolver(ctx, z3new, o.Query, id, 2)
		o.Time += t
		o.Solver = z3new.name
		if r == "unsat" {
			o.Status = "vacuous"
		} else {
			o.Status = "ok"
		}
		return
	}
	first := z3cs
	if o.bv {
		first = z3def
	}
	r, t, out := runSolver(ctx, first, o.Query, id, quickTO)
	if r != "unsat" && r != "error" && !o.bv {
		o.Time += t
		first = z3new
		r, t, out = runSolver(ctx, first, o.Query, id, quickTO)
	}
	o.Time += t
	if r == "error" {
		o.Status = "error"
		o.Output = out
		return
	}
	if r == "unsat" {
		o.Status = "proved"
		o.Solver = first.name
		return
	}
	o.Output = first.name + ": " + out
	if failFast {
		o.Status = "failed"
		o.Output += " (not escalated)"
		return
	}
	o.Status = "pending"
}

// escalate tries harder on what the first attempt left open: case by case, then with other solvers.
func escalate(obs []*Oblig) {
	var pend []*Oblig
	for _, o := range obs {
		if o.Status == "pending" {
			pend = append(pend, o)
		}
	}
	run := func(width int, f func(o *Oblig, id string)) {
		gate := make(chan struct{}, width)
		var wg sync.WaitGroup
		for _, o := range pend {
			if o.Status != "pending" {
				continue
			}
			qid++
			id := fmt.Sprintf("q%d", qid)
			gate <- struct{}{}
			wg.Add(1)
			go func(o *Oblig, id string) {
				defer wg.Done()
				defer func() { <-gate }()
				f(o, id)
			}(o, id)
		}
		wg.Wait()
	}
	limOf := func(o *Oblig) string {
		if strings.HasPrefix(o.Func, "lemma ") {
			return strings.TrimPrefix(o.Func, "lemma ")
		}
		return ""
	}
	var mu sync.Mutex
	run(jobs, func(o *Oblig, id string) {
		if o.bv || o.x == nil {
			return
		}
		mu.Lock()
		qs := splitQueries(o, limOf(o))
		mu.Unlock()
		if keepQueries != "" {
			for i, q := range qs {
				os.WriteFile(filepath.Join(keepQueries, fmt.Sprintf("%s_%d.smt2", id, i)), []byte("; "+o.Name+"\n"+z3new.pre+q+checkSat(z3new)), 0o644)
			}
		}
		if qs == nil {
			return
		}
		for i, q := range qs {
			ok := false
			for _, c := range []solverCfg{z3new, z3cs, z3a2} {
				r, t, _ := runSolver(context.Background(), c, q, fmt.Sprintf("%s_%d", id, i), splitTO)
				o.Time += t
				if r == "unsat" {
					ok = true
					break
				}
			}
			if !ok {
				return
			}
		}
		o.Status = "proved"
		o.Solver = "z3-5.3-cases"
		o.Output = ""
	})
	for _, o := range pend {
		if o.Status == "pending" {
			o.Query = buildQuery(o, limOf(o))
		}
	}
	run(2, portfolio)
}

func portfolio(o *Oblig, id string) {
	ctx := context.Background()
	defer func() { o.Query = "" }()
	if failedHard.Load() >= 4 {
		o.Status = "failed"
		o.Output += " (not escalated)"
		return
	}
	defer func() {
		if o.Status != "proved" {
			failedHard.Add(1)
		}
	}()
	// portfolio
	type ans struct {
		c   solverCfg
		r   string
		t   float64
		out string
	}
	cx, cancel := context.WithCancel(ctx)
	defer cancel()
	ch := make(chan ans, 8)
	port := []solverCfg{z3new, z3def, z3a2, cvc5c, z3cs, z3old}
	if o.bv {
		port = []solverCfg{cvc5c, z3old}
	}
	for _, c := range port {
		go func(c solverCfg) {
			r, t, out := runSolver(cx, c, o.Query, id, slowTO)
			ch <- ans{c, r, t, out}
		}(c)
	}
	o.Status = "unknown"
	for range port {
		a := <-ch
		if a.r == "unsat" {
			o.Status = "proved"
			o.Solver = a.c.name
			o.Time += a.t
			o.Output = ""
			return
		}
		if a.r == "sat" && (a.c.name == z3def.name || a.c.name == cvc5c.name) {
			o.Status = "failed"
		}
		o.Output += "\n" + a.c.name + ": " + a.out
		if a.t > 0 {
			o.Time += a.t
		}
		if o.Status == "failed" {
			return
		}
	}
}

var failFast bool
var failedHard atomic.Int32
var qid int
var sem chan struct{}

// solveStart builds the queries and starts solving; the returned function waits.
func solveStart(obs []*Oblig) func() {
	buildPrelude()
	if sem == nil {
		sem = make(chan struct{}, jobs)
	}
	wg := &sync.WaitGroup{}
	for _, o := range obs {
		if o.Status != "" {
			continue
		}
		lim := ""
		if strings.HasPrefix(o.Func, "lemma ") {
			lim = strings.TrimPrefix(o.Func, "lemma ")
		}
		o.Query = buildQuery(o, lim)
		qid++
		id := fmt.Sprintf("q%d", qid)
		if keepQueries != "" {
			n := strings.Map(func(r rune) rune {
				if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' {
					return r
				}
				return '_'
			}, o.Name)
			os.WriteFile(filepath.Join(keepQueries, n+".smt2"), []byte("; "+o.Name+" "+o.Pos+"\n"+z3new.pre+o.Query+checkSat(z3new)), 0o644)
		}
		wg.Add(1)
		go func(o *Oblig, id string) {
			sem <- struct{}{}
			defer wg.Done()
			defer func() { <-sem }()
			solveOne(o, id)
			o.Query = ""
		}(o, id)
	}
	return wg.Wait
}

func solveAll(obs []*Oblig) { solveStart(obs)() }
