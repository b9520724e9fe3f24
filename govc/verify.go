package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var fnIndex map[string]*ssa.Function

func buildIndex() {
	fnIndex = map[string]*ssa.Function{}
	var add func(fn *ssa.Function)
	add = func(fn *ssa.Function) {
		if fn == nil {
			return
		}
		fnIndex[contractNameFull(fn)] = fn
		for _, a := range fn.AnonFuncs {
			add(a)
		}
	}
	for _, p := range W.pkgs {
		if !inModule(p.Pkg) {
			continue
		}
		sc := p.Pkg.Scope()
		for _, n := range sc.Names() {
			switch o := sc.Lookup(n).(type) {
			case *types.Func:
				add(W.prog.FuncValue(o))
			case *types.TypeName:
				if nm, ok := types.Unalias(o.Type()).(*types.Named); ok {
					for i := 0; i < nm.NumMethods(); i++ {
						add(W.prog.FuncValue(nm.Method(i)))
					}
				}
			}
		}
	}
}

type FuncResult struct {
	Spec    *FuncSpec
	Key     string
	Obls    []*Oblig
	Err     string
	Used    map[string]bool
	Trusted map[string]bool
	Inlined map[string]bool
	Loops   int
	Alias   map[string]string
	unres   string
	cands   []string
	loopMap []int
	wait    func()
}

func specKey(s *FuncSpec) string {
	if s.Kind == "extern" {
		return "extern " + s.Name
	}
	return s.Kind + " " + s.Pkg + " " + s.Name
}

// genFunc generates the obligations of one function.
func genFunc(spec *FuncSpec, alias map[string]string, loopMap []int) (res *FuncResult) {
	res = &FuncResult{Spec: spec, Key: specKey(spec), Alias: alias, loopMap: loopMap}
	bvMode = spec.BV
	var x *Exec
	defer func() {
		bvMode = false
		if x != nil {
			res.Used, res.Trusted, res.Inlined = x.usedContracts, x.trustedUsed, x.inlined
			res.Loops = len(x.loopOrd)
		}
		if r := recover(); r != nil {
			switch e := r.(type) {
			case Unsupported:
				res.Err = "unsupported: " + e.Msg
			case SpecErr:
				res.Err = "contract: " + e.Msg
			case UnresolvedErr:
				res.Err = "contract: unresolved name " + e.Name + " at " + e.Pos
				res.unres = e.Name
				for c := range x.cands {
					res.cands = append(res.cands, c)
				}
				sort.Strings(res.cands)
			default:
				if debugPanics {
					panic(r)
				}
				res.Err = fmt.Sprintf("internal: %v", r)
			}
			if x != nil {
				res.Obls = x.obls
			}
		}
	}()
	fn := fnIndex[spec.Pkg+" "+spec.Name]
	if fn == nil {
		res.Err = "contract: function " + spec.Pkg + " " + spec.Name + " not found in the code"
		return
	}
	x = &Exec{fn: fn, spec: spec, fname: spec.Pkg + "." + spec.Name, props: spec.Props,
		loopOrd: map[string]int{}, heapSorts: map[string]string{}, entryWF: map[string]bool{}, alias: alias,
		usedContracts: map[string]bool{}, trustedUsed: map[string]bool{}, inlined: map[string]bool{}, labelN: map[string]int{}, cands: map[string]bool{}}
	if x.alias == nil {
		x.alias = map[string]string{}
	}
	x.tyArgs = tyArgsOf(fn)
	n := 0
	x.enumLoops(fn, "", 0, &n)
	if loopMap != nil {
		// loopMap[k] = ordinal of the contract's loop for code loop k (-1: none)
		for p, o := range x.loopOrd {
			if o < len(loopMap) {
				x.loopOrd[p] = loopMap[o]
			}
		}
	}
	st := &State{reach: True, slots: map[slotKey]Val{}, heaps: map[string]*Term{}, x: x}
	st.node = x.newNode()
	st.alloc = IntLit(1)
	if !bvMode {
		st.alloc = Const("alloc0", "Int")
	}
	x.entry = st.clone()
	if !bvMode {
		x.assume(st, Le(IntLit(1), st.alloc))
	}
	fr := x.newFrame(fn, nil, "")
	var ts []*Term
	var ats []types.Type
	for i, p := range fn.Params {
		nm := p.Name()
		if i < len(spec.Params) && spec.Params[i] != "_" {
			nm = spec.Params[i]
		}
		t := Const("p_"+nm, sortOf(p.Type()))
		fr.vals[p] = t
		x.assume(st, wf(t, p.Type(), st.alloc))
		ts = append(ts, t)
		ats = append(ats, p.Type())
	}
	for i, fv := range fn.FreeVars {
		// captured variables of a closure verified on its own
		el := fv.Type().Underlying().(*types.Pointer).Elem()
		k := slotKey{fr, fv}
		t := Const(fmt.Sprintf("fv%d_%s", i, fv.Name()), sortOf(el))
		st.slots[k] = t
		x.assume(st, wf(t, el, st.alloc))
		fr.vals[fv] = &Addr{slot: &k, rootT: el, elT: el}
	}
	// globals exist
	x.entry = st.clone()
	env := x.specEnv(spec, fn.Signature, ts, ats, x.tyArgs, x.entry)
	for _, fv := range fn.FreeVars {
		k := slotKey{fr, fv}
		env.vars[fv.Name()] = SVal{st.slots[k].(*Term), fv.Type().Underlying().(*types.Pointer).Elem()}
	}
	x.entryEnv = env
	x.bindLets(env, spec)
	for _, c := range spec.Requires {
		x.assume(st, env.boolE(c.E))
	}
	for _, t := range tableNames(spec.Opts["table"]) {
		x.assume(st, x.tableAssump(pkgOf(spec.Pkg), t, st))
	}
	x.mods = x.evalMods(spec, env)
	x.pureFn = spec.Pure
	// vacuity of the precondition
	x.obls = append(x.obls, &Oblig{Name: x.fname + ": vacuity entry", Kind: "vacuity", Func: x.fname, Props: spec.Props, node: st.node, nass: len(x.assumps), guard: True, goal: False, x: x, Vacuity: true, bv: bvMode})
	rets := x.runFunc(fr, st)
	for i, r := range rets {
		s := r.st
		s = s.clone()
		s.node = x.newNode(r.st.node)
		post := x.specEnv(spec, fn.Signature, ts, ats, x.tyArgs, s)
		for k, v := range env.vars {
			post.vars[k] = v
		}
		post.old = env
		post.local = func(name string) (SVal, bool) { return x.lookupLocal(fr, s, name) }
		rts := sigTypes(fn.Signature)
		for j, rt := range rts {
			t := x.asTerm(r.vals[j], rt)
			for _, nm := range spec.resultName(j, len(rts)) {
				post.vars[nm] = SVal{t, rt}
			}
		}
		for _, c := range spec.Apply {
			x.applyLemma(s, post, c)
		}
		for k, c := range spec.Ensures {
			l := c.Label
			if l == "" {
				l = fmt.Sprint(k)
			}
			x.check(s, "ensures", l, post.boolE(c.E), r.pos, c.Src)
		}
		if spec.Opts["noalloc"] != "" {
			x.check(s, "noalloc", "", Eq(s.alloc, x.entry.alloc), r.pos, "nothing is allocated")
		}
		if spec.Pure {
			for j, rt := range rts {
				x.check(s, "pure", fmt.Sprint("result", j), wf(x.asTerm(r.vals[j], rt), rt, x.entry.alloc), r.pos, "result refers to existing objects")
			}
		}
		x.obls = append(x.obls, &Oblig{Name: fmt.Sprintf("%s: vacuity return%d", x.fname, i), Kind: "vacuity", Func: x.fname, Props: spec.Props, node: s.node, nass: len(x.assumps), guard: s.reach, goal: False, x: x, Vacuity: true, Pos: x.posStr(r.pos), bv: bvMode})
	}
	// every contract loop must have been matched
	used := map[int]bool{}
	for _, o := range x.loopOrd {
		used[o] = true
	}
	for o := range spec.Loops {
		if !used[o] && loopMap == nil {
			res.Err = fmt.Sprintf("contract: loop %d of %s not found in the code", o+1, spec.Name)
		}
	}
	res.Obls = x.obls
	return
}

// genLemma generates the obligations of a lemma.
func genLemma(l *Lemma) (res *FuncResult) {
	spec := &FuncSpec{Kind: "lemma", Pkg: l.Pkg, Name: l.Name, Props: l.Props, Loops: map[int]*LoopSpec{}, Opts: map[string]string{"noframe": "1"}}
	res = &FuncResult{Spec: spec, Key: "lemma " + l.Name}
	if l.Opts["bv"] != "" {
		bvMode = true
	}
	var x *Exec
	defer func() {
		bvMode = false
		if x != nil {
			res.Trusted = x.trustedUsed
		}
		if r := recover(); r != nil {
			switch e := r.(type) {
			case Unsupported:
				res.Err = "unsupported: " + e.Msg
			case SpecErr:
				res.Err = "contract: " + e.Msg
			case UnresolvedErr:
				res.Err = "contract: unresolved name " + e.Name + " at " + e.Pos
			default:
				if debugPanics {
					panic(r)
				}
				res.Err = fmt.Sprintf("internal: %v", r)
			}
		}
	}()
	x = &Exec{fname: "lemma " + l.Name, spec: spec, curLemma: l, props: l.Props, loopOrd: map[string]int{}, heapSorts: map[string]string{}, entryWF: map[string]bool{},
		usedContracts: map[string]bool{}, trustedUsed: map[string]bool{}, inlined: map[string]bool{}, labelN: map[string]int{}, cands: map[string]bool{}, tyArgs: map[string]types.Type{}}
	st := &State{reach: True, slots: map[slotKey]Val{}, heaps: map[string]*Term{}, x: x}
	st.node = x.newNode()
	st.alloc = Const("alloc0", "Int")
	if bvMode {
		st.alloc = IntLit(1)
	}
	x.entry = st.clone()
	x.entry.heaps = st.heaps
	env := &Env{pkg: pkgOf(l.Pkg), vars: map[string]SVal{}, st: st, tyArgs: lemmaTyArgs(l)}
	x.entryEnv = env
	for _, p := range l.Params {
		t := env.typ(p.Type)
		c := Const("l_"+p.Name, sortOf(t))
		env.vars[p.Name] = SVal{c, t}
		x.assume(st, lemmaWf(l, SVal{c, t}, st.alloc))
	}
	for _, r := range l.Requires {
		x.assume(st, env.boolE(r.E))
	}
	x.obls = append(x.obls, &Oblig{Name: x.fname + ": vacuity entry", Kind: "vacuity", Func: x.fname, node: st.node, nass: len(x.assumps), guard: True, goal: False, x: x, Vacuity: true, bv: bvMode})
	if l.Induct != "" {
		// induction hypothesis: all smaller values of the measure
		parts := strings.SplitN(l.Induct, " ", 2)
		ih := env.child()
		var bvs []*Term
		for _, p := range l.Params {
			t := ih.typ(p.Type)
			b := BoundVar(p.Name, sortOf(t))
			bvs = append(bvs, b)
			ih.vars[p.Name] = SVal{b, t}
		}
		me := parseExpr(strings.Join(parts, " "), l.Pos)
		m0 := env.eval(me).T
		m1 := ih.eval(me).T
		x.ihMeasure = m0
		var rq, en []*Term
		for _, p := range l.Params {
			rq = append(rq, lemmaWf(l, ih.vars[p.Name], st.alloc))
		}
		for _, r := range l.Requires {
			rq = append(rq, ih.boolE(r.E))
		}
		for _, r := range l.Ensures {
			en = append(en, ih.boolE(r.E))
		}
		var trigs [][]*Term
		for _, tr := range l.Trig {
			var ts []*Term
			for _, t := range tr {
				ts = append(ts, ih.eval(t).T)
			}
			trigs = append(trigs, ts)
		}
		x.assume(st, Forall(bvs, trigs, Implies(And(append(rq, Le(IntLit(0), m1), Lt(m1, m0))...), And(en...))))
	}
	for _, c := range l.Apply {
		x.applyLemma(st, env, c)
	}
	for k, c := range l.Ensures {
		x.check(st, "ensures", fmt.Sprint(k), env.boolE(c.E), token.NoPos, c.Src)
	}
	res.Obls = x.obls
	res.Used = x.usedContracts
	return
}

// lemmaWf: what a lemma may assume about the values of its parameters.
// Integers are mathematical, except in lemmas about machine words.
func lemmaWf(l *Lemma, v SVal, alloc *Term) *Term {
	if l.Opts["bv"] == "" && v.T.sort == "Int" {
		return True
	}
	return wf(v.T, v.Ty, alloc)
}

func lemmaTyArgs(l *Lemma) map[string]types.Type {
	m := map[string]types.Type{}
	if t, ok := l.Opts["T"]; ok {
		// T bound to the type parameter of a generic type of the package
		p := pkgOf(l.Pkg)
		if o, ok := p.Scope().Lookup(t).(*types.TypeName); ok {
			n := o.Type().(*types.Named)
			for i := 0; i < n.TypeParams().Len(); i++ {
				m[n.TypeParams().At(i).Obj().Name()] = n.TypeParams().At(i)
			}
		}
	}
	return m
}

// lemmaAxiom: a proved (or assumed) lemma with triggers as a quantified fact.
func lemmaAxiom(l *Lemma) *AxiomT {
	if len(l.Trig) == 0 && !(l.Axiom && len(l.Params) == 0) {
		return nil
	}
	save := bvMode
	bvMode = false
	defer func() { bvMode = save }()
	rv := &recView{m: map[string]*Term{}, allc: BoundVar("al", "Int")}
	env := &Env{pkg: pkgOf(l.Pkg), vars: map[string]SVal{}, st: rv, tyArgs: lemmaTyArgs(l)}
	var bvs []*Term
	for _, p := range l.Params {
		t := env.typ(p.Type)
		b := BoundVar(p.Name, sortOf(t))
		bvs = append(bvs, b)
		env.vars[p.Name] = SVal{b, t}
	}
	var rq, en []*Term
	for _, p := range l.Params {
		v := env.vars[p.Name]
		if v.T.sort != "Int" || l.Opts["bv"] != "" {
			// rv.allc is arbitrary: "allocated" holds for a large enough one
			w := lemmaWf(l, v, rv.allc)
			m := map[*Term]*Term{}
			allocAtoms(w, rv.allc, m, map[*Term]bool{})
			w = Subst(w, m, map[*Term]*Term{})
			rq = append(rq, w)
		}
	}
	for _, r := range l.Requires {
		rq = append(rq, env.boolE(r.E))
	}
	for _, r := range l.Ensures {
		en = append(en, env.boolE(r.E))
	}
	var trigs [][]*Term
	syms := map[string]bool{}
	for ti, tr := range l.Trig {
		var ts []*Term
		for _, t := range tr {
			ts = append(ts, env.eval(t).T)
		}
		trigs = append(trigs, ts)
		if ti == 0 {
			collectSyms(ts, map[*Term]bool{}, syms)
		}
	}
	for _, n := range rv.names {
		bvs = append(bvs, rv.m[n])
	}
	fv := map[*Term]bool{}
	freeVars(And(append(append([]*Term{}, rq...), en...)...), map[*Term]bool{}, fv)
	if fv[rv.allc] {
		bvs = append(bvs, rv.allc)
	}
	var sl []string
	for s := range syms {
		sl = append(sl, s)
	}
	sort.Strings(sl)
	T := Implies(And(rq...), And(en...))
	if len(bvs) > 0 {
		T = Forall(bvs, trigs, T)
	}
	return &AxiomT{Name: "lemma " + l.Name, T: T, Syms: sl, Def: l.Name}
}

// allocAtoms collects the atoms "x < al".
func allocAtoms(t, al *Term, m map[*Term]*Term, seen map[*Term]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	if t.op == "not" && t.args[0].op == "<=" && len(t.args[0].args) == 2 && t.args[0].args[0] == al {
		m[t] = True
		return
	}
	for _, a := range t.args {
		allocAtoms(a, al, m, seen)
	}
}
