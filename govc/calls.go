package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func relPkg(p *types.Package) string {
	if p == nil {
		return ""
	}
	s := strings.TrimPrefix(strings.TrimPrefix(p.Path(), modulePath), "/")
	if s == "" {
		s = "."
	}
	return s
}

// contractName: "(*Queue).Append", "(Pos).LineCol", "New", "Foo$1".
func contractName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if r := fn.Signature.Recv(); r != nil {
		t := r.Type()
		star := ""
		if p, ok := t.(*types.Pointer); ok {
			star = "*"
			t = p.Elem()
		}
		if n, ok := types.Unalias(t).(*types.Named); ok {
			return "(" + star + n.Obj().Name() + ")." + fn.Name()
		}
	}
	return fn.Name()
}

func fnPkg(fn *ssa.Function) *types.Package {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg
	}
	if fn.Object() != nil {
		return fn.Object().Pkg()
	}
	if fn.Parent() != nil {
		return fnPkg(fn.Parent())
	}
	return nil
}

func externName(fn *ssa.Function) string {
	p := fnPkg(fn)
	n := contractName(fn)
	if p == nil {
		return n
	}
	if strings.HasPrefix(n, "(*") {
		return "(*" + p.Name() + "." + n[2:]
	}
	if strings.HasPrefix(n, "(") {
		return "(" + p.Name() + "." + n[1:]
	}
	return p.Name() + "." + n
}

func (x *Exec) contractFor(fn *ssa.Function) *FuncSpec {
	p := fnPkg(fn)
	if p == nil {
		return nil
	}
	if inModule(p) {
		if s := SDB.ByName["func "+relPkg(p)+" "+contractName(fn)]; s != nil {
			if s.Inline {
				return nil
			}
			return s
		}
		return nil
	}
	return SDB.ByName["extern "+externName(fn)]
}

func tyArgsOf(fn *ssa.Function) map[string]types.Type {
	o := fn
	if g := fn.Origin(); g != nil {
		o = g
	}
	m := map[string]types.Type{}
	tps := o.TypeParams()
	if tps == nil {
		return m
	}
	ta := fn.TypeArgs()
	for i := 0; i < tps.Len(); i++ {
		if i < len(ta) {
			m[tps.At(i).Obj().Name()] = ta[i]
		} else {
			m[tps.At(i).Obj().Name()] = tps.At(i)
		}
	}
	return m
}

func (x *Exec) call(fr *Frame, st *State, ci ssa.CallInstruction, c *ssa.CallCommon) Val {
	pos := ci.Pos()
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return x.builtin(fr, st, ci, c, b)
	}
	if c.IsInvoke() {
		recv := x.term(fr, c.Value)
		x.safety(st, "nil-iface-call", Not(Eq(IT(recv), IntLit(0))), pos)
		args := []Val{recv}
		ats := []types.Type{c.Value.Type()}
		for _, a := range c.Args {
			args = append(args, x.value(fr, a))
			ats = append(ats, a.Type())
		}
		if fn := x.devirt(IT(recv), c.Method); fn != nil {
			rt := fn.Signature.Recv().Type()
			args[0], ats[0] = fromIface(recv, rt), rt
			return x.callFn(fr, st, ci, fn, nil, args, ats, pos)
		}
		n, ok := types.Unalias(c.Value.Type()).(*types.Named)
		if !ok {
			unsup("call of anonymous interface method %s", c.Method.Name())
		}
		key, spec := ifaceSpec(n, c.Method.Name())
		if spec == nil {
			unsup("no contract for interface method %s", key)
		}
		return x.applyContract(st, spec, c.Method.Type().(*types.Signature), args, ats, nil, pos, key)
	}
	var args []Val
	var ats []types.Type
	for _, a := range c.Args {
		args = append(args, x.value(fr, a))
		ats = append(ats, a.Type())
	}
	if fn := c.StaticCallee(); fn != nil {
		var bind []Val
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			bind = x.value(fr, mc).(*Closure).bind
		}
		return x.callFn(fr, st, ci, fn, bind, args, ats, pos)
	}
	fv := x.value(fr, c.Value)
	if t, ok := fv.(*Term); ok {
		if f, ok := fnConsts[t]; ok {
			fv = &FuncV{f}
		} else if cl, ok := closures[t]; ok {
			fv = cl
		}
	}
	switch f := fv.(type) {
	case *FuncV:
		return x.callFn(fr, st, ci, f.fn, nil, args, ats, pos)
	case *Closure:
		return x.callFn(fr, st, ci, f.fn, f.bind, args, ats, pos)
	case *Term:
		x.safety(st, "nil-func-call", Not(Eq(f, IntLit(0))), pos)
		key := ""
		if n, ok := types.Unalias(c.Value.Type()).(*types.Named); ok {
			key = "functype " + relPkg(n.Obj().Pkg()) + " " + n.Obj().Name()
		} else if k := functypeBySig(c.Signature()); k != "" {
			key = k
		} else {
			key = "functype " + relPkg(fnPkg(x.fn)) + " " + x.funcValName(c.Value)
		}
		spec := SDB.ByName[key]
		if spec == nil {
			unsup("no contract for dynamic call %s", key)
		}
		return x.applyContract(st, spec, c.Signature(), append([]Val{f}, args...), append([]types.Type{c.Value.Type()}, ats...), nil, pos, key)
	}
	unsup("call through %T", fv)
	return nil
}

// functypeBySig: the functype contract whose declared type has this signature.
func functypeBySig(sig *types.Signature) string {
	for _, s := range SDB.Funcs {
		if s.Kind != "functype" {
			continue
		}
		p := pkgOf(s.Pkg)
		if p == nil {
			continue
		}
		if o, ok := p.Scope().Lookup(s.Name).(*types.TypeName); ok && types.Identical(o.Type().Underlying(), sig) {
			return "functype " + s.Pkg + " " + s.Name
		}
	}
	return ""
}

// funcValName names an unnamed function value by the field or variable holding it.
func (x *Exec) funcValName(v ssa.Value) string {
	if u, ok := v.(*ssa.UnOp); ok {
		switch a := u.X.(type) {
		case *ssa.FieldAddr:
			st := a.X.Type().Underlying().(*types.Pointer).Elem()
			s, _ := structOf(st)
			return s.Field(a.Field).Name()
		case *ssa.Alloc:
			return a.Comment
		}
	}
	return v.Name()
}

func (x *Exec) callFn(fr *Frame, st *State, ci ssa.CallInstruction, fn *ssa.Function, bind []Val, args []Val, ats []types.Type, pos token.Pos) Val {
	if spec := x.contractFor(fn); spec != nil && bind == nil {
		o := fn
		return x.applyContract(st, spec, fn.Signature, args, ats, tyArgsOf(o), pos, spec.Kind+" "+spec.Pkg+" "+spec.Name)
	}
	if externName(fn) == "sort.Search" {
		return x.sortSearch(fr, st, ci, args, pos)
	}
	if !x.inlinable(fn) {
		unsup("no contract for external function %s", externName(fn))
	}
	for f := fr; f != nil; f = f.parent {
		if f.fn == fn {
			unsup("recursive call of %s without a contract", fn)
		}
	}
	x.inlined[contractNameFull(fn)] = true
	nf := x.newFrame(fn, fr, fr.path+"/"+callKey(ci))
	for i, p := range fn.Params {
		nf.vals[p] = args[i]
	}
	for i, fv := range fn.FreeVars {
		if i < len(bind) {
			nf.vals[fv] = bind[i]
		}
	}
	rets := x.runFunc(nf, st)
	if len(rets) == 0 {
		st.reach = False
		return x.dummyResults(fn.Signature)
	}
	var sts []*State
	for _, r := range rets {
		sts = append(sts, r.st)
	}
	m := x.mergeStates(sts)
	// drop callee slots
	for k := range m.slots {
		if k.fr == nf {
			delete(m.slots, k)
		}
	}
	*st = *m
	n := fn.Signature.Results().Len()
	var out Tuple
	for i := 0; i < n; i++ {
		v := rets[len(rets)-1].vals[i]
		for j := len(rets) - 2; j >= 0; j-- {
			v = x.mergeVal(rets[j].st.reach, rets[j].vals[i], v, "result")
		}
		if p, ok := v.(poison); ok {
			unsup("merged %s of %s", p.what, fn)
		}
		out = append(out, v)
	}
	if n == 1 {
		return out[0]
	}
	return out
}

func contractNameFull(fn *ssa.Function) string {
	return relPkg(fnPkg(fn)) + " " + contractName(fn)
}

func (x *Exec) dummyResults(sig *types.Signature) Val {
	var out Tuple
	for i := 0; i < sig.Results().Len(); i++ {
		out = append(out, zeroOf(sig.Results().At(i).Type()))
	}
	if len(out) == 1 {
		return out[0]
	}
	return out
}

func (x *Exec) specEnv(spec *FuncSpec, sig *types.Signature, args []*Term, ats []types.Type, tyArgs map[string]types.Type, st HeapView) *Env {
	e := &Env{pkg: pkgOf(spec.Pkg), tyArgs: tyArgs, vars: map[string]SVal{}, st: st}
	if e.tyArgs == nil {
		e.tyArgs = map[string]types.Type{}
	}
	if len(spec.Params) != len(args) {
		panic(SpecErr{fmt.Sprintf("%s: contract %s names %d parameters, code has %d", spec.Pos, spec.Name, len(spec.Params), len(args))})
	}
	for i, p := range spec.Params {
		if p != "_" {
			e.vars[p] = SVal{args[i], ats[i]}
			if i == 0 && spec.AsIface != nil {
				e.vars[p] = SVal{toIface(args[i], ats[i]), spec.AsIface}
			}
		}
	}
	return e
}

func (spec *FuncSpec) resultName(i, n int) []string {
	var out []string
	if i < len(spec.Results) {
		out = append(out, spec.Results[i])
	}
	out = append(out, fmt.Sprintf("result%d", i))
	if n == 1 {
		out = append(out, "result")
	}
	return out
}

func (x *Exec) bindLets(e *Env, spec *FuncSpec) {
	for _, l := range spec.Lets {
		e.vars[l.Label] = e.eval(l.E)
	}
}

func sigTypes(sig *types.Signature) (out []types.Type) {
	for i := 0; i < sig.Results().Len(); i++ {
		out = append(out, sig.Results().At(i).Type())
	}
	return
}

func (x *Exec) applyContract(st *State, spec *FuncSpec, sig *types.Signature, args []Val, ats []types.Type, tyArgs map[string]types.Type, pos token.Pos, key string) Val {
	x.usedContracts[key] = true
	if spec.Trusted != "" || spec.Kind == "extern" {
		x.trustedUsed[key] = true
	}
	var ts []*Term
	for i, a := range args {
		ts = append(ts, x.asTerm(a, ats[i]))
	}
	pre := st.clone()
	env := x.specEnv(spec, sig, ts, ats, tyArgs, pre)
	x.bindLets(env, spec)
	short := spec.Name
	for i, c := range spec.Requires {
		l := c.Label
		if l == "" {
			l = fmt.Sprint(i)
		}
		x.check(st, "pre", short+"/"+l, env.boolE(c.E), pos, c.Src)
	}
	if spec == x.spec && len(spec.Decr) > 0 {
		var news, olds []*Term
		for _, c := range spec.Decr {
			news = append(news, env.eval(c.E).T)
			olds = append(olds, x.entryEnv.eval(c.E).T)
		}
		x.check(st, "decreases", "recursion", lexLess(news, olds), pos, "recursion measure")
	}
	if x.pureFn && !spec.Pure {
		// callee may allocate; permitted as long as nothing reachable escapes
	}
	// effects
	mods := x.evalMods(spec, env)
	x.applyMods(st, pre, mods, pos, short)
	if !spec.Pure && spec.Opts["noalloc"] == "" {
		st.alloc = FreshT("alloc", "Int")
		x.assume(st, Le(pre.alloc, st.alloc))
		for _, r := range x.recs {
			r.alloc = true
		}
	}
	var out Tuple
	post := x.specEnv(spec, sig, ts, ats, tyArgs, st)
	for k, v := range env.vars {
		post.vars[k] = v
	}
	post.old = env
	rts := sigTypes(sig)
	for i, rt := range rts {
		r := FreshT("r_"+spec.Name, sortOf(rt))
		x.assume(st, wf(r, rt, st.alloc))
		out = append(out, r)
		for _, n := range spec.resultName(i, len(rts)) {
			post.vars[n] = SVal{r, rt}
		}
	}
	for _, c := range spec.Ensures {
		x.assume(st, post.boolE(c.E))
	}
	// a heap havocked by the call holds only allocated references
	for _, n := range sortedKeys(st.heaps) {
		h := st.heaps[n]
		if pre.heaps[n] != h && x.quiet == 0 {
			x.heapWFst(st, n, h)
		}
	}
	if len(out) == 1 {
		return out[0]
	}
	return out
}

// evalMods resolves modifies clauses to locations in env's state.
func (x *Exec) evalMods(spec *FuncSpec, env *Env) []ModSet {
	var out []ModSet
	for _, m := range spec.Modifies {
		out = append(out, x.evalMod(m, env)...)
	}
	return out
}

func (x *Exec) evalMod(m ModLoc, env *Env) []ModSet {
	if m.Each != nil {
		t := env.typ(m.Each.Type)
		if m.E.Op == "call" && m.E.Name == "arr" {
			// each k T where c : arr(s): the elements of every such slice s
			bv := BoundVar(m.Each.Name, sortOf(t))
			e := env.child()
			e.vars[m.Each.Name] = SVal{bv, t}
			b := e.eval(m.E.Args[0])
			c := e.boolE(m.Where)
			el := b.Ty.Underlying().(*types.Slice).Elem()
			if isExploded(el) {
				panic(SpecErr{"each arr() of exploded elements: " + m.Src})
			}
			h, s := elemHeap(el)
			return []ModSet{{heap: h, sort: s, kind: "pred", pred: func(p *Term) *Term {
				return Not(Forall([]*Term{bv}, [][]*Term{{b.T}}, Not(And(c, Eq(SO(b.T), PO(p)), Not(Eq(PO(p), IntLit(0)))))))
			}}}
		}
		el, ok := ptrElem(t)
		if !ok {
			panic(SpecErr{"each needs a pointer type: " + m.Src})
		}
		// e is x.f with x the bound variable
		if m.E.Op != "sel" {
			panic(SpecErr{"each location must be a field: " + m.Src})
		}
		path, _, ok := findField(el, m.E.Name)
		if !ok {
			panic(SpecErr{"no field: " + m.Src})
		}
		h, s := fieldHeap(el, path[0])
		where := m.Where
		name := m.Each.Name
		return []ModSet{{heap: h, sort: s, kind: "pred", pred: func(p *Term) *Term {
			e := env.child()
			e.vars[name] = SVal{p, t}
			return And(Not(Eq(PO(p), IntLit(0))), e.boolE(where))
		}}}
	}
	e := m.E
	switch e.Op {
	case "sel":
		b := env.eval(e.Args[0])
		if b.T == nil {
			return nil
		}
		el, ok := ptrElem(b.Ty)
		if !ok {
			panic(SpecErr{"modifies: not a pointer field: " + m.Src})
		}
		if !isExploded(el) {
			h, s := elemHeap(el)
			return []ModSet{{heap: h, sort: s, kind: "range", o: PO(b.T), lo: PI(b.T), hi: Add(PI(b.T), IntLit(1))}}
		}
		path, _, ok := findField(el, e.Name)
		if !ok {
			panic(SpecErr{"no field: " + m.Src})
		}
		h, s := fieldHeap(el, path[0])
		return []ModSet{{heap: h, sort: s, kind: "ptr", p: b.T}}
	case "un":
		if e.Name == "*" {
			b := env.eval(e.Args[0])
			if el, ok := ptrElem(b.Ty); ok {
				return x.wholeObj(b.T, el)
			}
		}
	case "id":
		if g := ghosts[e.Name]; g != nil {
			return x.wholeObj(globalPtr(g), g.Type())
		}
		// package variable
		if env.pkg != nil {
			if v, ok := env.pkg.Scope().Lookup(e.Name).(*types.Var); ok {
				p := globalPtr(v)
				return x.wholeObj(p, v.Type())
			}
		}
	case "call":
		switch e.Name {
		case "obj":
			b := env.eval(e.Args[0])
			el, ok := ptrElem(b.Ty)
			if !ok {
				panic(SpecErr{"obj() of non-pointer: " + m.Src})
			}
			return x.wholeObj(b.T, el)
		case "arr":
			b := env.eval(e.Args[0])
			sl := b.Ty.Underlying().(*types.Slice)
			if isExploded(sl.Elem()) {
				u, _ := structOf(sl.Elem())
				var out []ModSet
				for i := 0; i < u.NumFields(); i++ {
					h, s := fieldHeap(sl.Elem(), i)
					out = append(out, ModSet{heap: h, sort: s, kind: "obj", o: SO(b.T)})
				}
				return out
			}
			h, s := elemHeap(sl.Elem())
			return []ModSet{{heap: h, sort: s, kind: "obj", o: SO(b.T)}}
		case "contents":
			b := env.eval(e.Args[0])
			mt := b.Ty.Underlying().(*types.Map)
			md, mv, ml, ds, vs, ls := mapHeaps(mt)
			return []ModSet{{heap: md, sort: ds, kind: "obj", o: b.T}, {heap: mv, sort: vs, kind: "obj", o: b.T}, {heap: ml, sort: ls, kind: "obj", o: b.T}}
		case "all":
			// all(T.f): every object of the type
			t := env.typ(e.Args[0].String())
			u, _ := structOf(t)
			var out []ModSet
			for i := 0; i < u.NumFields(); i++ {
				h, s := fieldHeap(t, i)
				out = append(out, ModSet{heap: h, sort: s, kind: "all"})
			}
			return out
		case "allelems":
			t := env.typ(e.Args[0].String())
			h, s := elemHeap(t)
			return []ModSet{{heap: h, sort: s, kind: "all"}}
		}
	case "slice":
		b := env.eval(e.Args[0])
		lo, hi := env.eval(e.Args[1]), env.eval(e.Args[2])
		sl := b.Ty.Underlying().(*types.Slice)
		h, s := elemHeap(sl.Elem())
		return []ModSet{{heap: h, sort: s, kind: "range", o: SO(b.T), lo: Add(SF(b.T), lo.T), hi: Add(SF(b.T), hi.T)}}
	case "idx":
		b := env.eval(e.Args[0])
		i := env.eval(e.Args[1])
		sl := b.Ty.Underlying().(*types.Slice)
		h, s := elemHeap(sl.Elem())
		return []ModSet{{heap: h, sort: s, kind: "range", o: SO(b.T), lo: Add(SF(b.T), i.T), hi: Add(SF(b.T), Add(i.T, IntLit(1)))}}
	case "cond":
		// c ? loc : nothing is written with a null target
		c := env.boolE(e.Args[0])
		a := x.evalMod(ModLoc{E: e.Args[1], Src: m.Src}, env)
		for i := range a {
			if a[i].p != nil {
				a[i].p = Ite(c, a[i].p, NilPtr())
			}
			if a[i].o != nil {
				a[i].o = Ite(c, a[i].o, IntLit(0))
			}
		}
		return a
	}
	panic(SpecErr{"bad modifies location: " + m.Src + " / " + e.String()})
}

func (x *Exec) wholeObj(p *Term, el types.Type) []ModSet {
	var out []ModSet
	if isExploded(el) {
		u, _ := structOf(el)
		for i := 0; i < u.NumFields(); i++ {
			h, s := fieldHeap(el, i)
			out = append(out, ModSet{heap: h, sort: s, kind: "ptr", p: p})
		}
		return out
	}
	h, s := elemHeap(el)
	return []ModSet{{heap: h, sort: s, kind: "range", o: PO(p), lo: PI(p), hi: Add(PI(p), IntLit(1))}}
}

func (x *Exec) applyMods(st, pre *State, mods []ModSet, pos token.Pos, callee string) {
	byHeap := map[string][]ModSet{}
	var order []string
	for _, m := range mods {
		if _, ok := byHeap[m.heap]; !ok {
			order = append(order, m.heap)
		}
		byHeap[m.heap] = append(byHeap[m.heap], m)
	}
	for _, h := range order {
		ms := byHeap[h]
		srt := ms[0].sort
		H0 := pre.Heap(h, srt)
		// permitted by the caller's frame
		if x.spec != nil && x.quiet == 0 && x.spec.Opts["noframe"] == "" {
			for _, m := range ms {
				x.checkSub(st, m, pos, callee)
			}
		}
		// all single pointers: point updates
		points := true
		for _, m := range ms {
			if m.kind != "ptr" {
				points = false
			}
		}
		if points {
			H := H0
			for _, m := range ms {
				H = Store(H, m.p, FreshT("mod_"+h, arrElem(srt)))
				x.record(h, srt, m.p, false)
			}
			x.setHeap(st, h, srt, H)
			continue
		}
		objs := h[0] != 'H'
		for _, m := range ms {
			if m.kind != "obj" {
				objs = false
			}
		}
		if objs {
			H := H0
			for _, m := range ms {
				H = Store(H, m.o, FreshT("mod_"+h, arrElem(srt)))
				x.record(h, srt, m.o, false)
			}
			x.setHeap(st, h, srt, H)
			continue
		}
		nh := FreshT("H_"+h, srt)
		imp := false
		for _, m := range ms {
			if m.kind == "range" {
				x.record(h, srt, m.o, false)
			} else if m.kind == "obj" && h[0] == 'E' {
				x.record(h, srt, m.o, false)
			} else {
				imp = true
			}
		}
		if imp {
			x.record(h, srt, nil, true)
		}
		x.setHeap(st, h, srt, nh)
		if x.quiet == 0 {
			x.assume(st, x.frameFormula(h, H0, nh, pre.alloc, func(p *Term) *Term {
				var cs []*Term
				for _, m := range ms {
					cs = append(cs, m.covers(p))
				}
				return Or(cs...)
			}, ms))
		}
	}
}

// checkSub: a callee effect must be within the caller's effects.
func (x *Exec) checkSub(st *State, m ModSet, pos token.Pos, callee string) {
	lab := callee + " " + m.heap
	fresh := func(p *Term) *Term { return Le(x.entry.alloc, PO(p)) }
	z := IntLit(0)
	switch m.kind {
	case "ptr":
		x.check(st, "frame", lab, Or(Eq(PO(m.p), z), fresh(m.p), x.inMods(m.heap, m.p)), pos, "effect of "+callee)
	case "obj":
		if m.heap[0] == 'H' {
			p := BoundVar("p", SPtr)
			x.check(st, "frame", lab, Forall([]*Term{p}, nil, Implies(And(Eq(PO(p), m.o), Not(Eq(m.o, z)), Lt(PO(p), x.entry.alloc)), x.inMods(m.heap, p))), pos, "effect of "+callee)
			return
		}
		i := BoundVar("i", "Int")
		g := Or(Eq(m.o, z), Le(x.entry.alloc, m.o), x.inMods(m.heap, MkPtr(m.o, i)))
		if g.bound {
			g = Forall([]*Term{i}, nil, g)
		}
		x.check(st, "frame", lab, g, pos, "effect of "+callee)
	case "range":
		i := BoundVar("i", "Int")
		x.check(st, "frame", lab, Forall([]*Term{i}, nil, Implies(And(Le(m.lo, i), Lt(i, m.hi), Not(Eq(m.o, z))), Or(Le(x.entry.alloc, m.o), x.inMods(m.heap, MkPtr(m.o, i))))), pos, "effect of "+callee)
	case "pred":
		p := BoundVar("p", SPtr)
		x.check(st, "frame", lab, Forall([]*Term{p}, nil, Implies(And(m.pred(p), Lt(PO(p), x.entry.alloc)), x.inMods(m.heap, p))), pos, "effect of "+callee)
	case "all":
		p := BoundVar("p", SPtr)
		x.check(st, "frame", lab, Forall([]*Term{p}, nil, Implies(Lt(PO(p), x.entry.alloc), x.inMods(m.heap, p))), pos, "effect of "+callee)
	}
}

// ---- lemmas ----

func findLemma(n string) *Lemma {
	for _, l := range SDB.Lemmas {
		if l.Name == n {
			return l
		}
	}
	return nil
}

// applyLemma: a lemma is a universally valid implication requires ==> ensures;
// an instance of it may be assumed anywhere. Only earlier lemmas may be used in
// the proof of a lemma, except "ih": its own induction hypothesis.
func (x *Exec) applyLemma(st *State, env *Env, c Clause) {
	x.assume(st, x.lemmaInst(st, env, c.E, c.Pos))
}

func (x *Exec) lemmaInst(st HeapView, env *Env, e *Expr, pos string) *Term {
	switch {
	case e.Op == "bin" && e.Name == "==>":
		g := env.boolE(e.Args[0])
		return Implies(g, x.lemmaInst(st, env, e.Args[1], pos))
	case e.Op == "bin" && e.Name == "&&":
		return And(x.lemmaInst(st, env, e.Args[0], pos), x.lemmaInst(st, env, e.Args[1], pos))
	case e.Op == "let":
		n := env.child()
		n.vars[e.Name] = env.eval(e.Args[0])
		return x.lemmaInst(st, n, e.Args[1], pos)
	case e.Op == "old":
		o := env.old.child()
		for k, v := range env.vars {
			if _, ok := o.vars[k]; !ok {
				o.vars[k] = v
			}
		}
		return x.lemmaInst(o.st, o, e.Args[0], pos)
	case e.Op == "quant" && e.Name == "forall":
		var out *Term
		r := env.quantWith(e, func(n *Env) *Term { return x.lemmaInst(st, n, e.Args[0], pos) })
		out = r.T
		return out
	}
	var l *Lemma
	ih := e.Op == "call" && e.Name == "ih" && x.curLemma != nil && x.curLemma.Induct != ""
	if ih {
		l = x.curLemma
	} else if e.Op == "call" {
		l = findLemma(e.Name)
	}
	if l == nil {
		panic(SpecErr{pos + ": unknown lemma " + e.Name})
	}
	if !ih {
		if x.curLemma != nil && lemmaOrder[l.Name] >= lemmaOrder[x.curLemma.Name] {
			panic(SpecErr{pos + ": lemma " + l.Name + " is not declared before " + x.curLemma.Name})
		}
		x.usedContracts["lemma "+l.Name] = true
	}
	if len(l.Params) != len(e.Args) {
		panic(SpecErr{pos + ": lemma argument count"})
	}
	le := &Env{pkg: pkgOf(l.Pkg), tyArgs: env.tyArgs, vars: map[string]SVal{}, st: st}
	for i, p := range l.Params {
		t := le.typ(p.Type)
		a := env.eval(e.Args[i])
		if a.T == nil {
			a.T = nilFor(sortOf(t))
		}
		le.vars[p.Name] = SVal{a.T, t}
	}
	var pre, post []*Term
	for _, p := range l.Params {
		pre = append(pre, lemmaWf(l, le.vars[p.Name], st.Alloc()))
	}
	for _, r := range l.Requires {
		pre = append(pre, le.boolE(r.E))
	}
	if ih {
		m := parseExpr(l.Induct, l.Pos)
		pre = append(pre, Le(IntLit(0), le.eval(m).T), Lt(le.eval(m).T, x.ihMeasure))
	}
	for _, r := range l.Ensures {
		post = append(post, le.boolE(r.E))
	}
	if l.Axiom {
		x.trustedUsed["axiom "+l.Name] = true
	}
	return Implies(And(pre...), And(post...))
}

// ---- builtins ----

func (x *Exec) builtin(fr *Frame, st *State, ci ssa.CallInstruction, c *ssa.CallCommon, b *ssa.Builtin) Val {
	pos := ci.Pos()
	switch b.Name() {
	case "len", "cap":
		a := x.term(fr, c.Args[0])
		switch u := c.Args[0].Type().Underlying().(type) {
		case *types.Basic:
			r := SLen(a)
			x.assume(st, And(Le(IntLit(0), r), Le(r, maxLen())))
			return r
		case *types.Slice:
			if b.Name() == "cap" {
				return SC(a)
			}
			return SL(a)
		case *types.Map:
			md, _, ml, ds, _, ls := mapHeaps(u)
			r := Ite(Eq(a, IntLit(0)), IntLit(0), Select(st.Heap(ml, ls), a))
			x.assume(st, And(Le(IntLit(0), r), Le(r, maxLen())))
			// a map is empty iff it has no keys
			k := BoundVar("k", sortOf(u.Key()))
			has := Select(Select(st.Heap(md, ds), a), k)
			x.assume(st, Eq(Eq(r, IntLit(0)), Forall([]*Term{k}, [][]*Term{{has}}, Not(has))))
			return r
		case *types.Pointer:
			return IntLit(u.Elem().Underlying().(*types.Array).Len())
		case *types.Array:
			return IntLit(u.Len())
		}
	case "append":
		return x.appendB(fr, st, c, pos)
	case "copy":
		return x.copyB(fr, st, c, pos)
	case "min", "max":
		r := x.term(fr, c.Args[0])
		for _, a := range c.Args[1:] {
			t := x.term(fr, a)
			if b.Name() == "min" {
				r = Ite(Le(r, t), r, t)
			} else {
				r = Ite(Le(r, t), t, r)
			}
		}
		return r
	case "delete":
		m := c.Args[0].Type().Underlying().(*types.Map)
		id := x.term(fr, c.Args[0])
		k := x.term(fr, c.Args[1])
		md, mv, ml, ds, vs, ls := mapHeaps(m)
		x.frameCheck(st, md, MkPtr(id, IntLit(0)), pos)
		D, L := st.Heap(md, ds), st.Heap(ml, ls)
		// absent keys have the zero value
		x.record(mv, vs, id, false)
		W := st.Heap(mv, vs)
		x.setHeap(st, mv, vs, Store(W, id, Store(Select(W, id), k, zeroOf(m.Elem()))))
		x.record(md, ds, id, false)
		x.record(ml, ls, id, false)
		had := Select(Select(D, id), k)
		x.setHeap(st, ml, ls, Store(L, id, Ite(had, Sub(Select(L, id), IntLit(1)), Select(L, id))))
		x.setHeap(st, md, ds, Store(D, id, Store(Select(D, id), k, False)))
		return nil
	case "ssa:wrapnilchk":
		p := x.value(fr, c.Args[0])
		if t, ok := p.(*Term); ok {
			x.nonNil(st, t, pos)
		}
		return p
	case "ssa:deferstack":
		return IntLit(0)
	case "String": // unsafe.String: the bytes at p, taken as a value
		p := x.term(fr, c.Args[0])
		n := x.term(fr, c.Args[1])
		el := c.Args[0].Type().Underlying().(*types.Pointer).Elem()
		x.safety(st, "nil", Or(Eq(n, IntLit(0)), Not(Eq(PO(p), IntLit(0)))), pos)
		h, srt := elemHeap(el)
		return MkStr(Select(st.Heap(h, srt), PO(p)), PI(p), n)
	case "print", "println":
		return nil
	case "recover":
		return NilIface()
	}
	unsup("builtin %s", b.Name())
	return nil
}

func (x *Exec) srcAt(st *State, s *Term, el types.Type) func(k *Term) *Term {
	if s.sort == SStr {
		return func(k *Term) *Term { return SAt(s, k) }
	}
	if isExploded(el) {
		unsup("append/copy of exploded struct elements %s", el)
	}
	h, srt := elemHeap(el)
	A := Select(st.Heap(h, srt), SO(s))
	return func(k *Term) *Term { return Select(A, Ix(SF(s), k)) }
}

func (x *Exec) appendB(fr *Frame, st *State, c *ssa.CallCommon, pos token.Pos) Val {
	s := x.term(fr, c.Args[0])
	t := x.term(fr, c.Args[1])
	el := c.Args[0].Type().Underlying().(*types.Slice).Elem()
	h, srt := elemHeap(el)
	if isExploded(el) {
		unsup("append of exploded struct elements %s", el)
	}
	var m *Term
	if t.sort == SStr {
		m = SLen(t)
	} else {
		m = SL(t)
	}
	src := x.srcAt(st, t, el)
	n := Add(SL(s), m)
	x.assume(st, Le(n, maxLen())) // resource assumption: append panics rather than exceed it
	inPlace := Le(n, SC(s))
	if n == IntLit(0) {
		return s
	}
	H := st.Heap(h, srt)
	A := Select(H, SO(s))
	base := Add(SF(s), SL(s))
	// frame for the in-place write
	if x.spec != nil && x.quiet == 0 && x.spec.Opts["noframe"] == "" {
		i := BoundVar("i", "Int")
		x.check(st, "frame", h, Forall([]*Term{i}, nil, Implies(And(inPlace, Le(base, i), Lt(i, Add(base, m))), Or(Le(x.entry.alloc, SO(s)), x.inMods(h, MkPtr(SO(s), i))))), pos, "append in place")
	}
	// new object
	o := x.newObj(st)
	N := Select(H, o)
	ncap := FreshT("newcap", "Int")
	x.assume(st, And(Le(n, ncap), Le(ncap, maxLen())))
	k := BoundVar("k", "Int")
	x.assume(st, Forall([]*Term{k}, [][]*Term{{Select(N, k)}}, Implies(And(Le(IntLit(0), k), Lt(k, SL(s))), Eq(Select(N, k), Select(A, Ix(SF(s), k))))))
	var B *Term
	if ml, ok := m.lit(); ok && ml.IsInt64() && ml.Int64() <= 8 {
		B = A
		for j := int64(0); j < ml.Int64(); j++ {
			B = Store(B, Ix(SF(s), Add(SL(s), IntLit(j))), src(IntLit(j)))
			x.assume(st, Eq(Select(N, Ix(IntLit(0), Add(SL(s), IntLit(j)))), src(IntLit(j))))
		}
	} else {
		B = FreshT("app", arrElem(srt))
		k1 := BoundVar("k", "Int")
		off := Sub(k1, base)
		x.assume(st, Forall([]*Term{k1}, [][]*Term{{Select(B, k1)}}, Eq(Select(B, k1), Ite(And(Le(IntLit(0), off), Lt(off, m)), src(off), Select(A, k1)))))
		k2 := BoundVar("k", "Int")
		off2 := Sub(k2, SL(s))
		x.assume(st, Forall([]*Term{k2}, [][]*Term{{Select(N, k2)}}, Implies(And(Le(IntLit(0), off2), Lt(off2, m)), Eq(Select(N, k2), src(off2)))))
	}
	x.record(h, srt, SO(s), false)
	x.setHeap(st, h, srt, Ite(inPlace, Store(H, SO(s), B), H))
	if m.sort == "Int" {
		// nothing appended to a nil slice stays nil
		if _, ok := m.lit(); !ok {
			zero := Eq(m, IntLit(0))
			return Ite(zero, s, Ite(inPlace, MkSlice(SO(s), SF(s), n, SC(s)), MkSlice(o, IntLit(0), n, ncap)))
		}
	}
	return MkSlice(Ite(inPlace, SO(s), o), Ite(inPlace, SF(s), IntLit(0)), n, Ite(inPlace, SC(s), ncap))
}

func (x *Exec) copyB(fr *Frame, st *State, c *ssa.CallCommon, pos token.Pos) Val {
	d := x.term(fr, c.Args[0])
	s := x.term(fr, c.Args[1])
	el := c.Args[0].Type().Underlying().(*types.Slice).Elem()
	h, srt := elemHeap(el)
	var m *Term
	if s.sort == SStr {
		m = SLen(s)
	} else {
		m = SL(s)
	}
	n := Ite(Le(SL(d), m), SL(d), m)
	src := x.srcAt(st, s, el)
	H := st.Heap(h, srt)
	A := Select(H, SO(d))
	if x.spec != nil && x.quiet == 0 && x.spec.Opts["noframe"] == "" {
		i := BoundVar("i", "Int")
		x.check(st, "frame", h, Forall([]*Term{i}, nil, Implies(And(Le(SF(d), i), Lt(i, Add(SF(d), n))), Or(Le(x.entry.alloc, SO(d)), x.inMods(h, MkPtr(SO(d), i))))), pos, "copy")
	}
	B := FreshT("cpy", arrElem(srt))
	k := BoundVar("k", "Int")
	off := Sub(k, SF(d))
	x.assume(st, Forall([]*Term{k}, [][]*Term{{Select(B, k)}}, Eq(Select(B, k), Ite(And(Le(IntLit(0), off), Lt(off, n)), src(off), Select(A, k)))))
	x.record(h, srt, SO(d), false)
	x.setHeap(st, h, srt, Ite(Eq(n, IntLit(0)), H, Store(H, SO(d), B)))
	return n
}

// devirt: the method called when the dynamic type of the receiver is known.
func (x *Exec) devirt(tag *Term, m *types.Func) *ssa.Function {
	v, ok := tag.lit()
	if !ok || v.Sign() <= 0 || v.Int64() > int64(len(W.tagTypes)) {
		return nil
	}
	return W.prog.LookupMethod(W.tagTypes[v.Int64()-1], m.Pkg(), m.Name())
}

// sortSearch: sort.Search(n, f) returns the r in [0, n] its binary search ends at:
// f(r) holds unless r == n and f(r-1) does not unless r == 0. f is executed symbolically
// at an arbitrary index (for its own obligations), at r and at r-1; it must not write.
func (x *Exec) sortSearch(fr *Frame, st *State, ci ssa.CallInstruction, args []Val, pos token.Pos) Val {
	n, ok := args[0].(*Term)
	cl, ok2 := args[1].(*Closure)
	if !ok || !ok2 {
		unsup("sort.Search with an unknown function")
	}
	x.trustedUsed["extern sort.Search"] = true
	at := func(i *Term, cond *Term) *Term {
		s2 := st.clone()
		s2.reach = And(st.reach, cond)
		r := x.callFn(fr, s2, ci, cl.fn, cl.bind, []Val{i}, []types.Type{types.Typ[types.Int]}, pos)
		for h, t := range s2.heaps {
			if st.heaps[h] != nil && st.heaps[h] != t {
				unsup("sort.Search function writes %s", h)
			}
		}
		return r.(*Term)
	}
	z := IntLit(0)
	i := FreshT("srch", "Int")
	at(i, And(Le(z, i), Lt(i, n)))
	r := FreshT("search", "Int")
	x.assume(st, And(Le(z, r), Or(Le(r, n), Eq(r, z)), Implies(Le(n, z), Eq(r, z))))
	c1 := Lt(r, n)
	v1 := at(r, c1)
	x.assume(st, Implies(c1, v1))
	c2 := Lt(z, r)
	v2 := at(Sub(r, IntLit(1)), c2)
	x.assume(st, Implies(c2, Not(v2)))
	return r
}
