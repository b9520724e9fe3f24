package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- values ----

type Val interface{}
type Tuple []Val

type slotKey struct {
	fr *Frame
	v  ssa.Value
}

type Addr struct {
	slot  *slotKey // local root
	ptr   *Term    // heap root
	rootT types.Type
	path  []int
	elT   types.Type // type of the addressed location
}

type Closure struct {
	fn   *ssa.Function
	bind []Val
}
type FuncV struct{ fn *ssa.Function }
type BoundMeth struct{}

type RangeIt struct {
	m    *Term
	mt   *types.Map
	dom  *Term
	str  *Term
	slot slotKey
}

type State struct {
	reach *Term
	slots map[slotKey]Val
	heaps map[string]*Term
	alloc *Term
	node  int
	x     *Exec
}

func (s *State) clone() *State {
	n := &State{reach: s.reach, slots: make(map[slotKey]Val, len(s.slots)), heaps: make(map[string]*Term, len(s.heaps)), alloc: s.alloc, node: s.node, x: s.x}
	for k, v := range s.slots {
		n.slots[k] = v
	}
	for k, v := range s.heaps {
		n.heaps[k] = v
	}
	return n
}

func (s *State) Heap(n, srt string) *Term {
	if t, ok := s.heaps[n]; ok {
		return t
	}
	t := Const("h0_"+n, srt)
	s.x.noteHeap(n, srt, t)
	return t
}
func (s *State) Alloc() *Term { return s.alloc }

type Assump struct {
	node int
	t    *Term
}

type Oblig struct {
	Name  string
	Kind  string
	Func  string
	Pos   string
	Label string
	Src   string
	Props []string
	node  int
	nass  int
	guard *Term
	goal  *Term
	x     *Exec
	lemma bool
	bv    bool
	// results
	Status  string // proved, failed, unknown, trivial
	Solver  string
	Time    float64
	Output  string
	Query   string
	Vacuity bool
}

type Recorder struct {
	slots map[slotKey]bool
	heaps map[string]*heapRec
	alloc bool
	start int
	news  map[*Term]bool
}
type heapRec struct {
	sort  string
	addrs []*Term // PO terms (E heaps) or Ptr terms (H heaps)
	imp   bool
}

type Loop struct {
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	ord    int
	spec   *LoopSpec
	split0 []*Term
	decr0  []*Term
	headSt *State
	lets   map[string]SVal // values named by the contract: at entry (pre) and at the head of the current iteration (let)
}

type Frame struct {
	id      int
	fn      *ssa.Function
	parent  *Frame
	path    string
	vals    map[ssa.Value]Val
	loops   map[*ssa.BasicBlock]*Loop
	order   []*ssa.BasicBlock
	depth   int
	defers  []*ssa.Defer
	curLoop *Loop
}

type ModSet struct {
	heap string
	sort string
	kind string // ptr, obj, range, pred, ghost
	p    *Term
	o    *Term
	lo   *Term
	hi   *Term
	pred func(*Term) *Term
}

type Exec struct {
	merges        []mergeRec
	curLemma      *Lemma
	ihMeasure     *Term
	fn            *ssa.Function
	spec          *FuncSpec
	fname         string
	assumps       []Assump
	obls          []*Oblig
	anc           [][]uint64
	recs          []*Recorder
	quiet         int
	entry         *State
	entryEnv      *Env
	mods          []ModSet
	nframes       int
	loopOrd       map[string]int
	heapSorts     map[string]string
	entryWF       map[string]bool
	heads         []loopHead
	alias         map[string]string
	wantLoc       []string
	props         []string
	tyArgs        map[string]types.Type
	usedContracts map[string]bool
	trustedUsed   map[string]bool
	inlined       map[string]bool
	labelN        map[string]int
	returns       int
	cands         map[string]bool
	pureFn        bool
}

type Unsupported struct{ Msg string }

func unsup(f string, a ...interface{}) { panic(Unsupported{fmt.Sprintf(f, a...)}) }

// the ways into a node where paths meet
type mergeRec struct {
	node  int
	pred  []int
	reach []*Term
}

func (x *Exec) newNode(preds ...int) int {
	n := len(x.anc)
	w := n/64 + 1
	b := make([]uint64, w)
	for _, p := range preds {
		for i, z := range x.anc[p] {
			b[i] |= z
		}
	}
	b[n/64] |= 1 << (n % 64)
	x.anc = append(x.anc, b)
	return n
}

func (x *Exec) isAnc(a, n int) bool {
	b := x.anc[n]
	return a/64 < len(b) && b[a/64]>>(a%64)&1 == 1
}

func (x *Exec) assume(st *State, t *Term) {
	if t == True || x.quiet > 0 {
		return
	}
	x.assumps = append(x.assumps, Assump{st.node, Implies(st.reach, t)})
}

// loopHead: a loop that allocates; heaps it does not write are well-formed
// with respect to the allocation mark at its head as well.
type loopHead struct {
	alloc *Term
	node  int
	heaps map[string]bool
}

func (x *Exec) noteHeap(n, srt string, t *Term) {
	if x == nil || x.entryWF[n] {
		return
	}
	x.entryWF[n] = true
	x.heapSorts[n] = srt
	x.heapWF(n, t, x.entry.alloc, 0)
	for _, l := range x.heads {
		if !l.heaps[n] {
			x.heapWF(n, t, l.alloc, l.node)
		}
	}
}

var heapElem = map[string]types.Type{} // heap base -> Go type of stored values

// heapWF: stored references at allocated addresses are allocated.
func (x *Exec) heapWF(n string, h *Term, alloc *Term, node int) {
	ty, ok := heapElem[n]
	if !ok {
		return
	}
	if bvMode {
		return
	}
	var f *Term
	switch n[0] {
	case 'H':
		p := BoundVar("p", SPtr)
		v := Select(h, p)
		w := wf(v, ty, alloc)
		f = Forall([]*Term{p}, [][]*Term{{v}}, Implies(Lt(PO(p), alloc), w))
	case 'E':
		o := BoundVar("o", "Int")
		i := BoundVar("i", "Int")
		v := Select(Select(h, o), i)
		w := wf(v, ty, alloc)
		f = Forall([]*Term{o, i}, [][]*Term{{v}}, Implies(Lt(o, alloc), w))
	default:
		return
	}
	if f == True {
		return
	}
	x.assumps = append(x.assumps, Assump{node, f})
}

func regHeap(n string, ty types.Type) {
	if _, ok := heapElem[n]; !ok {
		heapElem[n] = ty
	}
}

func (x *Exec) setHeap(st *State, n, srt string, t *Term) {
	x.heapSorts[n] = srt
	st.heaps[n] = t
}

func (x *Exec) record(n, srt string, addr *Term, imp bool) {
	for _, r := range x.recs {
		h := r.heaps[n]
		if h == nil {
			h = &heapRec{sort: srt}
			r.heaps[n] = h
		}
		if imp {
			h.imp = true
			continue
		}
		o := addr
		if addr.sort == SPtr {
			o = PO(addr)
		}
		if r.news[o] {
			continue
		}
		dup := false
		for _, a := range h.addrs {
			if a == addr {
				dup = true
			}
		}
		if !dup {
			h.addrs = append(h.addrs, addr)
		}
	}
}

func (x *Exec) recSlot(k slotKey) {
	for _, r := range x.recs {
		r.slots[k] = true
	}
}

var freshIDs = map[*Term]int{}

func FreshT(prefix, srt string) *Term {
	t := Fresh(prefix, srt)
	freshIDs[t] = len(freshIDs) + 1
	return t
}

func maxFresh(t *Term, memo map[*Term]int) int {
	if m, ok := memo[t]; ok {
		return m
	}
	m := freshIDs[t]
	for _, a := range t.args {
		if n := maxFresh(a, memo); n > m {
			m = n
		}
	}
	memo[t] = m
	return m
}

// ---- obligations ----

func (x *Exec) posStr(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	ps := W.prog.Fset.Position(p)
	f := ps.Filename
	if i := strings.Index(f, "/repo/"); i >= 0 {
		f = f[i+6:]
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

func splitGoal(g *Term) []*Term {
	switch g.op {
	case "and":
		var out []*Term
		for _, a := range g.args {
			out = append(out, splitGoal(a)...)
		}
		return out
	case "=>":
		var out []*Term
		for _, a := range splitGoal(g.args[1]) {
			out = append(out, Implies(g.args[0], a))
		}
		return out
	case "forall":
		parts := splitGoal(g.args[0])
		if len(parts) == 1 {
			return []*Term{g}
		}
		var out []*Term
		for _, p := range parts {
			out = append(out, Forall(g.qvars, nil, p))
		}
		return out
	}
	return []*Term{g}
}

func (x *Exec) check(st *State, kind, label string, goal *Term, pos token.Pos, src string) {
	if x.quiet > 0 {
		return
	}
	base := x.fname + ": " + kind
	if label != "" {
		base += " " + label
	}
	for _, g := range splitGoal(goal) {
		x.labelN[base]++
		nm := base
		if x.labelN[base] > 1 {
			nm = fmt.Sprintf("%s #%d", base, x.labelN[base])
		}
		o := &Oblig{Name: nm, Kind: kind, Func: x.fname, Pos: x.posStr(pos), Label: label, Src: src, Props: x.props,
			node: st.node, nass: len(x.assumps), guard: st.reach, goal: g, x: x, bv: bvMode}
		if g == True || st.reach == False {
			o.Status = "trivial"
		}
		x.obls = append(x.obls, o)
	}
	x.assume(st, goal)
}

func (x *Exec) safety(st *State, what string, goal *Term, pos token.Pos) {
	if goal == True {
		return
	}
	x.check(st, "safety", what, goal, pos, what)
}

// ---- memory ----

func (x *Exec) asTerm(v Val, t types.Type) *Term {
	switch y := v.(type) {
	case *Term:
		return y
	case *Addr:
		if y.ptr != nil && len(y.path) == 0 {
			return y.ptr
		}
		unsup("interior pointer used as a value (%v)", y.elT)
	case *FuncV:
		return fnTerm(y.fn)
	case *Closure:
		t := FreshT("closure", "Int")
		closures[t] = y
		return t
	}
	unsup("value %T as term", v)
	return nil
}

var fnConsts = map[*Term]*ssa.Function{}
var closures = map[*Term]*Closure{}

func fnTerm(f *ssa.Function) *Term {
	t := Const("fn_"+f.String(), "Int")
	fnConsts[t] = f
	return t
}

func (x *Exec) nonNil(st *State, p *Term, pos token.Pos) {
	x.safety(st, "nil-deref", Not(Eq(PO(p), IntLit(0))), pos)
}

func subAcc(v *Term, t types.Type, path []int) (*Term, types.Type) {
	for _, i := range path {
		if a, ok := t.Underlying().(*types.Array); ok {
			_ = a
			panic("array path")
		}
		v = Acc(sortOf(t), i, v)
		t = fieldType(t, i)
	}
	return v, t
}

func updPath(v *Term, t types.Type, path []int, nv *Term) *Term {
	if len(path) == 0 {
		return nv
	}
	u, _ := structOf(t)
	srt := sortOf(t)
	var as []*Term
	for i := 0; i < u.NumFields(); i++ {
		f := Acc(srt, i, v)
		if i == path[0] {
			f = updPath(f, fieldType(t, i), path[1:], nv)
		}
		as = append(as, f)
	}
	return Ctor(srt, as...)
}

func (x *Exec) load(st *State, a Val, t types.Type, pos token.Pos) Val {
	if p, ok := a.(*Term); ok {
		a = &Addr{ptr: p, rootT: t, elT: t}
	}
	ad, ok := a.(*Addr)
	if !ok {
		unsup("load through %T", a)
	}
	if ad.slot != nil {
		v, ok := st.slots[*ad.slot]
		if !ok {
			unsup("uninitialised slot %v", ad.slot.v.Name())
		}
		if len(ad.path) == 0 {
			return v
		}
		tv, ok := v.(*Term)
		if !ok {
			unsup("path into %T", v)
		}
		r, _ := subAcc(tv, ad.rootT, ad.path)
		return r
	}
	x.nonNil(st, ad.ptr, pos)
	var r *Term
	if len(ad.path) > 0 && isExploded(ad.rootT) {
		if isSub(ad.rootT, ad.path[0]) {
			unsup("load of a part of a subobject")
		}
		h, s := fieldHeap(ad.rootT, ad.path[0])
		ft := fieldType(ad.rootT, ad.path[0])
		regHeap(h, ft)
		r = Select(st.Heap(h, s), ad.ptr)
		r, _ = subAcc(r, ft, ad.path[1:])
	} else if isExploded(ad.rootT) {
		x.regStruct(ad.rootT)
		r = loadValue(st, ad.ptr, ad.rootT)
	} else {
		h, s := elemHeap(ad.rootT)
		regHeap(h, ad.rootT)
		r = Select(Select(st.Heap(h, s), PO(ad.ptr)), PI(ad.ptr))
		r, _ = subAcc(r, ad.rootT, ad.path)
	}
	x.assume(st, wf(r, t, st.alloc))
	return r
}

func (x *Exec) regStruct(t types.Type) {
	u, _ := structOf(t)
	for i := 0; i < u.NumFields(); i++ {
		h, _ := fieldHeap(t, i)
		regHeap(h, u.Field(i).Type())
	}
}

func (x *Exec) store(st *State, a Val, t types.Type, v Val, pos token.Pos) {
	if p, ok := a.(*Term); ok {
		a = &Addr{ptr: p, rootT: t, elT: t}
	}
	ad, ok := a.(*Addr)
	if !ok {
		unsup("store through %T", a)
	}
	if ad.slot != nil {
		x.recSlot(*ad.slot)
		if len(ad.path) == 0 {
			st.slots[*ad.slot] = v
			return
		}
		cur, ok := st.slots[*ad.slot].(*Term)
		if !ok {
			unsup("partial store into %T", st.slots[*ad.slot])
		}
		st.slots[*ad.slot] = updPath(cur, ad.rootT, ad.path, x.asTerm(v, t))
		return
	}
	x.nonNil(st, ad.ptr, pos)
	tv := x.asTerm(v, t)
	if isExploded(ad.rootT) {
		if len(ad.path) > 0 {
			x.storeField(st, ad.ptr, ad.rootT, ad.path, tv, pos)
			return
		}
		u, _ := structOf(ad.rootT)
		for i := 0; i < u.NumFields(); i++ {
			x.storeField(st, ad.ptr, ad.rootT, []int{i}, Acc(sortOf(ad.rootT), i, tv), pos)
		}
		return
	}
	h, s := elemHeap(ad.rootT)
	regHeap(h, ad.rootT)
	H := st.Heap(h, s)
	A := Select(H, PO(ad.ptr))
	x.frameCheck(st, h, ad.ptr, pos)
	nv := updPath(Select(A, PI(ad.ptr)), ad.rootT, ad.path, tv)
	x.record(h, s, PO(ad.ptr), false)
	x.setHeap(st, h, s, Store(H, PO(ad.ptr), Store(A, PI(ad.ptr), nv)))
}

func (x *Exec) storeField(st *State, p *Term, rootT types.Type, path []int, tv *Term, pos token.Pos) {
	if isSub(rootT, path[0]) {
		if len(path) > 1 {
			unsup("store into a part of a subobject")
		}
		x.store(st, SubPtr(p, rootT, path[0]), fieldType(rootT, path[0]), tv, pos)
		return
	}
	h, s := fieldHeap(rootT, path[0])
	ft := fieldType(rootT, path[0])
	regHeap(h, ft)
	H := st.Heap(h, s)
	x.frameCheck(st, h, p, pos)
	nv := updPath(Select(H, p), ft, path[1:], tv)
	x.record(h, s, p, false)
	x.setHeap(st, h, s, Store(H, p, nv))
}

// inMods: address p of heap h may be modified by this function.
func (x *Exec) inMods(h string, p *Term) *Term {
	var cs []*Term
	for _, m := range x.mods {
		if m.heap != h {
			continue
		}
		cs = append(cs, m.covers(p))
	}
	return Or(cs...)
}

func (m *ModSet) covers(p *Term) *Term {
	switch m.kind {
	case "ptr":
		return Eq(p, m.p)
	case "obj":
		return Eq(PO(p), m.o)
	case "range":
		return And(Eq(PO(p), m.o), Le(m.lo, PI(p)), Lt(PI(p), m.hi))
	case "pred":
		return m.pred(p)
	case "all":
		return True
	}
	return False
}

func (x *Exec) frameCheck(st *State, h string, p *Term, pos token.Pos) {
	if x.spec == nil || x.quiet > 0 || x.spec.Opts["noframe"] != "" {
		return
	}
	fresh := Le(x.entry.alloc, PO(p))
	if o := PO(p); strings.HasPrefix(o.op, "emb_") && len(o.args) == 1 {
		fresh = Le(x.entry.alloc, PO(o.args[0]))
	}
	x.check(st, "frame", h, Or(fresh, x.inMods(h, p)), pos, "write to "+h)
}

func (x *Exec) newObj(st *State) *Term {
	o := x.newObjAny(st)
	x.assume(st, Eq(kindOf(o), IntLit(0)))
	return o
}

func (x *Exec) newObjAny(st *State) *Term {
	o := st.alloc
	st.alloc = Add(o, IntLit(1))
	for _, r := range x.recs {
		r.alloc = true
		r.news[o] = true
	}
	x.assume(st, Le(IntLit(1), o))
	return o
}

// kindOf is the type an object was allocated with (when it is a single value of a named type).
func kindOf(o *Term) *Term {
	DeclFun("kindof", []string{"Int"}, "Int")
	return App("kindof", "Int", o)
}

// zeroInit assumes the fresh object holds zero values.
func (x *Exec) zeroInit(st *State, p *Term, t types.Type) {
	if isExploded(t) {
		u, _ := structOf(t)
		for i := 0; i < u.NumFields(); i++ {
			if isSub(t, i) {
				x.zeroInit(st, SubPtr(p, t, i), fieldType(t, i))
				continue
			}
			h, s := fieldHeap(t, i)
			regHeap(h, fieldType(t, i))
			x.assume(st, Eq(Select(st.Heap(h, s), p), zeroOf(fieldType(t, i))))
		}
		return
	}
	h, s := elemHeap(t)
	regHeap(h, t)
	x.assume(st, Eq(Select(Select(st.Heap(h, s), PO(p)), PI(p)), zeroOf(t)))
}

// ---- merging ----

func (x *Exec) mergeVal(c *Term, a, b Val, what string) Val {
	if a == b {
		return a
	}
	ta, ok1 := a.(*Term)
	tb, ok2 := b.(*Term)
	if ok1 && ok2 {
		return Ite(c, ta, tb)
	}
	if aa, ok := a.(*Addr); ok {
		if bb, ok := b.(*Addr); ok {
			if aa.slot == bb.slot && aa.ptr == bb.ptr && fmt.Sprint(aa.path) == fmt.Sprint(bb.path) {
				return a
			}
			if aa.slot != nil && bb.slot != nil && *aa.slot == *bb.slot && fmt.Sprint(aa.path) == fmt.Sprint(bb.path) {
				return a
			}
			if aa.ptr != nil && bb.ptr != nil && fmt.Sprint(aa.path) == fmt.Sprint(bb.path) {
				n := *aa
				n.ptr = Ite(c, aa.ptr, bb.ptr)
				return &n
			}
		}
	}
	if ca, ok := a.(*Closure); ok {
		if cb, ok := b.(*Closure); ok && ca.fn == cb.fn && len(ca.bind) == len(cb.bind) {
			same := true
			for i := range ca.bind {
				if ca.bind[i] != cb.bind[i] {
					aa, o1 := ca.bind[i].(*Addr)
					bb, o2 := cb.bind[i].(*Addr)
					if !(o1 && o2 && aa.slot != nil && bb.slot != nil && *aa.slot == *bb.slot) {
						same = false
					}
				}
			}
			if same {
				return a
			}
		}
	}
	if fa, ok := a.(*FuncV); ok {
		if fb, ok := b.(*FuncV); ok && fa.fn == fb.fn {
			return a
		}
	}
	if ia, ok := a.(*RangeIt); ok {
		if ib, ok := b.(*RangeIt); ok && ia.m == ib.m && ia.slot == ib.slot {
			return a
		}
	}
	if ra, ok := a.(Tuple); ok {
		if rb, ok := b.(Tuple); ok && len(ra) == len(rb) {
			var out Tuple
			for i := range ra {
				out = append(out, x.mergeVal(c, ra[i], rb[i], what))
			}
			return out
		}
	}
	// functions as terms
	if isFn(a) && isFn(b) {
		return Ite(c, x.asTerm(a, nil), x.asTerm(b, nil))
	}
	return poison{what}
}

type poison struct{ what string }

func isFn(a Val) bool {
	switch y := a.(type) {
	case *FuncV, *Closure:
		return true
	case *Term:
		return y.sort == "Int"
	}
	return false
}

func (x *Exec) mergeStates(sts []*State) *State {
	if len(sts) == 1 {
		s := sts[0].clone()
		s.node = x.newNode(sts[0].node)
		return s
	}
	res := sts[len(sts)-1].clone()
	var nodes []int
	for _, s := range sts {
		nodes = append(nodes, s.node)
	}
	var reaches []*Term
	for i := len(sts) - 2; i >= 0; i-- {
		s := sts[i]
		c := s.reach
		for _, k := range sortedSlots(res.slots) {
			v := res.slots[k]
			w, ok := s.slots[k]
			if !ok {
				delete(res.slots, k)
				continue
			}
			res.slots[k] = x.mergeVal(c, w, v, k.v.Name())
		}
		for _, k := range sortedKeys(s.heaps) {
			if _, ok := res.heaps[k]; !ok {
				res.heaps[k] = res.Heap(k, x.heapSorts[k])
			}
		}
		for _, k := range sortedKeys(res.heaps) {
			v := res.heaps[k]
			res.heaps[k] = Ite(c, s.Heap(k, v.sort), v)
		}
		res.alloc = Ite(c, s.alloc, res.alloc)
	}
	for _, s := range sts {
		reaches = append(reaches, s.reach)
	}
	res.reach = Or(reaches...)
	res.node = x.newNode(nodes...)
	x.merges = append(x.merges, mergeRec{res.node, nodes, reaches})
	return res
}

// ---- control flow ----

func computeLoops(fn *ssa.Function) (order []*ssa.BasicBlock, loops map[*ssa.BasicBlock]*Loop) {
	loops = map[*ssa.BasicBlock]*Loop{}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := loops[s]
				if l == nil {
					l = &Loop{head: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					loops[s] = l
				}
				var back func(y *ssa.BasicBlock)
				back = func(y *ssa.BasicBlock) {
					if l.blocks[y] {
						return
					}
					l.blocks[y] = true
					for _, p := range y.Preds {
						back(p)
					}
				}
				back(b)
				continue
			}
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		order = append(order, post[i])
	}
	return
}

type inEdge struct {
	pred *ssa.BasicBlock
	st   *State
}

type retRec struct {
	st   *State
	vals []Val
	pos  token.Pos
}

func (x *Exec) newFrame(fn *ssa.Function, parent *Frame, path string) *Frame {
	if fn.Blocks == nil {
		unsup("function without body: %s", fn)
	}
	x.nframes++
	fr := &Frame{id: x.nframes, fn: fn, parent: parent, path: path, vals: map[ssa.Value]Val{}}
	if parent != nil {
		fr.depth = parent.depth + 1
	}
	if fr.depth > 12 {
		unsup("inlining too deep: %s", fn)
	}
	fr.order, fr.loops = computeLoops(fn)
	for h, l := range fr.loops {
		l.ord = -1
		if o, ok := x.loopOrd[fmt.Sprintf("%s#%d", path, h.Index)]; ok {
			l.ord = o
			if x.spec != nil {
				l.spec = x.spec.Loops[o]
			}
		}
	}
	return fr
}

// enumLoops assigns ordinals to loops in source order, through inlined calls.
func (x *Exec) enumLoops(fn *ssa.Function, path string, depth int, n *int) {
	if fn.Blocks == nil || depth > 8 {
		return
	}
	_, loops := computeLoops(fn)
	type item struct {
		pos token.Pos
		seq int
		h   *ssa.BasicBlock
		c   ssa.CallInstruction
	}
	var items []item
	for _, b := range fn.Blocks {
		if loops[b] != nil {
			p := token.Pos(0)
			for _, i := range b.Instrs {
				if q := i.Pos(); q.IsValid() && (p == 0 || q < p) {
					p = q
				}
			}
			for lb := range loops[b].blocks {
				for _, i := range lb.Instrs {
					if q := i.Pos(); q.IsValid() && (p == 0 || q < p) {
						p = q
					}
				}
			}
			items = append(items, item{p, len(items), b, nil})
		}
		for _, i := range b.Instrs {
			if c, ok := i.(ssa.CallInstruction); ok {
				items = append(items, item{c.Pos(), len(items), nil, c})
			}
		}
	}
	sort.SliceStable(items, func(i, j int) bool {
		if items[i].pos != items[j].pos {
			return items[i].pos < items[j].pos
		}
		// an outer loop first
		if items[i].h != nil && items[j].h != nil {
			return len(loops[items[i].h].blocks) > len(loops[items[j].h].blocks)
		}
		if (items[i].h != nil) != (items[j].h != nil) {
			return items[i].h != nil
		}
		return items[i].seq < items[j].seq
	})
	for _, it := range items {
		if it.h != nil {
			x.loopOrd[fmt.Sprintf("%s#%d", path, it.h.Index)] = *n
			*n++
			continue
		}
		callee := it.c.Common().StaticCallee()
		if callee == nil {
			continue
		}
		if x.contractFor(callee) != nil || !x.inlinable(callee) {
			continue
		}
		x.enumLoops(callee, path+"/"+callKey(it.c), depth+1, n)
	}
}

func callKey(c ssa.CallInstruction) string {
	return fmt.Sprintf("%d.%d", c.Block().Index, instrIndex(c))
}

func instrIndex(c ssa.Instruction) int {
	for i, y := range c.Block().Instrs {
		if y == c {
			return i
		}
	}
	return -1
}

func (x *Exec) inlinable(fn *ssa.Function) bool {
	if fn.Blocks == nil {
		return false
	}
	if fn.Pkg != nil && inModule(fn.Pkg.Pkg) {
		return true
	}
	if o := fn.Origin(); o != nil && o.Pkg != nil && inModule(o.Pkg.Pkg) {
		return true
	}
	if fn.Parent() != nil {
		return x.inlinable(fn.Parent())
	}
	if fn.Synthetic != "" && fn.Object() != nil && inModule(fn.Object().Pkg()) {
		return true
	}
	return false
}

func (x *Exec) runFunc(fr *Frame, st *State) (rets []retRec) {
	x.execRegion(fr, fr.fn.Blocks[0], st, nil, nil, func(r retRec) { rets = append(rets, r) })
	return
}

func (x *Exec) execRegion(fr *Frame, start *ssa.BasicBlock, st *State, region map[*ssa.BasicBlock]bool, dry *Loop, onRet func(retRec)) {
	pend := map[*ssa.BasicBlock][]inEdge{}
	for _, b := range fr.order {
		if region != nil && !region[b] {
			continue
		}
		var cur *State
		if b == start {
			cur = st.clone()
			cur.node = x.newNode(st.node)
		} else {
			in := pend[b]
			if len(in) == 0 {
				continue
			}
			var sts []*State
			for _, e := range in {
				sts = append(sts, e.st)
			}
			cur = x.mergeStates(sts)
			// phis
			for _, ins := range b.Instrs {
				phi, ok := ins.(*ssa.Phi)
				if !ok {
					if _, dbg := ins.(*ssa.DebugRef); dbg {
						continue
					}
					break
				}
				var v Val
				for k := len(in) - 1; k >= 0; k-- {
					var op ssa.Value
					for pi, p := range b.Preds {
						if p == in[k].pred {
							op = phi.Edges[pi]
						}
					}
					w := x.value(fr, op)
					if v == nil {
						v = w
					} else {
						v = x.mergeVal(in[k].st.reach, w, v, phi.Name())
					}
				}
				fr.vals[phi] = v
			}
		}
		if cur.reach == False {
			continue
		}
		l := fr.loops[b]
		if l != nil && l != dry {
			cur = x.loopEnter(fr, l, cur)
		}
		if !x.execBlock(fr, b, cur, onRet) {
			continue
		}
		// successors
		last := b.Instrs[len(b.Instrs)-1]
		var outs []*State
		switch t := last.(type) {
		case *ssa.Jump:
			outs = []*State{cur}
		case *ssa.If:
			c := x.asTerm(x.value(fr, t.Cond), nil)
			a := cur.clone()
			a.reach = And(cur.reach, c)
			d := cur
			d.reach = And(cur.reach, Not(c))
			// separate nodes keep branch facts apart
			outs = []*State{a, d}
		default:
			continue
		}
		for i, s := range b.Succs {
			ns := outs[i]
			if ns.reach == False {
				continue
			}
			if sl := fr.loops[s]; sl != nil && s.Dominates(b) {
				if sl != dry {
					x.loopBack(fr, sl, ns)
				}
				continue
			}
			if region != nil && !region[s] {
				continue
			}
			ns.node = x.newNode(ns.node)
			pend[s] = append(pend[s], inEdge{b, ns})
		}
	}
}

func (x *Exec) havoc(st *State, fr *Frame, mods *Recorder) *State {
	h := st.clone()
	h.node = x.newNode(st.node)
	var keys []slotKey
	for k := range mods.slots {
		if _, ok := st.slots[k]; ok {
			keys = append(keys, k)
		}
	}
	sort.Slice(keys, func(i, j int) bool {
		if keys[i].fr != keys[j].fr {
			return keys[i].fr.id < keys[j].fr.id
		}
		return keys[i].v.Name() < keys[j].v.Name()
	})
	if mods.alloc {
		h.alloc = FreshT("alloc", "Int")
		x.assume(h, Le(st.alloc, h.alloc))
	}
	for _, k := range keys {
		old := st.slots[k]
		t, ok := old.(*Term)
		if !ok {
			if _, isP := old.(poison); isP {
				continue
			}
			if c, isC := old.(*Closure); isC {
				_ = c
				unsup("closure variable assigned in a loop")
			}
			unsup("loop modifies slot holding %T", old)
		}
		n := FreshT(slotName(k), t.sort)
		h.slots[k] = n
		if et := slotType(k); et != nil {
			x.assume(h, wf(n, et, h.alloc))
		}
	}
	var hs []string
	for n := range mods.heaps {
		hs = append(hs, n)
	}
	sort.Strings(hs)
	for _, n := range hs {
		r := mods.heaps[n]
		pre := st.Heap(n, r.sort)
		nh := FreshT("H_"+n, r.sort)
		x.setHeap(h, n, r.sort, nh)
		if x.quiet == 0 {
			x.heapWFst(h, n, nh)
			x.frameFacts(h, st, n, r, pre, nh, mods)
		}
	}
	// objects allocated by callees that havocked nothing have contents too
	if mods.alloc && x.quiet == 0 {
		for _, n := range sortedKeys(h.heaps) {
			if mods.heaps[n] == nil {
				x.heapWFst(h, n, h.heaps[n])
			}
		}
		for _, n := range sortedKeys(x.heapSorts) {
			if mods.heaps[n] == nil && h.heaps[n] == nil {
				x.heapWFst(h, n, h.Heap(n, x.heapSorts[n]))
			}
		}
		hs := map[string]bool{}
		for n := range mods.heaps {
			hs[n] = true
		}
		x.heads = append(x.heads, loopHead{h.alloc, h.node, hs})
	}
	return h
}

func (x *Exec) heapWFst(st *State, n string, t *Term) {
	x.heapWF(n, t, st.alloc, st.node)
}

func (x *Exec) frameFacts(h, st *State, n string, r *heapRec, pre, nh *Term, mods *Recorder) {
	// (a) function frame
	if n[0] == 'G' {
		return
	}
	e0 := x.entry.Heap(n, r.sort)
	if x.spec != nil && x.spec.Opts["noframe"] == "" {
		x.assume(h, x.frameFormula(n, e0, nh, x.entry.alloc, func(p *Term) *Term { return x.inMods(n, p) }, x.mods))
	}
	// (b) loop-precise frame
	if r.imp {
		return
	}
	memo := map[*Term]int{}
	for _, a := range r.addrs {
		if maxFresh(a, memo) > mods.start {
			return
		}
	}
	if n[0] == 'H' {
		p := BoundVar("p", SPtr)
		cs := []*Term{Lt(PO(p), st.alloc)}
		for _, a := range r.addrs {
			cs = append(cs, Not(Eq(p, a)))
		}
		x.assume(h, Forall([]*Term{p}, [][]*Term{{Select(nh, p)}}, Implies(And(cs...), Eq(Select(nh, p), Select(pre, p)))))
	} else {
		o := BoundVar("o", "Int")
		cs := []*Term{Lt(o, st.alloc)}
		for _, a := range r.addrs {
			cs = append(cs, Not(Eq(o, a)))
		}
		x.assume(h, Forall([]*Term{o}, [][]*Term{{Select(nh, o)}}, Implies(And(cs...), Eq(Select(nh, o), Select(pre, o)))))
	}
}

// frameFormula: everything allocated before and outside mods is unchanged.
func (x *Exec) frameFormula(n string, pre, post, alloc *Term, in func(p *Term) *Term, mods []ModSet) *Term {
	if pre == post {
		return True
	}
	switch n[0] {
	case 'H':
		p := BoundVar("p", SPtr)
		return Forall([]*Term{p}, [][]*Term{{Select(post, p)}}, Implies(And(Lt(PO(p), alloc), Not(in(p))), Eq(Select(post, p), Select(pre, p))))
	case 'E':
		// object granularity when no range/pred mods exist for this heap
		gran := true
		for _, m := range mods {
			if m.heap == n && m.kind != "obj" {
				gran = false
			}
		}
		if gran {
			o := BoundVar("o", "Int")
			return Forall([]*Term{o}, [][]*Term{{Select(post, o)}}, Implies(And(Lt(o, alloc), Not(in(MkPtr(o, IntLit(0))))), Eq(Select(post, o), Select(pre, o))))
		}
		o := BoundVar("o", "Int")
		i := BoundVar("i", "Int")
		var objs []*Term
		for _, m := range mods {
			if m.heap == n {
				if m.o != nil {
					objs = append(objs, Eq(o, m.o))
				} else if m.p != nil {
					objs = append(objs, Eq(o, PO(m.p)))
				} else {
					objs = append(objs, True)
				}
			}
		}
		f1 := Forall([]*Term{o, i}, [][]*Term{{Select(Select(post, o), i)}}, Implies(And(Lt(o, alloc), Not(in(MkPtr(o, i)))), Eq(Select(Select(post, o), i), Select(Select(pre, o), i))))
		f2 := Forall([]*Term{o}, [][]*Term{{Select(post, o)}}, Implies(And(Lt(o, alloc), Not(Or(objs...))), Eq(Select(post, o), Select(pre, o))))
		return And(f1, f2)
	case 'M':
		o := BoundVar("o", "Int")
		return Forall([]*Term{o}, [][]*Term{{Select(post, o)}}, Implies(And(Lt(o, alloc), Not(in(MkPtr(o, IntLit(0))))), Eq(Select(post, o), Select(pre, o))))
	}
	return True
}

func slotName(k slotKey) string {
	if a, ok := k.v.(*ssa.Alloc); ok && a.Comment != "" {
		return a.Comment
	}
	return k.v.Name()
}

func slotType(k slotKey) types.Type {
	if a, ok := k.v.(*ssa.Alloc); ok {
		return a.Type().Underlying().(*types.Pointer).Elem()
	}
	return nil
}

func newRecorder() *Recorder {
	return &Recorder{slots: map[slotKey]bool{}, heaps: map[string]*heapRec{}, news: map[*Term]bool{}, start: len(freshIDs)}
}

func (x *Exec) loopMods(fr *Frame, l *Loop, st *State) *Recorder {
	mods := newRecorder()
	for round := 0; ; round++ {
		if round > 10 {
			unsup("loop modification analysis does not converge")
		}
		x.quiet++
		// outer recorders keep recording: stores inside the loop belong to outer loops too
		h := x.havoc(st, fr, mods)
		rec := newRecorder()
		x.recs = append(x.recs, rec)
		nf := x.nframes
		x.headLets(fr, l, h)
		x.execRegion(fr, l.head, h, l.blocks, l, func(retRec) {})
		x.nframes = nf
		x.recs = x.recs[:len(x.recs)-1]
		x.quiet--
		grow := false
		for k := range rec.slots {
			if _, ok := st.slots[k]; ok && !mods.slots[k] {
				mods.slots[k] = true
				grow = true
			}
		}
		for n, r := range rec.heaps {
			if _, ok := mods.heaps[n]; !ok {
				grow = true
			}
			mods.heaps[n] = r // last round's addresses
		}
		if rec.alloc && !mods.alloc {
			mods.alloc = true
			grow = true
		}
		mods.start = rec.start
		// fresh symbols created by havoc precede rec.start; keep the earlier mark
		if !grow {
			mods.start = startOf(h, st)
			return mods
		}
	}
}

// startOf: symbols introduced by the havoc count as loop-varying.
func startOf(h, st *State) int {
	min := len(freshIDs)
	chk := func(t *Term) {
		if id := freshIDs[t]; id > 0 && id-1 < min {
			min = id - 1
		}
	}
	for k, v := range h.slots {
		if t, ok := v.(*Term); ok && st.slots[k] != v {
			chk(t)
		}
	}
	for k, v := range h.heaps {
		if st.heaps[k] != v {
			chk(v)
		}
	}
	if h.alloc != st.alloc {
		chk(h.alloc)
	}
	return min
}

func (x *Exec) loopLabel(l *Loop, c Clause, i int) string {
	if c.Label != "" {
		return fmt.Sprintf("loop%d/%s", l.ord, c.Label)
	}
	return fmt.Sprintf("loop%d/inv%d", l.ord, i)
}

func (x *Exec) autoInvs(fr *Frame, l *Loop, st *State) []*Term {
	var out []*Term
	for _, ins := range l.head.Instrs {
		// rangeindex pattern
		s, ok := ins.(*ssa.Store)
		if !ok {
			continue
		}
		a, ok := s.Addr.(*ssa.Alloc)
		if !ok || a.Comment != "rangeindex" {
			continue
		}
		ri, ok := st.slots[slotKey{fr, a}].(*Term)
		if !ok {
			continue
		}
		if f, ok := l.head.Instrs[len(l.head.Instrs)-1].(*ssa.If); ok {
			if c, ok := f.Cond.(*ssa.BinOp); ok && c.Op == token.LSS {
				n := x.asTerm(x.value(fr, c.Y), nil)
				out = append(out, Le(IntLit(-1), ri), Le(ri, Sub(n, IntLit(1))))
			}
		}
	}
	return out
}

func (x *Exec) headLets(fr *Frame, l *Loop, h *State) {
	if l.spec == nil {
		return
	}
	for _, c := range l.spec.Lets {
		l.lets[c.Label] = x.localEnv(fr, h, l).eval(c.E)
	}
}

func (x *Exec) loopEnter(fr *Frame, l *Loop, st *State) *State {
	var invs []Clause
	if l.spec != nil {
		invs = l.spec.Invs
	}
	l.lets = map[string]SVal{}
	if l.spec != nil {
		for _, c := range l.spec.Pre {
			l.lets[c.Label] = x.localEnv(fr, st, l).eval(c.E)
		}
	}
	auto := x.autoInvs(fr, l, st)
	for _, a := range auto {
		x.check(st, "auto-inv-entry", fmt.Sprintf("loop%d", l.ord), a, l.head.Instrs[0].Pos(), "range index bounds")
	}
	if x.quiet == 0 || true {
		env := x.localEnv(fr, st, l)
		for i, c := range invs {
			x.check(st, "inv-entry", x.loopLabel(l, c, i), env.boolE(c.E), x.loopPos(l), c.Src)
		}
	}
	mods := x.loopMods(fr, l, st)
	for _, r := range x.recs {
		if mods.alloc {
			r.alloc = true
		}
	}
	h := x.havoc(st, fr, mods)
	for _, a := range x.autoInvs(fr, l, h) {
		x.assume(h, a)
	}
	env := x.localEnv(fr, h, l)
	for _, c := range invs {
		x.assume(h, env.boolE(c.E))
	}
	x.headLets(fr, l, h)
	env = x.localEnv(fr, h, l)
	if l.spec != nil {
		l.decr0 = nil
		l.split0 = nil
		for _, c := range l.spec.Split {
			l.split0 = append(l.split0, env.eval(c.E).T)
		}
		for _, c := range l.spec.Decr {
			l.decr0 = append(l.decr0, env.eval(c.E).T)
		}
		for _, c := range l.spec.Apply {
			if c.Label == "head" {
				x.applyLemma(h, env, c)
			}
		}
	}
	l.headSt = h
	return h
}

func (x *Exec) loopPos(l *Loop) token.Pos {
	for _, i := range l.head.Instrs {
		if i.Pos().IsValid() {
			return i.Pos()
		}
	}
	for b := range l.blocks {
		for _, i := range b.Instrs {
			if i.Pos().IsValid() {
				return i.Pos()
			}
		}
	}
	return token.NoPos
}

func (x *Exec) loopBack(fr *Frame, l *Loop, st *State) {
	if x.quiet > 0 {
		return
	}
	st = st.clone()
	st.node = x.newNode(st.node)
	env := x.localEnv(fr, st, l)
	if l.spec != nil {
		for _, c := range l.spec.Apply {
			if c.Label != "head" {
				x.applyLemma(st, env, c)
			}
		}
	}
	for _, a := range x.autoInvs(fr, l, st) {
		x.check(st, "auto-inv-preserved", fmt.Sprintf("loop%d", l.ord), a, x.loopPos(l), "range index bounds")
	}
	if l.spec == nil {
		return
	}
	for i, c := range l.spec.Invs {
		g := env.boolE(c.E)
		if g.op != "forall" || g.qvars[0].sort != "Int" {
			x.check(st, "inv-preserved", x.loopLabel(l, c, i), g, x.loopPos(l), c.Src)
			continue
		}
		// below the first bound; between it and the next one; ...; above all of them
		past := True
		for n := 0; n <= len(l.split0); n++ {
			in, lab := past, x.loopLabel(l, c, i)
			if n < len(l.split0) {
				in = And(past, Lt(g.qvars[0], l.split0[n]))
				past = And(past, Le(l.split0[n], g.qvars[0]))
			}
			if len(l.split0) > 0 {
				lab += fmt.Sprintf("/%d", n)
			}
			x.check(st, "inv-preserved", lab, Forall(g.qvars, g.trigs, Implies(in, g.args[0])), x.loopPos(l), c.Src)
		}
	}
	if len(l.decr0) > 0 {
		var news []*Term
		for _, c := range l.spec.Decr {
			news = append(news, env.eval(c.E).T)
		}
		x.check(st, "decreases", fmt.Sprintf("loop%d", l.ord), lexLess(news, l.decr0), x.loopPos(l), "termination measure")
	}
}

func lexLess(n, o []*Term) *Term {
	res := False
	for i := len(n) - 1; i >= 0; i-- {
		res = Or(And(Le(IntLit(0), o[i]), Lt(n[i], o[i])), And(Eq(n[i], o[i]), res))
	}
	return res
}

// ---- environments ----

func (x *Exec) localEnv(fr *Frame, st *State, l *Loop) *Env {
	e := &Env{pkg: x.specPkg(), tyArgs: x.tyArgs, vars: map[string]SVal{}, st: st, old: x.entryEnv}
	for k, v := range x.entryEnv.vars {
		if strings.HasPrefix(k, "$") || x.isLet(k) {
			e.vars[k] = v
		}
	}
	if l != nil {
		// current range position of this and enclosing loops
		for b, ol := range fr.loops {
			if !ol.blocks[l.head] {
				continue
			}
			for k, v := range ol.lets {
				e.vars[k] = v
			}
			for _, ins := range b.Instrs {
				if s, ok := ins.(*ssa.Store); ok {
					if a, ok := s.Addr.(*ssa.Alloc); ok && a.Comment == "rangeindex" {
						if ri, ok := st.slots[slotKey{fr, a}].(*Term); ok {
							d := IntLit(1)
							if ol != l {
								d = IntLit(0) // inside the body of the outer loop
							}
							v := SVal{Add(ri, d), tInt()}
							if ol == l {
								e.vars["$i"] = v
							}
							e.vars[fmt.Sprintf("$i%d", ol.ord)] = v
						}
					}
				}
				if nx, ok := ins.(*ssa.Next); ok {
					if it, ok := fr.vals[nx.Iter].(*RangeIt); ok {
						if vs, ok := st.slots[it.slot].(*Term); ok {
							sv := SVal{vs, nil}
							if ol == l {
								e.vars["$visited"] = sv
							}
							e.vars[fmt.Sprintf("$visited%d", ol.ord)] = sv
						}
					}
				}
			}
		}
	}
	e.local = func(name string) (SVal, bool) { return x.lookupLocal(fr, st, name) }
	return e
}

func (x *Exec) isLet(k string) bool {
	if x.spec == nil {
		return false
	}
	for _, l := range x.spec.Lets {
		if l.Label == k {
			return true
		}
	}
	return false
}

func (x *Exec) specPkg() *types.Package {
	if x.spec != nil {
		return pkgOf(x.spec.Pkg)
	}
	if x.fn != nil && x.fn.Pkg != nil {
		return x.fn.Pkg.Pkg
	}
	return nil
}

// lookupLocal resolves a contract name to the current value of a local.
func (x *Exec) lookupLocal(fr *Frame, st *State, name string) (SVal, bool) {
	if a, ok := x.alias[name]; ok {
		name = a
	}
	// parameters of the function under contract, by contract name
	root := fr
	for root.parent != nil {
		root = root.parent
	}
	if x.spec != nil {
		for i, p := range x.spec.Params {
			if p == name && i < len(root.fn.Params) {
				if v, ok := x.paramSlot(root, st, i); ok {
					return v, true
				}
			}
		}
	}
	for f := fr; f != nil; f = f.parent {
		var best *slotKey
		for k := range st.slots {
			if k.fr != f {
				continue
			}
			a, ok := k.v.(*ssa.Alloc)
			if !ok || a.Comment == "" {
				continue
			}
			x.cands[a.Comment] = true
			if a.Comment != name {
				continue
			}
			if best == nil || a.Pos() > best.v.Pos() {
				kk := k
				best = &kk
			}
		}
		if best != nil {
			if t, ok := st.slots[*best].(*Term); ok {
				return SVal{t, slotType(*best)}, true
			}
			if ad, ok := st.slots[*best].(*Addr); ok {
				if ad.ptr != nil && len(ad.path) == 0 {
					return SVal{ad.ptr, slotType(*best)}, true
				}
			}
		}
		// captured variables
		for _, fv := range f.fn.FreeVars {
			if fv.Name() == name {
				if ad, ok := f.vals[fv].(*Addr); ok && ad.slot != nil {
					if t, ok := st.slots[*ad.slot].(*Term); ok {
						return SVal{t, fv.Type().Underlying().(*types.Pointer).Elem()}, true
					}
				}
			}
		}
		// heap-allocated (escaping) locals
		for v, val := range f.vals {
			if a, ok := v.(*ssa.Alloc); ok && a.Comment == name {
				if p, ok := val.(*Term); ok {
					et := a.Type().Underlying().(*types.Pointer).Elem()
					if _, isArr := et.Underlying().(*types.Array); isArr {
						continue
					}
					return SVal{loadValue(st, p, et), et}, true
				}
			}
		}
	}
	return SVal{}, false
}

func (x *Exec) paramSlot(root *Frame, st *State, i int) (SVal, bool) {
	p := root.fn.Params[i]
	for _, ref := range *p.Referrers() {
		if s, ok := ref.(*ssa.Store); ok && s.Val == p {
			if a, ok := s.Addr.(*ssa.Alloc); ok {
				if t, ok := st.slots[slotKey{root, a}].(*Term); ok {
					return SVal{t, p.Type()}, true
				}
			}
		}
	}
	if t, ok := root.vals[p].(*Term); ok {
		return SVal{t, p.Type()}, true
	}
	return SVal{}, false
}

// ---- instructions ----

func (x *Exec) value(fr *Frame, v ssa.Value) Val {
	switch y := v.(type) {
	case *ssa.Const:
		if y.Value == nil {
			return zeroOf(y.Type())
		}
		return constTerm(y.Value, y.Type())
	case *ssa.Function:
		return &FuncV{y}
	case *ssa.Global:
		return globalPtr(y.Object().(*types.Var))
	case *ssa.Builtin:
		return y
	}
	r, ok := fr.vals[v]
	if !ok {
		unsup("undefined value %s in %s", v.Name(), fr.fn)
	}
	if p, ok := r.(poison); ok {
		unsup("merged value %s", p.what)
	}
	return r
}

func (x *Exec) term(fr *Frame, v ssa.Value) *Term { return x.asTerm(x.value(fr, v), v.Type()) }

var localMemo = map[*ssa.Alloc]bool{}

// isLocalAlloc: every use is a direct load/store/field access/closure capture.
func isLocalAlloc(a *ssa.Alloc) bool {
	if r, ok := localMemo[a]; ok {
		return r
	}
	el := a.Type().Underlying().(*types.Pointer).Elem()
	if _, ok := el.Underlying().(*types.Array); ok {
		localMemo[a] = false
		return false
	}
	r := addrLocal(a, 0)
	localMemo[a] = r
	return r
}

func addrLocal(v ssa.Value, d int) bool {
	if d > 6 {
		return false
	}
	for _, ref := range *v.Referrers() {
		switch y := ref.(type) {
		case *ssa.Store:
			if y.Val == v {
				return false
			}
		case *ssa.UnOp:
			if y.Op != token.MUL {
				return false
			}
		case *ssa.FieldAddr:
			if opaqueStruct(v.Type().Underlying().(*types.Pointer).Elem()) {
				return false
			}
			if !addrLocal(y, d+1) {
				return false
			}
		case *ssa.DebugRef:
		case *ssa.MakeClosure:
			// captured by reference: fine if the closure is only called or
			// deferred here; conservative acceptance, closures that escape
			// are rejected when used as values
			fn := y.Fn.(*ssa.Function)
			for i, b := range y.Bindings {
				if b == v {
					if !addrLocal(fn.FreeVars[i], d+1) {
						return false
					}
				}
			}
		case *ssa.Call:
			return false
		default:
			return false
		}
	}
	return true
}

// execBlock runs the straight-line part; false when control does not fall out.
func (x *Exec) execBlock(fr *Frame, b *ssa.BasicBlock, st *State, onRet func(retRec)) bool {
	for _, ins := range b.Instrs {
		switch y := ins.(type) {
		case *ssa.Phi, *ssa.DebugRef, *ssa.Jump, *ssa.If:
		case *ssa.Return:
			var vs []Val
			for _, r := range y.Results {
				vs = append(vs, x.value(fr, r))
			}
			onRet(retRec{st, vs, y.Pos()})
			return false
		case *ssa.Panic:
			x.safety(st, "panic-unreachable", False, y.Pos())
			return false
		case *ssa.Store:
			el := y.Addr.Type().Underlying().(*types.Pointer).Elem()
			v := x.value(fr, y.Val)
			x.store(st, x.value(fr, y.Addr), el, v, y.Pos())
		case *ssa.RunDefers:
			for i := len(fr.defers) - 1; i >= 0; i-- {
				d := fr.defers[i]
				if d.Block().Dominates(b) {
					x.call(fr, st, d, &d.Call)
				} else {
					unsup("conditional defer")
				}
			}
		case *ssa.Defer:
			if x.quiet == 0 || !hasDefer(fr, y) {
				if !hasDefer(fr, y) {
					fr.defers = append(fr.defers, y)
				}
			}
		case *ssa.MapUpdate:
			x.mapUpdate(fr, st, y)
		case *ssa.Go, *ssa.Send, *ssa.Select:
			unsup("concurrency instruction")
		case ssa.Value:
			if c, ok := y.(*ssa.Call); ok {
				r := x.call(fr, st, c, &c.Call)
				fr.vals[y] = r
				continue
			}
			fr.vals[y] = x.instr(fr, st, y)
		default:
			unsup("instruction %T", ins)
		}
	}
	return true
}

func hasDefer(fr *Frame, d *ssa.Defer) bool {
	for _, e := range fr.defers {
		if e == d {
			return true
		}
	}
	return false
}

func (x *Exec) instr(fr *Frame, st *State, v ssa.Value) Val {
	switch y := v.(type) {
	case *ssa.Alloc:
		el := y.Type().Underlying().(*types.Pointer).Elem()
		if el.String() == "$ssa.deferStack" || strings.Contains(el.String(), "deferStack") {
			k := slotKey{fr, y}
			st.slots[k] = IntLit(0)
			return &Addr{slot: &k, rootT: el, elT: el}
		}
		if isLocalAlloc(y) {
			k := slotKey{fr, y}
			x.recSlot(k)
			st.slots[k] = zeroOf(el)
			return &Addr{slot: &k, rootT: el, elT: el}
		}
		o := x.newObjAny(st)
		k := IntLit(0)
		if _, is := types.Unalias(el).(*types.Named); is {
			k = tagOf(el)
		}
		x.assume(st, Eq(kindOf(o), k))
		p := MkPtr(o, IntLit(0))
		if a, ok := el.Underlying().(*types.Array); ok {
			h, s := elemHeap(a.Elem())
			regHeap(h, a.Elem())
			if isExploded(a.Elem()) {
				x.zeroRange(st, o, a.Elem())
			} else {
				x.assume(st, Eq(Select(st.Heap(h, s), o), ConstArr(arrElem(s), zeroOf(a.Elem()))))
			}
			return p
		}
		x.zeroInit(st, p, el)
		return p
	case *ssa.UnOp:
		switch y.Op {
		case token.MUL:
			return x.load(st, x.value(fr, y.X), y.Type(), y.Pos())
		case token.NOT:
			return Not(x.term(fr, y.X))
		case token.SUB:
			return x.arith(st, token.SUB, IntLit(0), x.term(fr, y.X), y.Type(), y.Pos())
		case token.XOR:
			return x.bitNot(x.term(fr, y.X), y.Type())
		}
		unsup("unop %s", y.Op)
	case *ssa.BinOp:
		return x.binop(fr, st, y)
	case *ssa.FieldAddr:
		base := x.value(fr, y.X)
		sT := y.X.Type().Underlying().(*types.Pointer).Elem()
		ft := fieldType(sT, y.Field)
		if p, ok := base.(*Term); ok {
			x.nonNil(st, p, y.Pos())
			if isSub(sT, y.Field) {
				return SubPtr(p, sT, y.Field)
			}
			return &Addr{ptr: p, rootT: sT, path: []int{y.Field}, elT: ft}
		}
		a, ok := base.(*Addr)
		if !ok {
			unsup("field of %T", base)
		}
		n := *a
		n.path = append(append([]int{}, a.path...), y.Field)
		n.elT = ft
		return &n
	case *ssa.Field:
		return Acc(sortOf(y.X.Type()), y.Field, x.term(fr, y.X))
	case *ssa.IndexAddr:
		i := x.term(fr, y.Index)
		switch u := y.X.Type().Underlying().(type) {
		case *types.Slice:
			s := x.term(fr, y.X)
			x.safety(st, "index", And(Le(IntLit(0), i), Lt(i, SL(s))), y.Pos())
			return MkPtr(SO(s), Ix(SF(s), i))
		case *types.Pointer:
			a := u.Elem().Underlying().(*types.Array)
			p := x.term(fr, y.X)
			x.safety(st, "index", And(Le(IntLit(0), i), Lt(i, IntLit(a.Len()))), y.Pos())
			return MkPtr(PO(p), i)
		}
	case *ssa.Index:
		i := x.term(fr, y.Index)
		b := x.term(fr, y.X)
		if b.sort == SStr {
			x.safety(st, "index", And(Le(IntLit(0), i), Lt(i, SLen(b))), y.Pos())
			r := SAt(b, i)
			x.assume(st, And(Le(IntLit(0), r), Le(r, IntLit(255))))
			return r
		}
		if a, ok := y.X.Type().Underlying().(*types.Array); ok {
			x.safety(st, "index", And(Le(IntLit(0), i), Lt(i, IntLit(a.Len()))), y.Pos())
			return Select(b, i)
		}
	case *ssa.Lookup:
		return x.lookup(fr, st, y)
	case *ssa.Slice:
		return x.slice(fr, st, y)
	case *ssa.MakeSlice:
		n, c := x.term(fr, y.Len), x.term(fr, y.Cap)
		x.safety(st, "makeslice", And(Le(IntLit(0), n), Le(n, c)), y.Pos())
		// resource assumption: make panics rather than return more than maxLen elements
		lim := maxLen()
		if m := x.spec.Opts["makelimit"]; m != "" {
			lim = litVal(m)
			x.trustedUsed["resource: make() in "+x.fname+" returns at most "+m+" elements"] = true
		}
		x.assume(st, Le(c, lim))
		o := x.newObj(st)
		el := y.Type().Underlying().(*types.Slice).Elem()
		h, s := elemHeap(el)
		if isExploded(el) {
			x.zeroRange(st, o, el)
		} else {
			regHeap(h, el)
			x.assume(st, Eq(Select(st.Heap(h, s), o), ConstArr(arrElem(s), zeroOf(el))))
		}
		return MkSlice(o, IntLit(0), n, c)
	case *ssa.MakeMap:
		o := x.newObj(st)
		m := y.Type().Underlying().(*types.Map)
		md, mv, ml, ds, vs, ls := mapHeaps(m)
		x.assume(st, Eq(Select(st.Heap(md, ds), o), ConstArr(arrElem(ds), False)))
		x.assume(st, Eq(Select(st.Heap(mv, vs), o), ConstArr(arrElem(vs), zeroOf(m.Elem()))))
		x.assume(st, Eq(Select(st.Heap(ml, ls), o), IntLit(0)))
		return o
	case *ssa.MakeInterface:
		t := y.X.Type()
		return toIface(x.term(fr, y.X), t)
	case *ssa.ChangeInterface:
		return x.value(fr, y.X)
	case *ssa.ChangeType:
		r := x.value(fr, y.X)
		if t, ok := r.(*Term); ok && t.sort != sortOf(y.Type()) {
			return x.recast(t, y.X.Type(), y.Type())
		}
		return r
	case *ssa.Convert:
		return x.convert(fr, st, y)
	case *ssa.TypeAssert:
		return x.typeAssert(fr, st, y)
	case *ssa.Extract:
		t := x.value(fr, y.Tuple)
		tu, ok := t.(Tuple)
		if !ok {
			unsup("extract from %T", t)
		}
		if p, ok := tu[y.Index].(poison); ok {
			unsup("merged value %s", p.what)
		}
		return tu[y.Index]
	case *ssa.MakeClosure:
		c := &Closure{fn: y.Fn.(*ssa.Function)}
		for _, b := range y.Bindings {
			c.bind = append(c.bind, x.value(fr, b))
		}
		return c
	case *ssa.Range:
		k := slotKey{fr, y}
		if m, ok := y.X.Type().Underlying().(*types.Map); ok {
			id := x.term(fr, y.X)
			md, _, _, ds, _, _ := mapHeaps(m)
			x.recSlot(k)
			st.slots[k] = ConstArr(ArrSort(sortOf(m.Key()), "Bool"), False)
			return &RangeIt{m: id, mt: m, dom: Select(st.Heap(md, ds), id), slot: k}
		}
		x.recSlot(k)
		st.slots[k] = IntLit(0)
		return &RangeIt{str: x.term(fr, y.X), slot: k}
	case *ssa.Next:
		return x.next(fr, st, y)
	}
	if strings.HasPrefix(fmt.Sprintf("%T", v), "*ssa.") {
		unsup("instruction %T: %s", v, v)
	}
	return nil
}

func (x *Exec) recast(t *Term, from, to types.Type) *Term {
	// struct types with identical fields
	fs, ok1 := structOf(from)
	_, ok2 := structOf(to)
	if ok1 && ok2 {
		var as []*Term
		for i := 0; i < fs.NumFields(); i++ {
			as = append(as, Acc(sortOf(from), i, t))
		}
		return Ctor(sortOf(to), as...)
	}
	unsup("change type %s -> %s", from, to)
	return nil
}

// zeroRange: all elements of a fresh object of an exploded struct type are zero.
func (x *Exec) zeroRange(st *State, o *Term, el types.Type) {
	u, _ := structOf(el)
	for i := 0; i < u.NumFields(); i++ {
		h, s := fieldHeap(el, i)
		regHeap(h, fieldType(el, i))
		p := BoundVar("p", SPtr)
		H := st.Heap(h, s)
		x.assume(st, Forall([]*Term{p}, [][]*Term{{Select(H, p)}}, Implies(Eq(PO(p), o), Eq(Select(H, p), zeroOf(fieldType(el, i))))))
	}
}

func (x *Exec) next(fr *Frame, st *State, y *ssa.Next) Val {
	it, ok := x.value(fr, y.Iter).(*RangeIt)
	if !ok {
		unsup("next on unknown iterator")
	}
	okv := FreshT("next_ok", "Bool")
	if it.str != nil {
		// string range
		idx := st.slots[it.slot].(*Term)
		DeclFun("rune_at", []string{SStr, "Int"}, "Int")
		DeclFun("rune_len", []string{SStr, "Int"}, "Int")
		ok := Lt(idx, SLen(it.str))
		r := App("rune_at", "Int", it.str, idx)
		w := App("rune_len", "Int", it.str, idx)
		x.assume(st, Implies(ok, And(Le(IntLit(1), w), Le(w, IntLit(4)), Le(Add(idx, w), SLen(it.str)), Le(IntLit(0), r), Le(r, IntLit(0x10FFFF)))))
		x.recSlot(it.slot)
		st.slots[it.slot] = Ite(ok, Add(idx, w), idx)
		return Tuple{ok, idx, r}
	}
	m := it.mt
	md, mv, _, ds, vs, _ := mapHeaps(m)
	vis := st.slots[it.slot].(*Term)
	k := FreshT("key", sortOf(m.Key()))
	x.assume(st, wf(k, m.Key(), st.alloc))
	dom := Select(st.Heap(md, ds), it.m)
	val := Select(Select(st.Heap(mv, vs), it.m), k)
	x.assume(st, Implies(okv, And(Select(dom, k), Not(Select(vis, k)))))
	q := BoundVar("k", sortOf(m.Key()))
	x.assume(st, Implies(Not(okv), Forall([]*Term{q}, [][]*Term{{Select(dom, q)}}, Implies(Select(dom, q), Select(vis, q)))))
	x.assume(st, wf(val, m.Elem(), st.alloc))
	x.recSlot(it.slot)
	st.slots[it.slot] = Ite(okv, Store(vis, k, True), vis)
	return Tuple{okv, k, val}
}

func (x *Exec) lookup(fr *Frame, st *State, y *ssa.Lookup) Val {
	if b, ok := y.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		s := x.term(fr, y.X)
		i := x.term(fr, y.Index)
		x.safety(st, "index", And(Le(IntLit(0), i), Lt(i, SLen(s))), y.Pos())
		r := SAt(s, i)
		x.assume(st, And(Le(IntLit(0), r), Le(r, IntLit(255))))
		return r
	}
	m := y.X.Type().Underlying().(*types.Map)
	id := x.term(fr, y.X)
	k := x.term(fr, y.Index)
	if k.sort != sortOf(m.Key()) {
		k = toIface(k, y.Index.Type())
	}
	md, mv, _, ds, vs, _ := mapHeaps(m)
	regMap(m)
	has := And(Not(Eq(id, IntLit(0))), Select(Select(st.Heap(md, ds), id), k))
	raw := Select(Select(st.Heap(mv, vs), id), k)
	x.assume(st, Implies(has, wf(raw, m.Elem(), st.alloc)))
	v := Ite(has, raw, zeroOf(m.Elem()))
	if y.CommaOk {
		return Tuple{v, has}
	}
	return v
}

func regMap(m *types.Map) {}

func (x *Exec) mapUpdate(fr *Frame, st *State, y *ssa.MapUpdate) {
	m := y.Map.Type().Underlying().(*types.Map)
	id := x.term(fr, y.Map)
	k := x.term(fr, y.Key)
	v := x.term(fr, y.Value)
	x.safety(st, "nil-map", Not(Eq(id, IntLit(0))), y.Pos())
	md, mv, ml, ds, vs, ls := mapHeaps(m)
	x.frameCheck(st, md, MkPtr(id, IntLit(0)), y.Pos())
	D, V, L := st.Heap(md, ds), st.Heap(mv, vs), st.Heap(ml, ls)
	x.record(md, ds, id, false)
	x.record(mv, vs, id, false)
	x.record(ml, ls, id, false)
	had := Select(Select(D, id), k)
	x.setHeap(st, ml, ls, Store(L, id, Ite(had, Select(L, id), Add(Select(L, id), IntLit(1)))))
	x.setHeap(st, md, ds, Store(D, id, Store(Select(D, id), k, True)))
	x.setHeap(st, mv, vs, Store(V, id, Store(Select(V, id), k, v)))
}

func (x *Exec) slice(fr *Frame, st *State, y *ssa.Slice) Val {
	var lo, hi, mx *Term
	if y.Low != nil {
		lo = x.term(fr, y.Low)
	} else {
		lo = IntLit(0)
	}
	if y.High != nil {
		hi = x.term(fr, y.High)
	}
	if y.Max != nil {
		mx = x.term(fr, y.Max)
	}
	switch u := y.X.Type().Underlying().(type) {
	case *types.Basic:
		s := x.term(fr, y.X)
		if hi == nil {
			hi = SLen(s)
		}
		x.safety(st, "slice-bounds", And(Le(IntLit(0), lo), Le(lo, hi), Le(hi, SLen(s))), y.Pos())
		return SSub(s, lo, hi)
	case *types.Slice:
		s := x.term(fr, y.X)
		if hi == nil {
			hi = SL(s)
		}
		c := SC(s)
		if mx != nil {
			x.safety(st, "slice-bounds", And(Le(hi, mx), Le(mx, SC(s))), y.Pos())
			c = mx
		}
		x.safety(st, "slice-bounds", And(Le(IntLit(0), lo), Le(lo, hi), Le(hi, c)), y.Pos())
		return MkSlice(SO(s), Ix(SF(s), lo), Sub(hi, lo), Sub(c, lo))
	case *types.Pointer:
		a := u.Elem().Underlying().(*types.Array)
		p := x.term(fr, y.X)
		n := IntLit(a.Len())
		if hi == nil {
			hi = n
		}
		x.safety(st, "slice-bounds", And(Le(IntLit(0), lo), Le(lo, hi), Le(hi, n)), y.Pos())
		return MkSlice(PO(p), lo, Sub(hi, lo), Sub(n, lo))
	}
	unsup("slice of %s", y.X.Type())
	return nil
}

func (x *Exec) bitNot(a *Term, t types.Type) *Term {
	b := t.Underlying().(*types.Basic)
	if b.Info()&types.IsUnsigned != 0 {
		_, hi, _ := intRange(b)
		return Sub(BigLit(hi), a)
	}
	return Sub(IntLit(-1), a)
}

func (x *Exec) arith(st *State, op token.Token, a, b *Term, t types.Type, pos token.Pos) *Term {
	bt := t.Underlying().(*types.Basic)
	var r *Term
	switch op {
	case token.ADD:
		r = Add(a, b)
	case token.SUB:
		r = Sub(a, b)
	case token.MUL:
		r = Mul(a, b)
	}
	lo, hi, ok := intRange(bt)
	if !ok {
		return r
	}
	if bt.Info()&types.IsUnsigned != 0 {
		if r == a || r == b {
			return r
		}
		if bvMode {
			unsup("unsigned arithmetic in bv mode")
		}
		return Mod(r, BigLit(new(big.Int).Add(hi, big.NewInt(1))))
	}
	if x.spec != nil && x.spec.MathInt {
		return r
	}
	if _, isLit := r.lit(); !isLit && r != a && r != b {
		x.safety(st, "overflow", And(Le(BigLit(lo), r), Le(r, BigLit(hi))), pos)
	}
	return r
}

func (x *Exec) binop(fr *Frame, st *State, y *ssa.BinOp) Val {
	av, bv := x.value(fr, y.X), x.value(fr, y.Y)
	if y.Op == token.EQL || y.Op == token.NEQ {
		var r *Term
		_, fa := av.(*Addr)
		_, fb := bv.(*Addr)
		if fa || fb {
			// address of a local is never nil
			if isNilConst(y.X) || isNilConst(y.Y) {
				r = False
			} else {
				unsup("comparison of local addresses")
			}
		} else if isFuncVal(av) || isFuncVal(bv) {
			r = False // compared with nil
			if !(isNilConst(y.X) || isNilConst(y.Y)) {
				unsup("function comparison")
			}
		} else {
			a, b := av.(*Term), bv.(*Term)
			if a.sort == SSlice {
				// comparison with nil
				if isNilConst(y.Y) {
					r = Eq(SO(a), IntLit(0))
				} else {
					r = Eq(SO(b), IntLit(0))
				}
			} else {
				if a.sort == SIface && b.sort != SIface {
					b = toIface(b, y.Y.Type())
				} else if b.sort == SIface && a.sort != SIface {
					a = toIface(a, y.X.Type())
				}
				r = Eq(a, b)
			}
		}
		if y.Op == token.NEQ {
			r = Not(r)
		}
		return r
	}
	a, b := x.asTerm(av, nil), x.asTerm(bv, nil)
	if a.sort == SStr {
		switch y.Op {
		case token.ADD:
			r := SCat(a, b)
			x.assume(st, And(Le(IntLit(0), SLen(r)), Le(SLen(r), maxLen())))
			return r
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			DeclFun("slt", []string{SStr, SStr}, "Bool")
			switch y.Op {
			case token.LSS:
				return App("slt", "Bool", a, b)
			case token.GTR:
				return App("slt", "Bool", b, a)
			case token.LEQ:
				return Not(App("slt", "Bool", b, a))
			default:
				return Not(App("slt", "Bool", a, b))
			}
		}
	}
	if a.sort == "Float" {
		unsup("floating point")
	}
	switch y.Op {
	case token.ADD, token.SUB, token.MUL:
		return x.arith(st, y.Op, a, b, y.Type(), y.Pos())
	case token.QUO, token.REM:
		x.safety(st, "div-zero", Not(Eq(b, IntLit(0))), y.Pos())
		if n, ok := b.lit(); ok && n.Sign() > 0 && !bvMode {
			q := Ite(Le(IntLit(0), a), Div(a, b), Sub(IntLit(0), Div(Sub(IntLit(0), a), b)))
			if bt := y.Type().Underlying().(*types.Basic); bt.Info()&types.IsUnsigned != 0 {
				q = Div(a, b)
			}
			if y.Op == token.QUO {
				return q
			}
			return Sub(a, Mul(q, b))
		}
		unsup("division by non-constant")
	case token.LSS:
		return Lt(a, b)
	case token.LEQ:
		return Le(a, b)
	case token.GTR:
		return Lt(b, a)
	case token.GEQ:
		return Le(b, a)
	case token.AND:
		if a.sort == "Bool" {
			return And(a, b)
		}
		return bitop("band", a, b)
	case token.OR:
		if a.sort == "Bool" {
			return Or(a, b)
		}
		return bitop("bor", a, b)
	case token.XOR:
		return bitop("bxor", a, b)
	case token.AND_NOT:
		return Sub(a, bitop("band", a, b))
	case token.SHR:
		bt := y.Y.Type().Underlying().(*types.Basic)
		if bt.Info()&types.IsUnsigned == 0 {
			x.safety(st, "shift-count", Le(IntLit(0), b), y.Pos())
		}
		return bitop("shr", a, b)
	case token.SHL:
		bt := y.Y.Type().Underlying().(*types.Basic)
		if bt.Info()&types.IsUnsigned == 0 {
			x.safety(st, "shift-count", Le(IntLit(0), b), y.Pos())
		}
		r := bitop("shl", a, b)
		rt := y.Type().Underlying().(*types.Basic)
		lo, hi, _ := intRange(rt)
		if rt.Info()&types.IsUnsigned != 0 {
			m := Mod(r, BigLit(new(big.Int).Add(hi, big.NewInt(1))))
			if one, ok := a.lit(); ok && one.Cmp(big.NewInt(1)) == 0 {
				if _, ok := b.lit(); !ok && !bvMode {
					// 1<<b is below 2^bits exactly when b < bits; a larger b shifts the bit out
					in := And(Le(IntLit(0), b), Lt(b, IntLit(int64(hi.BitLen()))))
					x.assume(st, Implies(in, And(Le(IntLit(1), r), Le(r, BigLit(hi)), Eq(m, r))))
					x.assume(st, Implies(Le(IntLit(int64(hi.BitLen())), b), Eq(m, IntLit(0))))
				}
			}
			return m
		}
		if !(x.spec != nil && x.spec.MathInt) {
			x.safety(st, "overflow", And(Le(BigLit(lo), r), Le(r, BigLit(hi))), y.Pos())
		}
		return r
	}
	unsup("binop %s", y.Op)
	return nil
}

func isFuncVal(v Val) bool {
	switch v.(type) {
	case *FuncV, *Closure:
		return true
	}
	return false
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

func (x *Exec) convert(fr *Frame, st *State, y *ssa.Convert) Val {
	a := x.term(fr, y.X)
	from, to := y.X.Type().Underlying(), y.Type().Underlying()
	fb, ok1 := from.(*types.Basic)
	tb, ok2 := to.(*types.Basic)
	if ok1 && ok2 && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0 {
		flo, fhi, okf := intRange(fb)
		tlo, thi, _ := intRange(tb)
		if !okf || flo.Cmp(tlo) >= 0 && fhi.Cmp(thi) <= 0 {
			return a
		}
		if bvMode {
			unsup("narrowing conversion in bv mode")
		}
		m := new(big.Int).Sub(thi, tlo)
		m.Add(m, big.NewInt(1))
		in := And(Le(BigLit(tlo), a), Le(a, BigLit(thi)))
		return Ite(in, a, Add(Mod(Sub(a, BigLit(tlo)), BigLit(m)), BigLit(tlo)))
	}
	if ok2 && tb.Info()&types.IsString != 0 {
		if s, ok := from.(*types.Slice); ok {
			if eb, ok := s.Elem().Underlying().(*types.Basic); ok && eb.Kind() == types.Uint8 {
				h, srt := elemHeap(s.Elem())
				regHeap(h, s.Elem())
				r := MkStr(Select(st.Heap(h, srt), SO(a)), SF(a), SL(a))
				x.assume(st, Eq(SLen(r), SL(a)))
				return r
			}
			DeclFun("runes_str", []string{SSlice}, SStr)
			r := FreshT("str", SStr)
			x.assume(st, wf(r, types.Typ[types.String], st.alloc))
			return r
		}
		if ok1 && fb.Info()&types.IsInteger != 0 {
			DeclFun("rune_str", []string{"Int"}, SStr)
			r := App("rune_str", SStr, a)
			x.assume(st, And(Le(IntLit(1), SLen(r)), Le(SLen(r), IntLit(4))))
			return r
		}
		if ok1 && fb.Info()&types.IsString != 0 {
			return a
		}
	}
	if s, ok := to.(*types.Slice); ok && ok1 && fb.Info()&types.IsString != 0 {
		if eb, ok := s.Elem().Underlying().(*types.Basic); ok && eb.Kind() == types.Uint8 {
			o := x.newObj(st)
			h, srt := elemHeap(s.Elem())
			regHeap(h, s.Elem())
			A := Select(st.Heap(h, srt), o)
			i := BoundVar("i", "Int")
			x.assume(st, Forall([]*Term{i}, [][]*Term{{Select(A, i)}}, Implies(And(Le(IntLit(0), i), Lt(i, SLen(a))), Eq(Select(A, i), SAt(a, i)))))
			x.assume(st, Eq(MkStr(A, IntLit(0), SLen(a)), a))
			return MkSlice(o, IntLit(0), SLen(a), SLen(a))
		}
	}
	if ok1 && ok2 && tb.Info()&types.IsFloat != 0 {
		return FreshT("float", "Float")
	}
	unsup("conversion %s -> %s", y.X.Type(), y.Type())
	return nil
}

func (x *Exec) typeAssert(fr *Frame, st *State, y *ssa.TypeAssert) Val {
	a := x.term(fr, y.X)
	if it, ok := y.AssertedType.Underlying().(*types.Interface); ok {
		// dynamic type implements it: known tags resolved, others uninterpreted
		f := "impl_" + qualType(y.AssertedType)
		DeclFun(f, []string{"Int"}, "Bool")
		okT := And(Not(Eq(IT(a), IntLit(0))), App(f, "Bool", IT(a)))
		// the types of this package: known to implement it or not
		if p := fnPkg(x.fn); p != nil {
			for _, n := range p.Scope().Names() {
				tn, ok := p.Scope().Lookup(n).(*types.TypeName)
				if !ok || tn.IsAlias() || types.IsInterface(tn.Type()) {
					continue
				}
				if nt, ok := tn.Type().(*types.Named); ok && nt.TypeParams().Len() == 0 {
					for _, ct := range []types.Type{nt, types.NewPointer(nt)} {
						im := App(f, "Bool", tagOf(ct))
						if !types.Implements(ct, it) {
							im = Not(im)
						}
						x.assume(st, im)
					}
				}
			}
		}
		if y.CommaOk {
			return Tuple{Ite(okT, a, NilIface()), okT}
		}
		x.safety(st, "type-assert", okT, y.Pos())
		return a
	}
	okT := Eq(IT(a), tagOf(y.AssertedType))
	v := fromIface(a, y.AssertedType)
	x.assume(st, Implies(okT, And(wf(v, y.AssertedType, st.alloc), Eq(a, toIface(v, y.AssertedType)))))
	if y.CommaOk {
		return Tuple{Ite(okT, v, zeroOf(y.AssertedType)), okT}
	}
	x.safety(st, "type-assert", okT, y.Pos())
	return v
}

var _ = constant.MakeInt64

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func sortedSlots(m map[slotKey]Val) []slotKey {
	ks := make([]slotKey, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool {
		if ks[i].fr != ks[j].fr {
			return ks[i].fr.id < ks[j].fr.id
		}
		return ks[i].v.Name() < ks[j].v.Name()
	})
	return ks
}
