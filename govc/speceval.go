package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"sort"
	"strings"
)

type SVal struct {
	T  *Term
	Ty types.Type
}

type HeapView interface {
	Heap(name, srt string) *Term
	Alloc() *Term
}

type Env struct {
	pkg    *types.Package
	tyArgs map[string]types.Type
	vars   map[string]SVal
	st     HeapView
	old    *Env
	local  func(name string) (SVal, bool)
	rec    string // spec function being defined (recursive calls use the unfolded twin)
	inDef  map[string]bool
}

type UnresolvedErr struct {
	Name string
	Pos  string
}

type SpecErr struct{ Msg string }

func specFail(e *Expr, f string, a ...interface{}) {
	panic(SpecErr{e.Pos + ": " + fmt.Sprintf(f, a...) + " in " + e.String()})
}

func (v *Env) child() *Env {
	n := *v
	n.vars = map[string]SVal{}
	for k, x := range v.vars {
		n.vars[k] = x
	}
	return &n
}

func tInt() types.Type  { return types.Typ[types.Int] }
func tBool() types.Type { return types.Typ[types.Bool] }
func tStr() types.Type  { return types.Typ[types.String] }

func findPkg(name string, from *types.Package) *types.Package {
	if from != nil {
		for _, p := range from.Imports() {
			if p.Name() == name {
				return p
			}
		}
	}
	var best *types.Package
	for path, p := range W.pkgs {
		if p.Pkg.Name() == name {
			if inModule(p.Pkg) {
				return p.Pkg
			}
			if best == nil || len(path) < len(best.Path()) {
				best = p.Pkg
			}
		}
	}
	return best
}

func (v *Env) typ(s string) types.Type {
	s = strings.TrimSpace(s)
	switch {
	case strings.HasPrefix(s, "*"):
		return types.NewPointer(v.typ(s[1:]))
	case strings.HasPrefix(s, "[]"):
		return types.NewSlice(v.typ(s[2:]))
	case strings.HasPrefix(s, "[0]"):
		return types.NewArray(v.typ(s[3:]), 0)
	case strings.HasPrefix(s, "map["):
		d := 0
		for i := 3; i < len(s); i++ {
			if s[i] == '[' {
				d++
			} else if s[i] == ']' {
				d--
				if d == 0 {
					return types.NewMap(v.typ(s[4:i]), v.typ(s[i+1:]))
				}
			}
		}
	}
	if i := strings.IndexByte(s, '['); i > 0 {
		base := v.typ(s[:i])
		args := s[i+1 : len(s)-1]
		n := base.(*types.Named)
		var ta []types.Type
		for _, a := range strings.Split(args, ",") {
			ta = append(ta, v.typ(a))
		}
		// instantiating with own type parameters yields the origin itself
		same := true
		for j := 0; j < n.TypeParams().Len(); j++ {
			if !types.Identical(n.TypeParams().At(j), ta[j]) {
				same = false
			}
		}
		_ = same
		t, err := types.Instantiate(nil, n.Origin(), ta, false)
		if err != nil {
			panic(SpecErr{"instantiate " + s + ": " + err.Error()})
		}
		return t
	}
	if t, ok := v.tyArgs[s]; ok {
		return t
	}
	if i := strings.IndexByte(s, '.'); i > 0 {
		p := findPkg(s[:i], v.pkg)
		if p == nil {
			panic(SpecErr{"unknown package in type " + s})
		}
		o := p.Scope().Lookup(s[i+1:])
		if o == nil {
			panic(SpecErr{"unknown type " + s})
		}
		return o.Type()
	}
	if v.pkg != nil {
		if o, ok := v.pkg.Scope().Lookup(s).(*types.TypeName); ok {
			return o.Type()
		}
	}
	if o, ok := types.Universe.Lookup(s).(*types.TypeName); ok {
		return o.Type()
	}
	panic(SpecErr{"unknown type " + s})
}

func litVal(s string) *Term {
	n, ok := new(big.Int).SetString(s, 0)
	if !ok {
		panic("bad int " + s)
	}
	return BigLit(n)
}

// deref loads the struct-valued pointee's field.
func loadFieldVia(st HeapView, p *Term, structT types.Type, i int) *Term {
	if isSub(structT, i) {
		return loadValue(st, SubPtr(p, structT, i), fieldType(structT, i))
	}
	if isExploded(structT) {
		h, s := fieldHeap(structT, i)
		return Select(st.Heap(h, s), p)
	}
	h, s := elemHeap(structT)
	return Acc(sortOf(structT), i, Select(Select(st.Heap(h, s), PO(p)), PI(p)))
}

func loadValue(st HeapView, p *Term, t types.Type) *Term {
	if isExploded(t) {
		u, _ := structOf(t)
		var as []*Term
		for i := 0; i < u.NumFields(); i++ {
			as = append(as, loadFieldVia(st, p, t, i))
		}
		return Ctor(sortOf(t), as...)
	}
	h, s := elemHeap(t)
	return Select(Select(st.Heap(h, s), PO(p)), PI(p))
}

func (v *Env) boolE(e *Expr) *Term {
	r := v.eval(e)
	if r.T.sort != "Bool" {
		specFail(e, "boolean expected, got %s", r.T.sort)
	}
	return r.T
}

func ptrElem(t types.Type) (types.Type, bool) {
	if t == nil {
		return nil, false
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem(), true
	}
	return nil, false
}

func findField(t types.Type, name string) (path []int, ft types.Type, ok bool) {
	u, isS := structOf(t)
	if !isS {
		return nil, nil, false
	}
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == name {
			return []int{i}, u.Field(i).Type(), true
		}
	}
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Embedded() {
			if _, isStruct := structOf(u.Field(i).Type()); isStruct {
				if p, ft, ok := findField(u.Field(i).Type(), name); ok {
					return append([]int{i}, p...), ft, true
				}
			}
		}
	}
	return nil, nil, false
}

func (v *Env) field(x SVal, name string, e *Expr) SVal {
	if el, ok := ptrElem(x.Ty); ok {
		path, ft, ok := findField(el, name)
		if !ok {
			specFail(e, "no field %s in %s", name, el)
		}
		if isSub(el, path[0]) && len(path) == 1 {
			return SVal{SubPtr(x.T, el, path[0]), types.NewPointer(ft)}
		}
		t := loadFieldVia(v.st, x.T, el, path[0])
		cur := fieldType(el, path[0])
		for _, i := range path[1:] {
			t = Acc(sortOf(cur), i, t)
			cur = fieldType(cur, i)
		}
		return SVal{t, ft}
	}
	path, ft, ok := findField(x.Ty, name)
	if !ok {
		specFail(e, "no field %s in %s", name, x.Ty)
	}
	t := x.T
	cur := x.Ty
	for _, i := range path {
		t = Acc(sortOf(cur), i, t)
		cur = fieldType(cur, i)
	}
	return SVal{t, ft}
}

func fieldType(t types.Type, i int) types.Type {
	u, _ := structOf(t)
	return u.Field(i).Type()
}

func (v *Env) ident(e *Expr) SVal {
	n := e.Name
	if x, ok := v.vars[n]; ok {
		return x
	}
	if v.local != nil {
		if x, ok := v.local(n); ok {
			return x
		}
	}
	if g := ghosts[n]; g != nil {
		return SVal{loadValue(v.st, globalPtr(g), g.Type()), g.Type()}
	}
	switch n {
	case "true":
		return SVal{True, tBool()}
	case "false":
		return SVal{False, tBool()}
	case "nil":
		return SVal{nil, nil}
	case "MaxInt":
		return SVal{BigLit(new(big.Int).Sub(pow2(63), big.NewInt(1))), tInt()}
	case "MinInt":
		return SVal{BigLit(new(big.Int).Neg(pow2(63))), tInt()}
	case "maxLen":
		return SVal{maxLen(), tInt()}
	}
	if v.pkg != nil {
		if o := v.pkg.Scope().Lookup(n); o != nil {
			if r, ok := v.objVal(o); ok {
				return r
			}
		}
	}
	panic(UnresolvedErr{n, e.Pos})
}

func constTerm(c constant.Value, t types.Type) *Term {
	switch c.Kind() {
	case constant.Bool:
		if constant.BoolVal(c) {
			return True
		}
		return False
	case constant.Int:
		n, ok := new(big.Int).SetString(c.ExactString(), 10)
		if !ok {
			panic("const " + c.ExactString())
		}
		return BigLit(n)
	case constant.String:
		return StrLit(constant.StringVal(c))
	case constant.Float:
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			i := constant.ToInt(c)
			n, _ := new(big.Int).SetString(i.ExactString(), 10)
			return BigLit(n)
		}
		return Const("float_"+c.ExactString(), "Float")
	}
	panic("constTerm")
}

func (v *Env) objVal(o types.Object) (SVal, bool) {
	switch x := o.(type) {
	case *types.Const:
		return SVal{constTerm(x.Val(), x.Type()), x.Type()}, true
	case *types.Var:
		p := globalPtr(x)
		return SVal{loadValue(v.st, p, x.Type()), x.Type()}, true
	case *types.Func:
		return SVal{Const("fn_"+x.FullName(), "Int"), x.Type()}, true
	}
	return SVal{}, false
}

var globalIDs = map[string]int64{}

func globalPtr(o types.Object) *Term {
	k := o.Pkg().Path() + "." + o.Name()
	id, ok := globalIDs[k]
	if !ok {
		id = int64(-1 - len(globalIDs))
		globalIDs[k] = id
	}
	return MkPtr(IntLit(id), IntLit(0))
}

func nilFor(srt string) *Term {
	switch srt {
	case SPtr:
		return NilPtr()
	case SSlice:
		return NilSlice()
	case SIface:
		return NilIface()
	case "Int":
		return IntLit(0)
	}
	panic(SpecErr{"nil of sort " + srt})
}

func (v *Env) coerce2(e *Expr, a, b SVal) (SVal, SVal) {
	if a.T == nil && b.T == nil {
		specFail(e, "nil == nil")
	}
	if a.T == nil {
		if b.T.sort == SSlice {
			// s == nil compares the base object
			return SVal{IntLit(0), tInt()}, SVal{SO(b.T), tInt()}
		}
		a = SVal{nilFor(b.T.sort), b.Ty}
	}
	if b.T == nil {
		if a.T.sort == SSlice {
			return SVal{SO(a.T), tInt()}, SVal{IntLit(0), tInt()}
		}
		b = SVal{nilFor(a.T.sort), a.Ty}
	}
	if a.T.sort == SIface && b.T.sort != SIface && b.Ty != nil {
		b = SVal{toIface(b.T, b.Ty), a.Ty}
	}
	if b.T.sort == SIface && a.T.sort != SIface && a.Ty != nil {
		a = SVal{toIface(a.T, a.Ty), b.Ty}
	}
	if a.T.sort != b.T.sort {
		specFail(e, "sort mismatch %s vs %s", a.T.sort, b.T.sort)
	}
	return a, b
}

func (v *Env) eval(e *Expr) SVal {
	switch e.Op {
	case "int":
		return SVal{litVal(e.Name), tInt()}
	case "str":
		return SVal{StrLit(e.Name), tStr()}
	case "id":
		return v.ident(e)
	case "old":
		if v.old == nil {
			return v.eval(e.Args[0]) // already in the entry state
		}
		o := v.old.child()
		// bound variables and lets stay visible
		for k, x := range v.vars {
			if _, ok := v.old.vars[k]; !ok {
				o.vars[k] = x
			}
		}
		o.rec, o.inDef = v.rec, v.inDef
		return o.eval(e.Args[0])
	case "un":
		x := v.eval(e.Args[0])
		switch e.Name {
		case "!":
			return SVal{Not(x.T), tBool()}
		case "-":
			return SVal{Sub(IntLit(0), x.T), tInt()}
		case "*":
			el, ok := ptrElem(x.Ty)
			if !ok {
				specFail(e, "not a pointer")
			}
			return SVal{loadValue(v.st, x.T, el), el}
		}
	case "bin":
		return v.bin(e)
	case "cond":
		c := v.boolE(e.Args[0])
		a := v.eval(e.Args[1])
		b := v.eval(e.Args[2])
		if a.T == nil || b.T == nil {
			a, b = v.coerceNil(e, a, b)
		}
		return SVal{Ite(c, a.T, b.T), a.Ty}
	case "let":
		x := v.eval(e.Args[0])
		n := v.child()
		n.vars[e.Name] = x
		return n.eval(e.Args[1])
	case "quant":
		return v.quant(e)
	case "sel":
		// package-qualified?
		if e.Args[0].Op == "id" {
			if _, isv := v.vars[e.Args[0].Name]; !isv {
				isLocal := false
				if v.local != nil {
					_, isLocal = v.local(e.Args[0].Name)
				}
				if !isLocal && (v.pkg == nil || v.pkg.Scope().Lookup(e.Args[0].Name) == nil) {
					if p := findPkg(e.Args[0].Name, v.pkg); p != nil {
						if o := p.Scope().Lookup(e.Name); o != nil {
							if r, ok := v.objVal(o); ok {
								return r
							}
						}
					}
				}
			}
		}
		return v.field(v.eval(e.Args[0]), e.Name, e)
	case "idx":
		x := v.eval(e.Args[0])
		i := v.eval(e.Args[1])
		return v.index(e, x, i)
	case "slice":
		x := v.eval(e.Args[0])
		a, b := v.eval(e.Args[1]), v.eval(e.Args[2])
		if x.T.sort == SStr {
			return SVal{SSub(x.T, a.T, b.T), x.Ty}
		}
		return SVal{MkSlice(SO(x.T), Ix(SF(x.T), a.T), Sub(b.T, a.T), Sub(SC(x.T), a.T)), x.Ty}
	case "call":
		return v.call(e)
	}
	specFail(e, "cannot evaluate %s", e.Op)
	return SVal{}
}

func (v *Env) coerceNil(e *Expr, a, b SVal) (SVal, SVal) {
	if a.T == nil && b.T != nil {
		return SVal{nilFor(b.T.sort), b.Ty}, b
	}
	if b.T == nil && a.T != nil {
		return a, SVal{nilFor(a.T.sort), a.Ty}
	}
	specFail(e, "untyped nil")
	return a, b
}

func (v *Env) index(e *Expr, x, i SVal) SVal {
	if x.Ty == nil {
		return SVal{Select(x.T, i.T), nil}
	}
	switch u := x.Ty.Underlying().(type) {
	case *types.Slice:
		return SVal{loadValue(v.st, MkPtr(SO(x.T), Ix(SF(x.T), i.T)), u.Elem()), u.Elem()}
	case *types.Array:
		return SVal{Select(x.T, i.T), u.Elem()}
	case *types.Pointer:
		if a, ok := u.Elem().Underlying().(*types.Array); ok {
			return SVal{loadValue(v.st, MkPtr(PO(x.T), i.T), a.Elem()), a.Elem()}
		}
	case *types.Map:
		_, mv, _, _, vs, _ := mapHeaps(u)
		return SVal{Select(Select(v.st.Heap(mv, vs), x.T), i.T), u.Elem()}
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return SVal{SAt(x.T, i.T), types.Typ[types.Uint8]}
		}
	}
	specFail(e, "cannot index %s", x.Ty)
	return SVal{}
}

func (v *Env) bin(e *Expr) SVal {
	switch e.Name {
	case "&&":
		return SVal{And(v.boolE(e.Args[0]), v.boolE(e.Args[1])), tBool()}
	case "||":
		return SVal{Or(v.boolE(e.Args[0]), v.boolE(e.Args[1])), tBool()}
	case "==>":
		return SVal{Implies(v.boolE(e.Args[0]), v.boolE(e.Args[1])), tBool()}
	case "<==>":
		return SVal{Eq(v.boolE(e.Args[0]), v.boolE(e.Args[1])), tBool()}
	}
	a, b := v.eval(e.Args[0]), v.eval(e.Args[1])
	switch e.Name {
	case "==":
		a, b = v.coerce2(e, a, b)
		return SVal{Eq(a.T, b.T), tBool()}
	case "!=":
		a, b = v.coerce2(e, a, b)
		return SVal{Not(Eq(a.T, b.T)), tBool()}
	}
	if a.T == nil || b.T == nil {
		specFail(e, "nil operand")
	}
	if a.T.sort == SStr && e.Name == "+" {
		return SVal{SCat(a.T, b.T), a.Ty}
	}
	if a.T.sort != intSort() || b.T.sort != intSort() {
		specFail(e, "integer operands expected: %s %s", a.T.sort, b.T.sort)
	}
	switch e.Name {
	case "<":
		return SVal{Lt(a.T, b.T), tBool()}
	case "<=":
		return SVal{Le(a.T, b.T), tBool()}
	case ">":
		return SVal{Lt(b.T, a.T), tBool()}
	case ">=":
		return SVal{Le(b.T, a.T), tBool()}
	case "+":
		return SVal{Add(a.T, b.T), a.Ty}
	case "-":
		return SVal{Sub(a.T, b.T), a.Ty}
	case "*":
		return SVal{Mul(a.T, b.T), a.Ty}
	case "/":
		return SVal{Div(a.T, b.T), a.Ty}
	case "%":
		return SVal{Mod(a.T, b.T), a.Ty}
	}
	specFail(e, "operator %s", e.Name)
	return SVal{}
}

func (v *Env) quant(e *Expr) SVal {
	return v.quantWith(e, func(n *Env) *Term { return n.boolE(e.Args[0]) })
}

func (v *Env) quantWith(e *Expr, bodyF func(*Env) *Term) SVal {
	n := v.child()
	var bvs []*Term
	var guards []*Term
	for _, d := range e.Vars {
		t := v.typ(d.Type)
		b := BoundVar(d.Name, sortOf(t))
		bvs = append(bvs, b)
		n.vars[d.Name] = SVal{b, t}
		if b.sort == SPtr {
			guards = append(guards, And(Not(Eq(PO(b), IntLit(0))), Lt(PO(b), v.st.Alloc()), Le(IntLit(0), PI(b))))
		}
	}
	if n.old != nil {
		o := n.old.child()
		for _, d := range e.Vars {
			o.vars[d.Name] = n.vars[d.Name]
		}
		n.old = o
	}
	if n.local != nil {
		ol := n.local
		names := map[string]bool{}
		for _, d := range e.Vars {
			names[d.Name] = true
		}
		n.local = func(s string) (SVal, bool) {
			if names[s] {
				return SVal{}, false
			}
			return ol(s)
		}
	}
	body := bodyF(n)
	var trigs [][]*Term
	for _, tr := range e.Trig {
		var x []*Term
		for _, t := range tr {
			x = append(x, n.eval(t).T)
		}
		trigs = append(trigs, x)
	}
	if e.Name == "forall" {
		return SVal{Forall(bvs, trigs, Implies(And(guards...), body)), tBool()}
	}
	return SVal{Exists(bvs, trigs, And(And(guards...), body)), tBool()}
}

func (v *Env) args(e *Expr) []SVal {
	var out []SVal
	for _, a := range e.Args {
		out = append(out, v.eval(a))
	}
	return out
}

func (v *Env) call(e *Expr) SVal {
	switch e.Name {
	case "len", "cap":
		x := v.eval(e.Args[0])
		if x.T.sort == SStr {
			return SVal{SLen(x.T), tInt()}
		}
		if x.T.sort == SSlice {
			if e.Name == "cap" {
				return SVal{SC(x.T), tInt()}
			}
			return SVal{SL(x.T), tInt()}
		}
		if m, ok := x.Ty.Underlying().(*types.Map); ok {
			_, _, ml, _, _, ls := mapHeaps(m)
			return SVal{Ite(Eq(x.T, IntLit(0)), IntLit(0), Select(v.st.Heap(ml, ls), x.T)), tInt()}
		}
		if a, ok := x.Ty.Underlying().(*types.Array); ok {
			return SVal{IntLit(a.Len()), tInt()}
		}
		specFail(e, "len of %s", x.Ty)
	case "has":
		x := v.eval(e.Args[0])
		k := v.eval(e.Args[1])
		m, ok := x.Ty.Underlying().(*types.Map)
		if !ok {
			if x.T.sort == ArrSort(k.T.sort, "Bool") {
				return SVal{Select(x.T, k.T), tBool()}
			}
			specFail(e, "has on %s", x.Ty)
		}
		md, _, _, ds, _, _ := mapHeaps(m)
		return SVal{Select(Select(v.st.Heap(md, ds), x.T), k.T), tBool()}
	case "obj":
		x := v.eval(e.Args[0])
		switch x.T.sort {
		case SPtr:
			return SVal{PO(x.T), tInt()}
		case SSlice:
			return SVal{SO(x.T), tInt()}
		case "Int":
			return SVal{x.T, tInt()}
		case SIface:
			return SVal{PO(IP(x.T)), tInt()}
		}
	case "ix":
		a := v.args(e)
		return SVal{Ix(a[0].T, a[1].T), tInt()}
	case "seqv":
		a := v.args(e)
		DeclFun("seqv", []string{SStr, SStr}, "Bool")
		return SVal{App("seqv", "Bool", a[0].T, a[1].T), tBool()}
	case "off":
		return SVal{SF(v.eval(e.Args[0]).T), tInt()}
	case "idx":
		return SVal{PI(v.eval(e.Args[0]).T), tInt()}
	case "alloc":
		return SVal{v.st.Alloc(), tInt()}
	case "elems":
		x := v.eval(e.Args[0])
		sl := x.Ty.Underlying().(*types.Slice)
		h, s := elemHeap(sl.Elem())
		return SVal{Select(v.st.Heap(h, s), SO(x.T)), types.NewArray(sl.Elem(), 0)}
	case "fresh":
		x := v.eval(e.Args[0])
		if v.old == nil {
			specFail(e, "fresh needs old state")
		}
		var o *Term
		switch x.T.sort {
		case SPtr:
			o = PO(x.T)
		case SSlice:
			o = SO(x.T)
		case SIface:
			o = PO(IP(x.T))
		default:
			o = x.T
		}
		return SVal{Le(v.old.st.Alloc(), o), tBool()}
	case "allocated":
		x := v.eval(e.Args[0])
		var o *Term
		switch x.T.sort {
		case SPtr:
			o = PO(x.T)
		case SSlice:
			o = SO(x.T)
		default:
			o = x.T
		}
		return SVal{And(Lt(o, v.st.Alloc()), Not(Eq(o, IntLit(0)))), tBool()}
	case "single": // the pointer is to an object allocated as a single value of its type
		x := v.eval(e.Args[0])
		el := x.Ty.Underlying().(*types.Pointer).Elem()
		return SVal{And(Eq(PI(x.T), IntLit(0)), Eq(kindOf(PO(x.T)), tagOf(el))), tBool()}
	case "typeis":
		x := v.eval(e.Args[0])
		return SVal{Eq(IT(x.T), tagOf(v.typ(e.Vars[0].Type))), tBool()}
	case "cast":
		x := v.eval(e.Args[0])
		t := v.typ(e.Vars[0].Type)
		if x.T.sort == SIface && sortOf(t) != SIface {
			return SVal{fromIface(x.T, t), t}
		}
		return SVal{x.T, t}
	case "zero":
		t := v.typ(e.Vars[0].Type)
		return SVal{zeroOf(t), t}
	case "str":
		// string(bytes)
		x := v.eval(e.Args[0])
		h, s := elemHeap(types.Typ[types.Uint8])
		return SVal{MkStr(Select(v.st.Heap(h, s), SO(x.T)), SF(x.T), SL(x.T)), tStr()}
	case "mkstr":
		a := v.args(e)
		return SVal{MkStr(a[0].T, a[1].T, a[2].T), tStr()}
	case "band", "bor", "bxor", "shl", "shr":
		a := v.args(e)
		return SVal{bitop(e.Name, a[0].T, a[1].T), a[0].Ty}
	case "store":
		a := v.args(e)
		return SVal{Store(a[0].T, a[1].T, a[2].T), a[0].Ty}
	case "mkptr":
		a := v.args(e)
		return SVal{MkPtr(a[0].T, a[1].T), nil}
	case "min", "max":
		a := v.args(e)
		if e.Name == "min" {
			return SVal{Ite(Le(a[0].T, a[1].T), a[0].T, a[1].T), tInt()}
		}
		return SVal{Ite(Le(a[0].T, a[1].T), a[1].T, a[0].T), tInt()}
	}
	sf := SDB.SFuns[e.Name]
	if sf == nil {
		// conversion T(x) for named integer types
		if len(e.Args) == 1 {
			if t, ok := v.tryTyp(e.Name); ok {
				x := v.eval(e.Args[0])
				if x.T != nil && x.T.sort == sortOf(t) {
					return SVal{x.T, t}
				}
				if x.T != nil && x.Ty != nil && sortOf(t) == SIface {
					return SVal{toIface(x.T, x.Ty), t}
				}
			}
		}
		specFail(e, "unknown spec function %s", e.Name)
	}
	return v.applySF(sf, v.args(e), e)
}

func (v *Env) tryTyp(s string) (t types.Type, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(SpecErr); is {
				ok = false
				return
			}
			panic(r)
		}
	}()
	return v.typ(s), true
}

// ---- spec functions ----

type sfInst struct {
	sym    string
	heaps  []string
	hsorts []string
	alloc  bool
	ret    string
	retTy  types.Type
	recurs bool
	psorts []string
	busy   bool
}

var sfInsts = map[string]*sfInst{}

type AxiomT struct {
	Name string
	T    *Term
	Syms []string // include when all of one trigger's symbols present
	Def  string
}

var axioms []*AxiomT

// recView hands out bound variables for heaps.
type recView struct {
	names []string
	m     map[string]*Term
	allc  *Term
	used  bool
}

func (r *recView) Heap(n, s string) *Term {
	if t, ok := r.m[n]; ok {
		return t
	}
	t := BoundVar("hp", s)
	r.m[n] = t
	r.names = append(r.names, n)
	return t
}
func (r *recView) Alloc() *Term { r.used = true; return r.allc }

func (v *Env) tyKey(sf *SpecFun) string {
	used := false
	for _, p := range sf.Params {
		for n := range v.tyArgs {
			if containsWord(p.Type, n) {
				used = true
			}
		}
	}
	for n := range v.tyArgs {
		if containsWord(sf.Ret, n) {
			used = true
		}
	}
	if !used {
		return ""
	}
	var ks []string
	for n := range v.tyArgs {
		ks = append(ks, n)
	}
	sort.Strings(ks)
	var sb strings.Builder
	for _, k := range ks {
		sb.WriteString("<" + qualType(v.tyArgs[k]) + ">")
	}
	return sb.String()
}

func containsWord(s, w string) bool {
	for i := 0; i+len(w) <= len(s); i++ {
		if s[i:i+len(w)] == w {
			l := i == 0 || !isWordCh(s[i-1])
			r := i+len(w) == len(s) || !isWordCh(s[i+len(w)])
			if l && r {
				return true
			}
		}
	}
	return false
}
func isWordCh(c byte) bool {
	return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9'
}

func pkgOf(path string) *types.Package {
	full := modulePath
	if path != "" && path != "." {
		full += "/" + path
	}
	if p, ok := W.pkgs[full]; ok {
		return p.Pkg
	}
	if p, ok := W.pkgs[path]; ok {
		return p.Pkg
	}
	return nil
}

func (v *Env) applySF(sf *SpecFun, args []SVal, e *Expr) SVal {
	if len(args) != len(sf.Params) {
		specFail(e, "argument count for %s", sf.Name)
	}
	ne := &Env{pkg: pkgOf(sf.Pkg), tyArgs: v.tyArgs, vars: map[string]SVal{}, st: v.st, rec: v.rec, inDef: v.inDef}
	for i, p := range sf.Params {
		ne.tyArgs = inferTyArgs(ne, p.Type, args[i].Ty)
	}
	v = &Env{pkg: v.pkg, tyArgs: ne.tyArgs, vars: v.vars, st: v.st, old: v.old, local: v.local, rec: v.rec, inDef: v.inDef}
	for i, p := range sf.Params {
		pt := ne.typ(p.Type)
		a := args[i]
		if a.T == nil {
			a = SVal{nilFor(sortOf(pt)), pt}
		}
		if a.T.sort != sortOf(pt) {
			if sortOf(pt) == SIface && a.Ty != nil {
				a = SVal{toIface(a.T, a.Ty), pt}
			} else {
				specFail(e, "argument %d of %s: sort %s, want %s", i, sf.Name, a.T.sort, sortOf(pt))
			}
		}
		ne.vars[p.Name] = SVal{a.T, pt}
	}
	if sf.Macro {
		if v.old != nil {
			oe := *ne
			oe.st = v.old.st
			ne.old = &oe
		}
		r := ne.eval(sf.Body)
		rt := ne.typ(sf.Ret)
		if r.T == nil {
			r.T = nilFor(sortOf(rt))
		}
		return SVal{r.T, rt}
	}
	inst := v.instSF(sf, ne)
	sym := inst.sym
	if v.inDef[sf.Name+v.tyKey(sf)] {
		sym = inst.sym + recSuffix
		inst.recurs = true
	}
	var ts []*Term
	for _, p := range sf.Params {
		ts = append(ts, ne.vars[p.Name].T)
	}
	for i, h := range inst.heaps {
		ts = append(ts, v.st.Heap(h, inst.hsorts[i]))
	}
	if inst.alloc {
		ts = append(ts, v.st.Alloc())
	}
	return SVal{App(sym, inst.ret, ts...), inst.retTy}
}

// inferTyArgs binds the type parameters named in a parameter type such as *Queue[T].
func inferTyArgs(ne *Env, ptype string, at types.Type) map[string]types.Type {
	m := ne.tyArgs
	for strings.HasPrefix(ptype, "*") && at != nil {
		ptype = ptype[1:]
		p, ok := types.Unalias(at).Underlying().(*types.Pointer)
		if !ok {
			return m
		}
		at = p.Elem()
	}
	i := strings.IndexByte(ptype, '[')
	if i <= 0 || at == nil || strings.HasPrefix(ptype, "map[") {
		return m
	}
	n, ok := types.Unalias(at).(*types.Named)
	if !ok || n.TypeParams().Len() == 0 {
		return m
	}
	names := strings.Split(ptype[i+1:len(ptype)-1], ",")
	if len(names) != n.TypeParams().Len() {
		return m
	}
	r := map[string]types.Type{}
	for k, t := range m {
		r[k] = t
	}
	for j, nm := range names {
		nm = strings.TrimSpace(nm)
		if n.TypeParams().At(j).Obj().Name() != nm {
			continue
		}
		if n.TypeArgs().Len() > j {
			r[nm] = n.TypeArgs().At(j)
		} else {
			r[nm] = n.TypeParams().At(j)
		}
	}
	return r
}

// recSuffix marks a recursive call in the body of a spec function being defined
var recSuffix = "@0"

func (v *Env) instSF(sf *SpecFun, ne *Env) *sfInst {
	key := sf.Name + v.tyKey(sf)
	if in, ok := sfInsts[key]; ok {
		return in
	}
	in := &sfInst{sym: "sf_" + key, busy: true}
	if bvMode {
		panic(SpecErr{"spec function in bv mode: " + sf.Name})
	}
	in.retTy = ne.typ(sf.Ret)
	in.ret = sortOf(in.retTy)
	for _, p := range sf.Params {
		in.psorts = append(in.psorts, sortOf(ne.typ(p.Type)))
	}
	sfInsts[key] = in
	defer func() { in.busy = false }()
	if sf.Body == nil {
		DeclFun(in.sym, in.psorts, in.ret)
		return in
	}
	inDef := map[string]bool{key: true}
	for k := range v.inDef {
		inDef[k] = true
	}
	// iterate to find the heaps read
	for round := 0; round < 6; round++ {
		rv := &recView{m: map[string]*Term{}, allc: BoundVar("al", "Int")}
		for i, h := range in.heaps {
			rv.Heap(h, in.hsorts[i])
		}
		be := &Env{pkg: ne.pkg, tyArgs: v.tyArgs, vars: map[string]SVal{}, st: rv, inDef: inDef}
		var bvs []*Term
		for _, p := range sf.Params {
			pt := be.typ(p.Type)
			b := BoundVar(p.Name, sortOf(pt))
			bvs = append(bvs, b)
			be.vars[p.Name] = SVal{b, pt}
		}
		body := be.eval(sf.Body)
		if body.T == nil {
			body.T = nilFor(in.ret)
		}
		if body.T.sort != in.ret {
			panic(SpecErr{sf.Pos + ": body sort of " + sf.Name + ": " + body.T.sort})
		}
		if len(rv.names) == len(in.heaps) && rv.used == in.alloc {
			// stable: declare and define
			sorts := append([]string{}, in.psorts...)
			sorts = append(sorts, in.hsorts...)
			for _, h := range in.heaps {
				bvs = append(bvs, rv.m[h])
			}
			if in.alloc {
				sorts = append(sorts, "Int")
				bvs = append(bvs, rv.allc)
			}
			DeclFun(in.sym, sorts, in.ret)
			app := App(in.sym, in.ret, bvs...)
			if in.recurs && sf.Fuel2 {
				// two levels of unfolding
				recSuffix = "@1"
				body2 := be.eval(sf.Body)
				recSuffix = "@0"
				DeclFun(in.sym+"@0", sorts, in.ret)
				DeclFun(in.sym+"@1", sorts, in.ret)
				app0 := App(in.sym+"@0", in.ret, bvs...)
				app1 := App(in.sym+"@1", in.ret, bvs...)
				axioms = append(axioms, &AxiomT{Name: "def " + key, T: Forall(bvs, [][]*Term{{app}}, And(Eq(app, body2.T), Eq(app, app1))), Syms: []string{quote(in.sym)}, Def: in.sym})
				axioms = append(axioms, &AxiomT{Name: "fuel " + key, T: Forall(bvs, [][]*Term{{app1}}, And(Eq(app1, body.T), Eq(app1, app0))), Syms: []string{quote(in.sym + "@1")}, Def: in.sym})
				return in
			}
			if len(bvs) == 0 {
				axioms = append(axioms, &AxiomT{Name: "def " + key, T: Eq(app, body.T), Syms: []string{quote(in.sym)}, Def: in.sym})
			} else {
				axioms = append(axioms, &AxiomT{Name: "def " + key, T: Forall(bvs, [][]*Term{{app}}, Eq(app, body.T)), Syms: []string{quote(in.sym)}, Def: in.sym})
			}
			if in.recurs {
				DeclFun(in.sym+"@0", sorts, in.ret)
				app0 := App(in.sym+"@0", in.ret, bvs...)
				axioms = append(axioms, &AxiomT{Name: "fuel " + key, T: Forall(bvs, [][]*Term{{app}}, Eq(app, app0)), Syms: []string{quote(in.sym)}, Def: in.sym})
			}
			return in
		}
		in.heaps = append([]string{}, rv.names...)
		in.hsorts = nil
		for _, h := range rv.names {
			in.hsorts = append(in.hsorts, rv.m[h].sort)
		}
		in.alloc = rv.used
	}
	panic(SpecErr{sf.Pos + ": heap analysis of " + sf.Name + " did not converge"})
}

func bitop(op string, a, b *Term) *Term {
	if bvMode {
		m := map[string]string{"band": "bvand", "bor": "bvor", "bxor": "bvxor", "shl": "bvshl", "shr": "bvashr"}
		return mk(m[op], a.sort, a, b)
	}
	x, ok1 := a.lit()
	y, ok2 := b.lit()
	if ok1 && ok2 {
		z := new(big.Int)
		switch op {
		case "band":
			return BigLit(z.And(x, y))
		case "bor":
			return BigLit(z.Or(x, y))
		case "bxor":
			return BigLit(z.Xor(x, y))
		case "shl":
			if y.IsUint64() && y.Uint64() < 200 {
				return BigLit(z.Lsh(x, uint(y.Uint64())))
			}
		case "shr":
			if y.IsUint64() && y.Uint64() < 200 {
				return BigLit(z.Rsh(x, uint(y.Uint64())))
			}
		}
	}
	if ok1 && !ok2 && op != "shl" && op != "shr" {
		a, b = b, a
		y, ok2 = x, true
	}
	if ok2 {
		switch op {
		case "band":
			if y.Sign() >= 0 && y.BitLen() <= 64 {
				// sum over runs of ones
				res := IntLit(0)
				runs := 0
				bl := uint(y.BitLen())
				for i := uint(0); i < bl; {
					if y.Bit(int(i)) == 0 {
						i++
						continue
					}
					j := i
					for j < bl && y.Bit(int(j)) == 1 {
						j++
					}
					t := a
					if i > 0 {
						t = Div(t, BigLit(pow2(i)))
					}
					t = Mod(t, BigLit(pow2(j-i)))
					if i > 0 {
						t = Mul(t, BigLit(pow2(i)))
					}
					res = Add(res, t)
					runs++
					i = j
				}
				if runs <= 4 {
					return res
				}
			}
			if y.Sign() < 0 { // x & -2^k
				m := new(big.Int).Neg(y)
				if m.BitLen() <= 63 && new(big.Int).And(m, new(big.Int).Sub(m, big.NewInt(1))).Sign() == 0 {
					return Sub(a, Mod(a, BigLit(m)))
				}
			}
		case "shr":
			if y.Sign() >= 0 && y.BitLen() < 8 {
				return Div(a, BigLit(pow2(uint(y.Uint64()))))
			}
		case "shl":
			if y.Sign() >= 0 && y.BitLen() < 8 {
				return Mul(a, BigLit(pow2(uint(y.Uint64()))))
			}
		}
	}
	DeclFun(op, []string{"Int", "Int"}, "Int")
	return App(op, "Int", a, b)
}
