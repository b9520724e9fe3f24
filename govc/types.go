package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const modulePath = "github.com/ava12/llx"

// World holds the loaded program.
type World struct {
	prog     *ssa.Program
	pkgs     map[string]*ssa.Package // by path
	records  map[string]bool         // qualified type names kept as whole values in memory
	tags     map[string]int64
	tagTypes []types.Type
}

var W *World

// deepUnalias replaces aliases inside t: an alias and its target share their heaps.
func deepUnalias(t types.Type) types.Type {
	t = types.Unalias(t)
	switch u := t.(type) {
	case *types.Pointer:
		if e := deepUnalias(u.Elem()); e != u.Elem() {
			return types.NewPointer(e)
		}
	case *types.Slice:
		if e := deepUnalias(u.Elem()); e != u.Elem() {
			return types.NewSlice(e)
		}
	case *types.Array:
		if e := deepUnalias(u.Elem()); e != u.Elem() {
			return types.NewArray(e, u.Len())
		}
	case *types.Map:
		k, e := deepUnalias(u.Key()), deepUnalias(u.Elem())
		if k != u.Key() || e != u.Elem() {
			return types.NewMap(k, e)
		}
	case *types.Named:
		ta := u.TypeArgs()
		ch := false
		var as []types.Type
		for i := 0; i < ta.Len(); i++ {
			a := deepUnalias(ta.At(i))
			ch = ch || a != ta.At(i)
			as = append(as, a)
		}
		if ch {
			if n, err := types.Instantiate(nil, u.Origin(), as, false); err == nil {
				return n
			}
		}
	case *types.Signature:
		tup := func(x *types.Tuple) (*types.Tuple, bool) {
			ch := false
			var vs []*types.Var
			for i := 0; i < x.Len(); i++ {
				a := deepUnalias(x.At(i).Type())
				ch = ch || a != x.At(i).Type()
				vs = append(vs, types.NewVar(token.NoPos, nil, "", a))
			}
			return types.NewTuple(vs...), ch
		}
		p, c1 := tup(u.Params())
		r, c2 := tup(u.Results())
		if c1 || c2 || true {
			return types.NewSignatureType(nil, nil, nil, p, r, u.Variadic())
		}
	}
	return t
}

var qualMemo = map[types.Type]string{}

func qualType(t types.Type) string {
	if s, ok := qualMemo[t]; ok {
		return s
	}
	s := types.TypeString(deepUnalias(t), func(p *types.Package) string {
		return strings.TrimPrefix(strings.TrimPrefix(p.Path(), modulePath), "/")
	})
	qualMemo[t] = s
	return s
}

func inModule(p *types.Package) bool {
	return p != nil && (p.Path() == modulePath || strings.HasPrefix(p.Path(), modulePath+"/"))
}

func structOf(t types.Type) (*types.Struct, bool) {
	s, ok := t.Underlying().(*types.Struct)
	return s, ok
}

// opaqueStruct: struct types declared outside the module.
func opaqueStruct(t types.Type) bool {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		if _, ok := n.Underlying().(*types.Struct); ok {
			return !inModule(n.Obj().Pkg())
		}
	}
	return false
}

func isExploded(t types.Type) bool {
	t = types.Unalias(t)
	if _, ok := t.(*types.TypeParam); ok {
		return false
	}
	if _, ok := structOf(t); !ok {
		return false
	}
	if opaqueStruct(t) {
		return false
	}
	n, ok := t.(*types.Named)
	if !ok {
		return false
	}
	return !W.records[qualType(n.Origin().Obj().Type())] && !W.records[recName(n)]
}

func recName(n *types.Named) string {
	return strings.TrimPrefix(strings.TrimPrefix(n.Obj().Pkg().Path(), modulePath), "/") + "." + n.Obj().Name()
}

func isTypeParam(t types.Type) bool {
	_, ok := types.Unalias(t).(*types.TypeParam)
	return ok
}

func sortOf(t types.Type) string {
	t = types.Unalias(t)
	if tp, ok := t.(*types.TypeParam); ok {
		return quote("TP_" + tp.Obj().Name())
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return "Bool"
		case u.Info()&types.IsInteger != 0:
			return intSort()
		case u.Info()&types.IsString != 0:
			return SStr
		case u.Info()&types.IsFloat != 0:
			return "Float"
		case u.Kind() == types.UntypedNil:
			return SPtr
		case u.Kind() == types.Invalid:
			return "Int"
		case u.Kind() == types.UnsafePointer:
			return "Int"
		}
	case *types.Pointer:
		return SPtr
	case *types.Slice:
		return SSlice
	case *types.Interface:
		return SIface
	case *types.Signature, *types.Map, *types.Chan:
		return "Int"
	case *types.Array:
		return ArrSort("Int", sortOf(u.Elem()))
	case *types.Struct:
		if opaqueStruct(t) {
			return quote("X_" + qualType(t))
		}
		return structSort(t, u)
	}
	if t.String() == "$ssa.deferStack" || strings.HasPrefix(t.String(), "$ssa") {
		return "Int"
	}
	panic("sortOf: unsupported type " + t.String())
}

func structSort(t types.Type, u *types.Struct) string {
	name := quote("S_" + qualType(t))
	if _, ok := dts[name]; ok {
		return name
	}
	var accs, sorts []string
	base := qualType(t)
	for i := 0; i < u.NumFields(); i++ {
		accs = append(accs, quote(fmt.Sprintf("f_%s.%d_%s", base, i, u.Field(i).Name())))
		sorts = append(sorts, sortOf(u.Field(i).Type()))
	}
	if len(accs) == 0 {
		accs = append(accs, quote("f_"+base+".dummy"))
		sorts = append(sorts, "Int")
	}
	declDT(name, quote("mk_"+base), accs, sorts)
	return name
}

func fieldHeap(structT types.Type, i int) (string, string) {
	u, _ := structOf(structT)
	f := u.Field(i)
	n := "H|" + qualType(structT) + "|" + f.Name()
	regHeap(n, f.Type())
	return n, ArrSort(SPtr, sortOf(f.Type()))
}

func elemHeap(t types.Type) (string, string) {
	// key by representation type
	t = types.Unalias(t)
	name := qualType(t)
	if _, ok := t.(*types.Named); ok {
		if _, st := structOf(t); !st {
			// named non-struct: pointers of different named types never alias in safe Go
		}
	}
	regHeap("E|"+name, t)
	return "E|" + name, ArrSort("Int", ArrSort("Int", sortOf(t)))
}

func mapHeaps(m *types.Map) (dom, val, ln string, ds, vs, ls string) {
	k, v := sortOf(m.Key()), sortOf(m.Elem())
	b := qualType(m.Key()) + "|" + qualType(m.Elem())
	return "MD|" + b, "MV|" + b, "ML|" + b, ArrSort("Int", ArrSort(k, "Bool")), ArrSort("Int", ArrSort(k, v)), ArrSort("Int", "Int")
}

func pow2(n uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), n) }

const maxLenBits = 48

func intRange(b *types.Basic) (lo, hi *big.Int, ok bool) {
	one := big.NewInt(1)
	s := func(n uint) (*big.Int, *big.Int, bool) {
		h := pow2(n - 1)
		return new(big.Int).Neg(h), new(big.Int).Sub(h, one), true
	}
	u := func(n uint) (*big.Int, *big.Int, bool) {
		return big.NewInt(0), new(big.Int).Sub(pow2(n), one), true
	}
	switch b.Kind() {
	case types.Int, types.Int64:
		return s(64)
	case types.Int32:
		return s(32)
	case types.Int16:
		return s(16)
	case types.Int8:
		return s(8)
	case types.Uint, types.Uint64, types.Uintptr:
		return u(64)
	case types.Uint32:
		return u(32)
	case types.Uint16:
		return u(16)
	case types.Uint8:
		return u(8)
	}
	return nil, nil, false
}

func maxLen() *Term { return BigLit(pow2(maxLenBits)) }

// wf returns the typing facts of a value.
func wf(v *Term, t types.Type, alloc *Term) *Term { return wfd(v, t, alloc, 0) }

func wfd(v *Term, t types.Type, alloc *Term, depth int) *Term {
	t = types.Unalias(t)
	if isTypeParam(t) {
		return True
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsInteger != 0 {
			lo, hi, ok := intRange(u)
			if !ok {
				return True
			}
			return And(Le(BigLit(lo), v), Le(v, BigLit(hi)))
		}
		if u.Info()&types.IsString != 0 {
			l := SLen(v)
			return And(Le(IntLit(0), l), Le(l, maxLen()))
		}
		return True
	case *types.Pointer:
		return And(Lt(PO(v), alloc), Le(IntLit(0), PI(v)), Implies(Eq(PO(v), IntLit(0)), Eq(PI(v), IntLit(0))))
	case *types.Slice:
		z := IntLit(0)
		return And(Le(z, SL(v)), Le(SL(v), SC(v)), Le(SC(v), maxLen()), Le(z, SF(v)), Le(SF(v), maxLen()),
			Lt(SO(v), alloc), Le(z, SO(v)), Implies(Eq(SO(v), z), And(Eq(SC(v), z), Eq(SF(v), z))))
	case *types.Interface:
		return And(Le(IntLit(0), IT(v)), Lt(PO(IP(v)), alloc), Le(IntLit(0), PI(IP(v))), Implies(Eq(IT(v), IntLit(0)), Eq(v, NilIface())),
			Implies(Eq(PO(IP(v)), IntLit(0)), Eq(PI(IP(v)), IntLit(0))))
	case *types.Map:
		return And(Lt(v, alloc), Le(IntLit(0), v))
	case *types.Struct:
		if opaqueStruct(t) || depth > 3 {
			return True
		}
		var cs []*Term
		srt := sortOf(t)
		for i := 0; i < u.NumFields(); i++ {
			cs = append(cs, wfd(Acc(srt, i, v), u.Field(i).Type(), alloc, depth+1))
		}
		return And(cs...)
	}
	return True
}

// hasRefs: values of t contain object references.
func hasRefs(t types.Type) bool { return hasRefsD(t, 0) }
func hasRefsD(t types.Type, d int) bool {
	if isTypeParam(t) || d > 4 {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Interface, *types.Map:
		return true
	case *types.Struct:
		if opaqueStruct(t) {
			return false
		}
		for i := 0; i < u.NumFields(); i++ {
			if hasRefsD(u.Field(i).Type(), d+1) {
				return true
			}
		}
	}
	return false
}

func zeroOf(t types.Type) *Term {
	t = types.Unalias(t)
	if tp, ok := t.(*types.TypeParam); ok {
		return Const("zero_TP_"+tp.Obj().Name(), sortOf(tp))
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return False
		case u.Info()&types.IsInteger != 0:
			return IntLit(0)
		case u.Info()&types.IsString != 0:
			return StrLit("")
		case u.Info()&types.IsFloat != 0:
			return Const("zero_float", "Float")
		}
		return IntLit(0)
	case *types.Pointer:
		return NilPtr()
	case *types.Slice:
		return NilSlice()
	case *types.Interface:
		return NilIface()
	case *types.Signature, *types.Map, *types.Chan:
		return IntLit(0)
	case *types.Array:
		return ConstArr(sortOf(t), zeroOf(u.Elem()))
	case *types.Struct:
		if opaqueStruct(t) {
			return Const("zero_"+sortOf(t), sortOf(t))
		}
		srt := sortOf(t)
		var as []*Term
		for i := 0; i < u.NumFields(); i++ {
			as = append(as, zeroOf(u.Field(i).Type()))
		}
		if len(as) == 0 {
			as = append(as, IntLit(0))
		}
		return Ctor(srt, as...)
	}
	if sortOf(t) == "Int" {
		return IntLit(0)
	}
	panic("zeroOf " + t.String())
}

// ---- strings ----

var strLits = map[string]*Term{}
var strLitVal = map[*Term]string{}
var strOrder []string

func StrLit(s string) *Term {
	if t, ok := strLits[s]; ok {
		return t
	}
	n := s
	if len(n) > 20 {
		n = n[:20]
	}
	clean := strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' {
			return r
		}
		return '_'
	}, n)
	t := Const(fmt.Sprintf("str%d_%s", len(strOrder), clean), SStr)
	strLits[s] = t
	strLitVal[t] = s
	strOrder = append(strOrder, s)
	return t
}

func SLen(s *Term) *Term {
	if v, ok := strLitVal[s]; ok {
		return IntLit(int64(len(v)))
	}
	DeclFun("slen", []string{SStr}, "Int")
	return App("slen", "Int", s)
}
func SAt(s, i *Term) *Term {
	if v, ok := strLitVal[s]; ok {
		if n, ok := i.lit(); ok && n.IsInt64() && n.Int64() >= 0 && n.Int64() < int64(len(v)) {
			return IntLit(int64(v[n.Int64()]))
		}
	}
	DeclFun("sat", []string{SStr, "Int"}, "Int")
	return App("sat", "Int", s, i)
}

// MkStr: the string of bytes a[off..off+len)
func MkStr(a, off, ln *Term) *Term {
	DeclFun("mkstr", []string{ArrSort("Int", "Int"), "Int", "Int"}, SStr)
	return App("mkstr", SStr, a, off, ln)
}

// SSub: substring [i, j)
func SSub(s, i, j *Term) *Term {
	if i == IntLit(0) && j == SLen(s) {
		return s
	}
	DeclFun("ssub", []string{SStr, "Int", "Int"}, SStr)
	return App("ssub", SStr, s, i, j)
}
func SCat(a, b *Term) *Term {
	DeclFun("scat", []string{SStr, SStr}, SStr)
	return App("scat", SStr, a, b)
}

// ---- dynamic type tags ----

func tagOf(t types.Type) *Term {
	k := types.TypeString(types.Unalias(t), nil)
	n, ok := W.tags[k]
	if !ok {
		n = int64(len(W.tags) + 1)
		W.tags[k] = n
		W.tagTypes = append(W.tagTypes, t)
	}
	return IntLit(n)
}

func box(v *Term) *Term {
	switch v.sort {
	case "Int":
		return v
	case "Bool":
		return Ite(v, IntLit(1), IntLit(0))
	}
	f := "box_" + v.sort
	DeclFun(f, []string{v.sort}, "Int")
	DeclFun("un"+f, []string{"Int"}, v.sort)
	return App(f, "Int", v)
}

func unbox(v *Term, srt string) *Term {
	switch srt {
	case "Int":
		return v
	case "Bool":
		return Eq(v, IntLit(1))
	}
	f := "box_" + srt
	if v.op == quote(f) {
		return v.args[0]
	}
	DeclFun(f, []string{srt}, "Int")
	DeclFun("un"+f, []string{"Int"}, srt)
	return App("un"+f, srt, v)
}

func toIface(v *Term, t types.Type) *Term {
	if _, ok := t.Underlying().(*types.Interface); ok && !isTypeParam(t) {
		return v
	}
	if v.sort == SPtr {
		return Ctor(SIface, tagOf(t), v, IntLit(0))
	}
	return Ctor(SIface, tagOf(t), NilPtr(), box(v))
}

func fromIface(v *Term, t types.Type) *Term {
	s := sortOf(t)
	if s == SPtr {
		return IP(v)
	}
	return unbox(IV(v), s)
}

// SubObjs: struct-typed fields modelled as objects of their own, at an address derived from the owner's.
var SubObjs = map[string]bool{}

func isSub(t types.Type, i int) bool {
	if len(SubObjs) == 0 {
		return false
	}
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	u, ok := structOf(t)
	return ok && SubObjs[relPkg(n.Obj().Pkg())+"."+n.Obj().Name()+"."+u.Field(i).Name()]
}

// SubPtr is the address of field i of the struct at p: an injective function of p, apart from everything allocated.
func SubPtr(p *Term, t types.Type, i int) *Term {
	n := types.Unalias(t).(*types.Named)
	u, _ := structOf(t)
	name := "emb_" + n.Obj().Name() + "_" + u.Field(i).Name()
	if _, ok := funDecls[quote(name)]; !ok {
		DeclFun(name, []string{SPtr}, "Int")
		DeclFun(name+"_inv", []string{"Int"}, SPtr)
		DeclFun("emb_kind", []string{"Int"}, "Int")
		q := BoundVar("p", SPtr)
		e := App(name, "Int", q)
		subKinds++
		axioms = append(axioms, &AxiomT{Name: "subobject " + name, T: Forall([]*Term{q}, [][]*Term{{e}},
			And(Lt(e, IntLit(0)), Eq(App(name+"_inv", SPtr, e), q), Eq(App("emb_kind", "Int", e), IntLit(int64(subKinds))))), Syms: []string{quote(name)}})
	}
	return MkPtr(App(name, "Int", p), IntLit(0))
}

var subKinds int
