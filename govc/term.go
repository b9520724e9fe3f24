package main

import (
	"fmt"
	"math/big"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

// Term is a hash-consed SMT term.
type Term struct {
	id    int
	op    string // symbol, literal text, or operator
	args  []*Term
	sort  string
	bound bool // mentions a bound variable
	// quantifier
	qvars []*Term
	trigs [][]*Term
}

type TermStore struct {
	tab map[string]*Term
	all []*Term
	nfr int
}

var TS = &TermStore{tab: map[string]*Term{}}

func mk(op, srt string, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(srt)
	for _, a := range args {
		fmt.Fprintf(&sb, ",%d", a.id)
	}
	k := sb.String()
	if t, ok := TS.tab[k]; ok {
		return t
	}
	t := &Term{id: len(TS.all), op: op, sort: srt, args: args}
	for _, a := range args {
		if a.bound {
			t.bound = true
		}
	}
	TS.all = append(TS.all, t)
	TS.tab[k] = t
	return t
}

func quote(n string) string {
	ok := n != ""
	for _, r := range n {
		if !(r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '.' || r == '$' || r == '@' || r == '!') {
			ok = false
			break
		}
	}
	if ok && !(n[0] >= '0' && n[0] <= '9') {
		return n
	}
	return "|" + strings.ReplaceAll(n, "|", "!") + "|"
}

// symbols declared: name -> signature
type FunSig struct {
	args []string
	ret  string
}

var funDecls = map[string]FunSig{}
var freshCnt int

func Const(name, srt string) *Term {
	q := quote(name)
	for n := 2; ; n++ {
		d, ok := funDecls[q]
		if !ok {
			funDecls[q] = FunSig{nil, srt}
			break
		}
		if d.ret == srt && len(d.args) == 0 {
			break
		}
		q = quote(fmt.Sprintf("%s~%d", name, n))
	}
	return mk(q, srt)
}

func Fresh(prefix, srt string) *Term {
	freshCnt++
	return Const(fmt.Sprintf("%s!%d", prefix, freshCnt), srt)
}

func BoundVar(name, srt string) *Term {
	freshCnt++
	q := quote(fmt.Sprintf("%s?%d", name, freshCnt))
	t := mk(q, srt)
	t.bound = true
	return t
}

func DeclFun(name string, args []string, ret string) string {
	q := quote(name)
	funDecls[q] = FunSig{args, ret}
	return q
}

func App(f string, ret string, args ...*Term) *Term { return mk(quote(f), ret, args...) }

var (
	True  = mk("true", "Bool")
	False = mk("false", "Bool")
)

var bvMode bool

func intSort() string {
	if bvMode {
		return "(_ BitVec 72)"
	}
	return "Int"
}

func IntLit(n int64) *Term { return BigLit(big.NewInt(n)) }
func BigLit(n *big.Int) *Term {
	if bvMode {
		m := new(big.Int).Mod(n, new(big.Int).Lsh(big.NewInt(1), 72))
		return mk(fmt.Sprintf("#x%018x", m), "(_ BitVec 72)")
	}
	return mk(n.String(), "Int")
}

func (t *Term) lit() (*big.Int, bool) {
	if len(t.args) != 0 || t.sort != "Int" {
		return nil, false
	}
	c := t.op[0]
	if c >= '0' && c <= '9' || c == '-' && len(t.op) > 1 {
		n, ok := new(big.Int).SetString(t.op, 10)
		return n, ok
	}
	return nil, false
}

func Not(a *Term) *Term {
	if a == True {
		return False
	}
	if a == False {
		return True
	}
	if a.op == "not" {
		return a.args[0]
	}
	return mk("not", "Bool", a)
}

func And(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, a := range as {
		if a == True || seen[a] {
			continue
		}
		if a == False {
			return False
		}
		if a.op == "and" {
			for _, b := range a.args {
				if !seen[b] {
					seen[b] = true
					out = append(out, b)
				}
			}
			continue
		}
		seen[a] = true
		out = append(out, a)
	}
	for _, a := range out {
		if a.op == "not" && seen[a.args[0]] {
			return False
		}
	}
	if len(out) == 0 {
		return True
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("and", "Bool", out...)
}

func Or(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, a := range as {
		if a == False || seen[a] {
			continue
		}
		if a == True {
			return True
		}
		seen[a] = true
		out = append(out, a)
	}
	for _, a := range out {
		if a.op == "not" && seen[a.args[0]] {
			return True
		}
	}
	if len(out) == 0 {
		return False
	}
	if len(out) == 1 {
		return out[0]
	}
	// factor common conjuncts: (a and c) or (a and not c) = a
	if len(out) == 2 {
		if r := orFactor(out[0], out[1]); r != nil {
			return r
		}
	}
	return mk("or", "Bool", out...)
}

func conj(t *Term) []*Term {
	if t.op == "and" {
		return t.args
	}
	return []*Term{t}
}

func orFactor(a, b *Term) *Term {
	ca, cb := conj(a), conj(b)
	inB := map[*Term]bool{}
	for _, x := range cb {
		inB[x] = true
	}
	inA := map[*Term]bool{}
	for _, x := range ca {
		inA[x] = true
	}
	var common, ra, rb []*Term
	for _, x := range ca {
		if inB[x] {
			common = append(common, x)
		} else {
			ra = append(ra, x)
		}
	}
	for _, x := range cb {
		if !inA[x] {
			rb = append(rb, x)
		}
	}
	if len(common) == 0 {
		return nil
	}
	if len(ra) == 0 || len(rb) == 0 {
		return And(common...)
	}
	x, y := And(ra...), And(rb...)
	if x == Not(y) || y == Not(x) {
		return And(common...)
	}
	return And(append(common, mk("or", "Bool", x, y))...)
}

func Implies(a, b *Term) *Term {
	if a == True {
		return b
	}
	if a == False || b == True || a == b {
		return True
	}
	if b == False {
		return Not(a)
	}
	return mk("=>", "Bool", a, b)
}

func Iff(a, b *Term) *Term { return Eq(a, b) }

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("Eq sort mismatch: %s : %s  vs  %s : %s", a.Str(), a.sort, b.Str(), b.sort))
	}
	if x, ok := a.lit(); ok {
		if y, ok := b.lit(); ok {
			if x.Cmp(y) == 0 {
				return True
			}
			return False
		}
	}
	if a == True {
		return b
	}
	if b == True {
		return a
	}
	if a == False {
		return Not(b)
	}
	if b == False {
		return Not(a)
	}
	if isCtor(a.op) && a.op == b.op {
		cs := make([]*Term, len(a.args))
		for i := range a.args {
			cs[i] = Eq(a.args[i], b.args[i])
		}
		return And(cs...)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("=", "Bool", a, b)
}

func Ite(c, a, b *Term) *Term {
	if c == True || a == b {
		return a
	}
	if c == False {
		return b
	}
	if a.sort != b.sort {
		panic("Ite sort mismatch " + a.sort + " " + b.sort)
	}
	if a.sort == "Bool" {
		if a == True {
			return Or(c, b)
		}
		if a == False {
			return And(Not(c), b)
		}
		if b == True {
			return Or(Not(c), a)
		}
		if b == False {
			return And(c, a)
		}
	}
	if c.op == "not" {
		return mk("ite", a.sort, c.args[0], b, a)
	}
	return mk("ite", a.sort, c, a, b)
}

func Add(a, b *Term) *Term {
	if bvMode {
		return mk("bvadd", a.sort, a, b)
	}
	x, ok1 := a.lit()
	y, ok2 := b.lit()
	if ok1 && ok2 {
		return BigLit(new(big.Int).Add(x, y))
	}
	if ok1 && x.Sign() == 0 {
		return b
	}
	if ok2 && y.Sign() == 0 {
		return a
	}
	if ok1 {
		a, b = b, a
		y, ok2 = x, true
	}
	// (a + c) + d
	if ok2 && a.op == "+" && len(a.args) == 2 {
		if z, ok := a.args[1].lit(); ok {
			return Add(a.args[0], BigLit(new(big.Int).Add(y, z)))
		}
	}
	if ok2 && a.op == "-" && len(a.args) == 2 {
		if z, ok := a.args[1].lit(); ok {
			return Add(a.args[0], BigLit(new(big.Int).Sub(y, z)))
		}
	}
	return mk("+", "Int", a, b)
}

func Sub(a, b *Term) *Term {
	if bvMode {
		return mk("bvsub", a.sort, a, b)
	}
	if a == b {
		return IntLit(0)
	}
	if y, ok := b.lit(); ok {
		return Add(a, BigLit(new(big.Int).Neg(y)))
	}
	// (x + c) - x
	if a.op == "+" && len(a.args) == 2 {
		if a.args[0] == b {
			return a.args[1]
		}
		if a.args[1] == b {
			return a.args[0]
		}
	}
	return mk("-", "Int", a, b)
}

func Mul(a, b *Term) *Term {
	if bvMode {
		return mk("bvmul", a.sort, a, b)
	}
	x, ok1 := a.lit()
	y, ok2 := b.lit()
	if ok1 && ok2 {
		return BigLit(new(big.Int).Mul(x, y))
	}
	return mk("*", "Int", a, b)
}

func Le(a, b *Term) *Term {
	if bvMode {
		return mk("bvsle", "Bool", a, b)
	}
	if a == b {
		return True
	}
	x, ok1 := a.lit()
	y, ok2 := b.lit()
	if ok1 && ok2 {
		if x.Cmp(y) <= 0 {
			return True
		}
		return False
	}
	return mk("<=", "Bool", a, b)
}
func Lt(a, b *Term) *Term {
	if bvMode {
		return mk("bvslt", "Bool", a, b)
	}
	return Not(Le(b, a))
}
func Ge(a, b *Term) *Term { return Le(b, a) }
func Gt(a, b *Term) *Term { return Lt(b, a) }

func Div(a, b *Term) *Term { // SMT floor/euclid div
	x, ok1 := a.lit()
	y, ok2 := b.lit()
	if ok1 && ok2 && y.Sign() > 0 {
		q, m := new(big.Int).DivMod(x, y, new(big.Int))
		_ = m
		return BigLit(q)
	}
	return mk("div", "Int", a, b)
}
func Mod(a, b *Term) *Term {
	x, ok1 := a.lit()
	y, ok2 := b.lit()
	if ok1 && ok2 && y.Sign() > 0 {
		return BigLit(new(big.Int).Mod(x, y))
	}
	return mk("mod", "Int", a, b)
}

func ArrSort(i, e string) string { return "(Array " + i + " " + e + ")" }

func arrElem(s string) string {
	// "(Array I E)" -> E
	s = strings.TrimSuffix(strings.TrimPrefix(s, "(Array "), ")")
	d := 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(':
			d++
		case ')':
			d--
		case '|':
			j := strings.IndexByte(s[i+1:], '|')
			i += j + 1
		case ' ':
			if d == 0 {
				return s[i+1:]
			}
		}
	}
	panic("arrElem " + s)
}
func arrIdx(s string) string {
	s = strings.TrimSuffix(strings.TrimPrefix(s, "(Array "), ")")
	d := 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(':
			d++
		case ')':
			d--
		case '|':
			j := strings.IndexByte(s[i+1:], '|')
			i += j + 1
		case ' ':
			if d == 0 {
				return s[:i]
			}
		}
	}
	panic("arrIdx " + s)
}

func Select(a, i *Term) *Term {
	if a.op == "store" {
		if a.args[1] == i {
			return a.args[2]
		}
		x, ok1 := a.args[1].lit()
		y, ok2 := i.lit()
		if ok1 && ok2 && x.Cmp(y) != 0 {
			return Select(a.args[0], i)
		}
		if distinctIdx(a.args[1], i) {
			return Select(a.args[0], i)
		}
	}
	if strings.HasPrefix(a.op, "(as const ") {
		return a.args[0]
	}
	if i.sort != arrIdx(a.sort) {
		panic("Select index sort: " + a.sort + " at " + i.sort)
	}
	return mk("select", arrElem(a.sort), a, i)
}

// distinctIdx recognises x+c1 vs x+c2 with c1 != c2
func distinctIdx(a, b *Term) bool {
	if a.sort != "Int" || b.sort != "Int" {
		return false
	}
	ba, ca := splitOff(a)
	bb, cb := splitOff(b)
	return ba == bb && ca.Cmp(cb) != 0
}
func splitOff(a *Term) (*Term, *big.Int) {
	if a.op == "+" && len(a.args) == 2 {
		if z, ok := a.args[1].lit(); ok {
			return a.args[0], z
		}
	}
	return a, big.NewInt(0)
}

func Store(a, i, v *Term) *Term {
	if v.sort != arrElem(a.sort) {
		panic("Store value sort: " + a.sort + " <- " + v.sort + " " + v.Str())
	}
	if i.sort != arrIdx(a.sort) {
		panic("Store index sort: " + a.sort + " at " + i.sort)
	}
	if a.op == "store" && a.args[1] == i {
		a = a.args[0]
	}
	if v.op == "select" && v.args[0] == a && v.args[1] == i {
		return a
	}
	return mk("store", a.sort, a, i, v)
}

func ConstArr(srt string, v *Term) *Term {
	return mk("(as const "+srt+")", srt, v)
}

var quantCnt int

func Forall(vars []*Term, trigs [][]*Term, body *Term) *Term {
	return quantT("forall", vars, trigs, body)
}
func Exists(vars []*Term, trigs [][]*Term, body *Term) *Term {
	return quantT("exists", vars, trigs, body)
}
func quantT(kind string, vars []*Term, trigs [][]*Term, body *Term) *Term {
	if body == True && kind == "forall" {
		return True
	}
	if body == False && kind == "exists" {
		return False
	}
	t := &Term{id: len(TS.all), op: kind, sort: "Bool", args: []*Term{body}, qvars: vars, trigs: trigs}
	TS.all = append(TS.all, t)
	free := map[*Term]bool{}
	freeVars(t, map[*Term]bool{}, free)
	t.bound = len(free) > 0
	return t
}

func freeVars(t *Term, bnd map[*Term]bool, out map[*Term]bool) {
	if !t.bound && t.op != "forall" && t.op != "exists" {
		return
	}
	if len(t.args) == 0 && t.bound {
		if !bnd[t] {
			out[t] = true
		}
		return
	}
	if t.op == "forall" || t.op == "exists" {
		nb := map[*Term]bool{}
		for k := range bnd {
			nb[k] = true
		}
		for _, v := range t.qvars {
			nb[v] = true
		}
		freeVars(t.args[0], nb, out)
		for _, tr := range t.trigs {
			for _, x := range tr {
				freeVars(x, nb, out)
			}
		}
		return
	}
	for _, a := range t.args {
		freeVars(a, bnd, out)
	}
}

// Subst replaces terms (by identity).
func Subst(t *Term, m map[*Term]*Term, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	ch := false
	na := make([]*Term, len(t.args))
	for i, a := range t.args {
		na[i] = Subst(a, m, memo)
		if na[i] != a {
			ch = true
		}
	}
	r := t
	if t.op == "forall" || t.op == "exists" {
		var nt [][]*Term
		for _, tr := range t.trigs {
			var x []*Term
			for _, y := range tr {
				z := Subst(y, m, memo)
				if z != y {
					ch = true
				}
				x = append(x, z)
			}
			nt = append(nt, x)
		}
		if ch {
			r = quantT(t.op, t.qvars, nt, na[0])
		}
	} else if ch {
		r = rebuild(t, na)
	}
	memo[t] = r
	return r
}

func rebuild(t *Term, na []*Term) *Term {
	switch t.op {
	case "select":
		return Select(na[0], na[1])
	case "store":
		return Store(na[0], na[1], na[2])
	case "and":
		return And(na...)
	case "or":
		return Or(na...)
	case "not":
		return Not(na[0])
	case "=>":
		return Implies(na[0], na[1])
	case "ite":
		return Ite(na[0], na[1], na[2])
	case "=":
		return Eq(na[0], na[1])
	}
	if !bvMode {
		switch t.op {
		case "+":
			if len(na) == 2 {
				return Add(na[0], na[1])
			}
		case "-":
			if len(na) == 2 {
				return Sub(na[0], na[1])
			}
		case "<=":
			return Le(na[0], na[1])
		}
	}
	if acc, ok := accIndex[t.op]; ok {
		return mkAcc(t.op, t.sort, acc, na[0])
	}
	return mk(t.op, t.sort, na...)
}

func (t *Term) Str() string {
	if len(t.args) == 0 {
		if t.sort == "Int" && strings.HasPrefix(t.op, "-") {
			return "(- " + t.op[1:] + ")"
		}
		return t.op
	}
	var sb strings.Builder
	writeTerm(&sb, t, nil)
	return sb.String()
}

func writeTerm(sb *strings.Builder, t *Term, names map[*Term]string) {
	if names != nil {
		if n, ok := names[t]; ok {
			sb.WriteString(n)
			return
		}
	}
	writeNode(sb, t, names)
}

func writeNode(sb *strings.Builder, t *Term, names map[*Term]string) {
	if t.op == "forall" || t.op == "exists" {
		sb.WriteString("(" + t.op + " (")
		for i, v := range t.qvars {
			if i > 0 {
				sb.WriteByte(' ')
			}
			sb.WriteString("(" + v.op + " " + v.sort + ")")
		}
		sb.WriteString(") ")
		if len(t.trigs) > 0 {
			sb.WriteString("(! ")
		}
		writeTerm(sb, t.args[0], names)
		for _, tr := range t.trigs {
			sb.WriteString(" :pattern (")
			for i, x := range tr {
				if i > 0 {
					sb.WriteByte(' ')
				}
				writeTerm(sb, x, names)
			}
			sb.WriteString(")")
		}
		if len(t.trigs) > 0 {
			sb.WriteString(")")
		}
		sb.WriteString(")")
		return
	}
	if len(t.args) == 0 {
		if t.sort == "Int" && strings.HasPrefix(t.op, "-") && len(t.op) > 1 {
			sb.WriteString("(- " + t.op[1:] + ")")
			return
		}
		sb.WriteString(t.op)
		return
	}
	sb.WriteString("(" + t.op)
	for _, a := range t.args {
		sb.WriteByte(' ')
		writeTerm(sb, a, names)
	}
	sb.WriteByte(')')
}

// datatype accessor bookkeeping
var accIndex = map[string]int{}   // accessor op -> field index
var accCtor = map[string]string{} // accessor op -> ctor op
var ctorSet = map[string]bool{}

func isCtor(op string) bool { return ctorSet[op] }

type DT struct {
	sort   string
	ctor   string
	accs   []string
	fsorts []string
}

var dts = map[string]*DT{} // sort -> DT

func declDT(srt, ctor string, accs, fsorts []string) {
	if _, ok := dts[srt]; ok {
		return
	}
	dts[srt] = &DT{srt, ctor, accs, fsorts}
	ctorSet[ctor] = true
	for i, a := range accs {
		accIndex[a] = i
		accCtor[a] = ctor
	}
}

func mkAcc(acc, srt string, i int, t *Term) *Term {
	if t.op == accCtor[acc] {
		return t.args[i]
	}
	if t.op == "ite" && (isCtor(t.args[1].op) || isCtor(t.args[2].op)) {
		return Ite(t.args[0], mkAcc(acc, srt, i, t.args[1]), mkAcc(acc, srt, i, t.args[2]))
	}
	return mk(acc, srt, t)
}

func Acc(srt string, i int, t *Term) *Term {
	d := dts[srt]
	if d == nil || t.sort != srt {
		panic("Acc: " + srt + " on " + t.sort)
	}
	return mkAcc(d.accs[i], d.fsorts[i], i, t)
}
func Ctor(srt string, args ...*Term) *Term {
	d := dts[srt]
	// mk(acc0 x, acc1 x ...) = x
	if len(args) > 0 {
		same := true
		var base *Term
		for i, a := range args {
			if a.sort != d.fsorts[i] {
				panic("Ctor " + srt + " field sort " + d.fsorts[i] + " got " + a.sort)
			}
			if a.op != d.accs[i] || len(a.args) != 1 {
				same = false
				continue
			}
			if base == nil {
				base = a.args[0]
			} else if base != a.args[0] {
				same = false
			}
		}
		if same && base != nil {
			return base
		}
	}
	return mk(d.ctor, srt, args...)
}

const (
	SPtr   = "Ptr"
	SSlice = "Slice"
	SIface = "Iface"
	SStr   = "Str"
)

func init() {
	declDT(SPtr, "mkptr", []string{"po", "pi"}, []string{"Int", "Int"})
	declDT(SSlice, "mkslice", []string{"so", "sf", "sl", "sc"}, []string{"Int", "Int", "Int", "Int"})
	declDT(SIface, "mkif", []string{"it", "ip", "iv"}, []string{"Int", SPtr, "Int"})
}

func PO(p *Term) *Term       { return Acc(SPtr, 0, p) }
func PI(p *Term) *Term       { return Acc(SPtr, 1, p) }
func MkPtr(o, i *Term) *Term { return Ctor(SPtr, o, i) }
func SO(s *Term) *Term       { return Acc(SSlice, 0, s) }

// Ix is the array index of element i of a slice with offset o (o+i, kept as a
// symbol so that it can be matched by triggers).
func Ix(o, i *Term) *Term {
	if bvMode {
		return Add(o, i)
	}
	DeclFun("ix", []string{"Int", "Int"}, "Int")
	return App("ix", "Int", o, i)
}

func SF(s *Term) *Term { return Acc(SSlice, 1, s) }
func SL(s *Term) *Term { return Acc(SSlice, 2, s) }
func SC(s *Term) *Term { return Acc(SSlice, 3, s) }
func MkSlice(o, f, l, c *Term) *Term {
	return Ctor(SSlice, o, f, l, c)
}
func IT(i *Term) *Term { return Acc(SIface, 0, i) }
func IP(i *Term) *Term { return Acc(SIface, 1, i) }
func IV(i *Term) *Term { return Acc(SIface, 2, i) }

func NilPtr() *Term   { return MkPtr(IntLit(0), IntLit(0)) }
func NilSlice() *Term { z := IntLit(0); return MkSlice(z, z, z, z) }
func NilIface() *Term { return Ctor(SIface, IntLit(0), NilPtr(), IntLit(0)) }

// ---- query printing ----

func sortSymbols(s string, f func(string)) {
	// yields user sorts/datatypes mentioned in a sort expression
	cur := ""
	for i := 0; i <= len(s); i++ {
		if i < len(s) && s[i] == '|' {
			j := strings.IndexByte(s[i+1:], '|')
			f(s[i : i+j+2])
			i += j + 1
			cur = ""
			continue
		}
		if i == len(s) || s[i] == ' ' || s[i] == '(' || s[i] == ')' {
			if cur != "" && cur != "Array" && cur != "Int" && cur != "Bool" && cur != "_" && cur != "BitVec" && !(cur[0] >= '0' && cur[0] <= '9') {
				f(cur)
			}
			cur = ""
			continue
		}
		cur += string(s[i])
	}
}

type Printer struct {
	sorts   map[string]bool
	syms    map[string]bool
	visited map[*Term]bool
	refs    map[*Term]int
	order   []*Term
	named   map[*Term]bool
}

var patBad = map[string]bool{"ite": true, "and": true, "or": true, "not": true, "=": true, "=>": true, "<": true, "<=": true, "forall": true, "exists": true, "distinct": true}

func hasBad(t *Term) bool {
	if patBad[t.op] {
		return true
	}
	for _, a := range t.args {
		if hasBad(a) {
			return true
		}
	}
	return false
}

// markPat: ground subterms of a pattern with connectives in them get names.
func (p *Printer) markPat(t *Term) {
	if !t.bound {
		if len(t.args) > 0 && hasBad(t) {
			// name the smallest arguments needed
			if patBad[t.op] {
				p.named[t] = true
				return
			}
			for _, a := range t.args {
				p.markPat(a)
			}
		}
		return
	}
	for _, a := range t.args {
		p.markPat(a)
	}
}

func (p *Printer) visit(t *Term) {
	p.refs[t]++
	if p.visited[t] {
		return
	}
	p.visited[t] = true
	p.addSort(t.sort)
	if t.op == "forall" || t.op == "exists" {
		for _, v := range t.qvars {
			p.addSort(v.sort)
			p.visited[v] = true
		}
		for _, tr := range t.trigs {
			for _, x := range tr {
				p.markPat(x)
				p.visit(x)
			}
		}
	}
	if strings.HasPrefix(t.op, "(as const ") {
		p.addSort(t.sort)
	}
	if _, ok := funDecls[t.op]; ok {
		p.syms[t.op] = true
	}
	for _, a := range t.args {
		p.visit(a)
	}
	p.order = append(p.order, t)
}

func (p *Printer) addSort(s string) {
	sortSymbols(s, func(n string) {
		if p.sorts[n] {
			return
		}
		p.sorts[n] = true
		if d, ok := dts[n]; ok {
			for _, fs := range d.fsorts {
				p.addSort(fs)
			}
		}
	})
}

// collectSyms returns function symbols used in a term set.
func collectSyms(ts []*Term, visited map[*Term]bool, out map[string]bool) {
	var rec func(t *Term)
	rec = func(t *Term) {
		if visited[t] {
			return
		}
		visited[t] = true
		if _, ok := funDecls[t.op]; ok {
			out[t.op] = true
		}
		for _, a := range t.args {
			rec(a)
		}
		for _, tr := range t.trigs {
			for _, x := range tr {
				rec(x)
			}
		}
	}
	for _, t := range ts {
		rec(t)
	}
}

// isValue: built from literals and constructors only (cvc5 wants such terms spelled out in constant arrays)
func isValue(t *Term) bool {
	if len(t.args) == 0 {
		if _, decl := funDecls[t.op]; decl || t.bound {
			return false
		}
		return true
	}
	isCtor := false
	for _, d := range dts {
		if d.ctor == t.op {
			isCtor = true
		}
	}
	if !isCtor {
		return false
	}
	for _, a := range t.args {
		if !isValue(a) {
			return false
		}
	}
	return true
}

// PrintQuery renders assertions to an SMT-LIB script body (no check-sat).
func PrintQuery(asserts []*Term) string {
	p := &Printer{map[string]bool{}, map[string]bool{}, map[*Term]bool{}, map[*Term]int{}, nil, map[*Term]bool{}}
	for _, a := range asserts {
		p.visit(a)
	}
	for s := range p.syms {
		sig := funDecls[s]
		for _, a := range sig.args {
			p.addSort(a)
		}
		p.addSort(sig.ret)
	}
	var sb strings.Builder
	// sorts
	var snames []string
	for s := range p.sorts {
		snames = append(snames, s)
	}
	sort.Strings(snames)
	for _, s := range snames {
		if _, ok := dts[s]; !ok {
			fmt.Fprintf(&sb, "(declare-sort %s 0)\n", s)
		}
	}
	done := map[string]bool{}
	var emit func(s string)
	emit = func(s string) {
		if done[s] {
			return
		}
		done[s] = true
		d, ok := dts[s]
		if !ok {
			return
		}
		for _, fs := range d.fsorts {
			sortSymbols(fs, emit)
		}
		fmt.Fprintf(&sb, "(declare-datatypes ((%s 0)) (((%s", s, d.ctor)
		for i := range d.accs {
			fmt.Fprintf(&sb, " (%s %s)", d.accs[i], d.fsorts[i])
		}
		sb.WriteString("))))\n")
	}
	for _, s := range snames {
		emit(s)
	}
	var fs []string
	for s := range p.syms {
		fs = append(fs, s)
	}
	sort.Slice(fs, func(i, j int) bool {
		a, b := symNum.FindStringIndex(fs[i]), symNum.FindStringIndex(fs[j])
		if a == nil || b == nil {
			return fs[i] < fs[j]
		}
		if fs[i][:a[0]] != fs[j][:b[0]] {
			return fs[i][:a[0]] < fs[j][:b[0]]
		}
		m, _ := strconv.Atoi(fs[i][a[0]+1 : a[1]])
		n, _ := strconv.Atoi(fs[j][b[0]+1 : b[1]])
		return m < n
	})
	for _, s := range fs {
		sig := funDecls[s]
		fmt.Fprintf(&sb, "(declare-fun %s (%s) %s)\n", s, strings.Join(sig.args, " "), sig.ret)
		// functions and closures of the program are not nil
		if n := strings.TrimPrefix(s, "|"); sig.ret == "Int" && len(sig.args) == 0 && (strings.HasPrefix(n, "fn_") || strings.HasPrefix(n, "closure!")) {
			fmt.Fprintf(&sb, "(assert (not (= 0 %s)))\n", s)
		}
	}
	names := map[*Term]string{}
	for _, t := range p.order {
		n := fmt.Sprintf("t!%d", t.id)
		if p.named[t] {
			sb.WriteString("(declare-fun " + n + " () " + t.sort + ")\n(assert (= " + n + " ")
			writeNode(&sb, t, names)
			sb.WriteString("))\n")
			names[t] = n
			continue
		}
		if len(t.args) == 0 || t.bound || p.refs[t] < 2 || isValue(t) {
			continue
		}
		sb.WriteString("(define-fun " + n + " () " + t.sort + " ")
		writeNode(&sb, t, names)
		sb.WriteString(")\n")
		names[t] = n
	}
	for _, a := range asserts {
		sb.WriteString("(assert ")
		writeTerm(&sb, a, names)
		sb.WriteString(")\n")
	}
	// numbers by first occurrence: the query does not depend on what else was verified before
	num := map[string]string{}
	return symNum.ReplaceAllStringFunc(sb.String(), func(m string) string {
		r, ok := num[m]
		if !ok {
			r = fmt.Sprintf("!%d", len(num))
			num[m] = r
		}
		return r
	})
}

var symNum = regexp.MustCompile(`![0-9]+`)
