package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// ---- expression AST ----

type Expr struct {
	Op   string // "id","int","str","call","sel","idx","slice","un","bin","quant","let","cond","old","paren"
	Name string
	Args []*Expr
	Vars []VarDecl
	Trig [][]*Expr
	Pos  string
}

type VarDecl struct {
	Name string
	Type string
}

func (e *Expr) String() string {
	switch e.Op {
	case "id", "int":
		return e.Name
	case "str":
		return strconv.Quote(e.Name)
	case "call":
		var a []string
		for _, x := range e.Args {
			a = append(a, x.String())
		}
		return e.Name + "(" + strings.Join(a, ", ") + ")"
	case "sel":
		return e.Args[0].String() + "." + e.Name
	case "idx":
		return e.Args[0].String() + "[" + e.Args[1].String() + "]"
	case "un":
		return e.Name + e.Args[0].String()
	case "bin":
		return "(" + e.Args[0].String() + " " + e.Name + " " + e.Args[1].String() + ")"
	case "cond":
		return "(" + e.Args[0].String() + " ? " + e.Args[1].String() + " : " + e.Args[2].String() + ")"
	case "quant":
		var v []string
		for _, d := range e.Vars {
			v = append(v, d.Name+" "+d.Type)
		}
		return "(" + e.Name + " " + strings.Join(v, ", ") + " :: " + e.Args[0].String() + ")"
	case "old":
		return "old(" + e.Args[0].String() + ")"
	case "let":
		return "(let " + e.Name + " = " + e.Args[0].String() + " in " + e.Args[1].String() + ")"
	}
	return e.Op
}

// ---- file items ----

type Clause struct {
	Label string
	E     *Expr
	Src   string
	Pos   string
}

type ModLoc struct {
	// e.f ; obj(e) ; arr(e) ; e[a:b] ; map(e) ; each
	E     *Expr
	Each  *VarDecl
	Where *Expr
	Src   string
}

type LoopSpec struct {
	Split []Clause
	Ord   int
	Invs  []Clause
	Decr  []Clause
	Apply []Clause
	Mods  []ModLoc
	Pre   []Clause
	Lets  []Clause
}

type FuncSpec struct {
	Kind     string // func, extern, iface, functype
	Pkg      string
	Name     string
	Params   []string
	Results  []string
	Props    []string
	Requires []Clause
	Ensures  []Clause
	Modifies []ModLoc
	Decr     []Clause
	Loops    map[int]*LoopSpec
	Lets     []Clause // label = name
	Apply    []Clause
	Trusted  string
	MathInt  bool
	BV       bool
	NoCheck  bool
	Inline   bool
	Pure     bool
	Solver   string
	Opts     map[string]string
	Pos      string
	Impls    []string   // iface: types whose methods must satisfy the contract
	AsIface  types.Type // cloned from an interface contract: the receiver is seen as this type
}

type SpecFun struct {
	Pkg    string
	Name   string
	Params []VarDecl
	Ret    string
	Body   *Expr
	Macro  bool
	Fuel2  bool
	Trig   [][]*Expr
	Pos    string
}

type Lemma struct {
	Pkg      string
	Name     string
	Params   []VarDecl
	Requires []Clause
	Ensures  []Clause
	Induct   string
	Trig     [][]*Expr
	Apply    []Clause
	Axiom    bool
	Pos      string
	Props    []string
	Opts     map[string]string
}

type SpecDB struct {
	Funcs   []*FuncSpec
	ByName  map[string]*FuncSpec
	SFuns   map[string]*SpecFun
	Lemmas  []*Lemma
	Records map[string]bool
	Files   []string
}

var ghosts = map[string]*types.Var{}

var SDB = &SpecDB{ByName: map[string]*FuncSpec{}, SFuns: map[string]*SpecFun{}, Records: map[string]bool{}}

// ---- lexer ----

type tok struct {
	k string // id, int, str, op, eof
	s string
}

func lexExpr(s, pos string) []tok {
	var out []tok
	i := 0
	for i < len(s) {
		c := s[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r':
			i++
		case c == '$' || c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z':
			j := i
			for j < len(s) && (s[j] == '_' || s[j] == '$' || s[j] >= 'a' && s[j] <= 'z' || s[j] >= 'A' && s[j] <= 'Z' || s[j] >= '0' && s[j] <= '9') {
				j++
			}
			out = append(out, tok{"id", s[i:j]})
			i = j
		case c >= '0' && c <= '9':
			j := i
			for j < len(s) && (s[j] >= '0' && s[j] <= '9' || s[j] == 'x' || s[j] >= 'a' && s[j] <= 'f' || s[j] >= 'A' && s[j] <= 'F') {
				j++
			}
			out = append(out, tok{"int", s[i:j]})
			i = j
		case c == '"':
			j := i + 1
			for s[j] != '"' {
				if s[j] == '\\' {
					j++
				}
				j++
			}
			v, err := strconv.Unquote(s[i : j+1])
			if err != nil {
				panic(pos + ": bad string " + s[i:j+1])
			}
			out = append(out, tok{"str", v})
			i = j + 1
		case c == '\'':
			j := i + 1
			for s[j] != '\'' {
				if s[j] == '\\' {
					j++
				}
				j++
			}
			r, _, _, err := strconv.UnquoteChar(s[i+1:j], '\'')
			if err != nil {
				panic(pos + ": bad char " + s[i:j+1])
			}
			out = append(out, tok{"int", fmt.Sprint(int(r))})
			i = j + 1
		default:
			ok := false
			for _, op := range []string{"<==>", "==>", "...", "::", "<=", ">=", "==", "!=", "&&", "||"} {
				if strings.HasPrefix(s[i:], op) {
					out = append(out, tok{"op", op})
					i += len(op)
					ok = true
					break
				}
			}
			if !ok {
				out = append(out, tok{"op", string(c)})
				i++
			}
		}
	}
	return append(out, tok{"eof", ""})
}

type eparser struct {
	ts  []tok
	i   int
	pos string
	src string
}

func (p *eparser) peek() tok { return p.ts[p.i] }
func (p *eparser) is(s string) bool {
	return p.ts[p.i].s == s && p.ts[p.i].k != "str" && p.ts[p.i].k != "eof"
}
func (p *eparser) acc(s string) bool {
	if p.is(s) {
		p.i++
		return true
	}
	return false
}
func (p *eparser) fail(m string) {
	panic(fmt.Sprintf("%s: %s near token %d %q in: %s", p.pos, m, p.i, p.peek().s, p.src))
}
func (p *eparser) want(s string) {
	if !p.acc(s) {
		p.fail("expected " + s)
	}
}
func (p *eparser) ident() string {
	t := p.peek()
	if t.k != "id" {
		p.fail("expected identifier")
	}
	p.i++
	return t.s
}

func parseExpr(src, pos string) *Expr {
	p := &eparser{lexExpr(src, pos), 0, pos, src}
	e := p.expr()
	if p.peek().k != "eof" {
		p.fail("trailing input")
	}
	return e
}

func (p *eparser) mk(op, name string, args ...*Expr) *Expr {
	return &Expr{Op: op, Name: name, Args: args, Pos: p.pos}
}

// type: textual, until delimiter
func (p *eparser) typ() string {
	switch {
	case p.acc("*"):
		return "*" + p.typ()
	case p.acc("["):
		if p.acc("]") {
			return "[]" + p.typ()
		}
		n := p.peek().s
		p.i++
		p.want("]")
		return "[" + n + "]" + p.typ()
	}
	n := p.ident()
	if n == "map" {
		p.want("[")
		k := p.typ()
		p.want("]")
		return "map[" + k + "]" + p.typ()
	}
	if n == "func" {
		// func types only by name
		p.fail("func type literal")
	}
	if p.acc(".") {
		n += "." + p.ident()
	}
	if p.is("[") {
		p.i++
		n += "[" + p.typ()
		for p.acc(",") {
			n += "," + p.typ()
		}
		p.want("]")
		n += "]"
	}
	return n
}

func (p *eparser) varDecls() []VarDecl {
	var out []VarDecl
	var pend []string
	for {
		n := p.ident()
		if p.is(",") {
			pend = append(pend, n)
			p.i++
			continue
		}
		t := p.typ()
		for _, x := range pend {
			out = append(out, VarDecl{x, t})
		}
		pend = nil
		out = append(out, VarDecl{n, t})
		if !p.acc(",") {
			return out
		}
	}
}

func (p *eparser) trigs() [][]*Expr {
	var out [][]*Expr
	for p.acc("{") {
		var tr []*Expr
		tr = append(tr, p.expr())
		for p.acc(",") {
			tr = append(tr, p.expr())
		}
		p.want("}")
		out = append(out, tr)
	}
	return out
}

func (p *eparser) expr() *Expr {
	if p.is("forall") || p.is("exists") {
		n := p.ident()
		vs := p.varDecls()
		p.want("::")
		tr := p.trigs()
		b := p.expr()
		e := p.mk("quant", n, b)
		e.Vars = vs
		e.Trig = tr
		return e
	}
	if p.is("let") {
		p.i++
		n := p.ident()
		p.want("=")
		v := p.expr()
		p.want("in")
		b := p.expr()
		return p.mk("let", n, v, b)
	}
	c := p.impl()
	if p.acc("?") {
		a := p.expr()
		p.want(":")
		b := p.expr()
		return p.mk("cond", "", c, a, b)
	}
	return c
}

func (p *eparser) impl() *Expr {
	l := p.or()
	if p.acc("==>") {
		var r *Expr
		if p.is("forall") || p.is("exists") || p.is("let") {
			r = p.expr()
		} else {
			r = p.impl()
		}
		return p.mk("bin", "==>", l, r)
	}
	if p.acc("<==>") {
		r := p.or()
		return p.mk("bin", "<==>", l, r)
	}
	return l
}
func (p *eparser) or() *Expr {
	l := p.and()
	for p.acc("||") {
		l = p.mk("bin", "||", l, p.and())
	}
	return l
}
func (p *eparser) and() *Expr {
	l := p.cmp()
	for p.acc("&&") {
		if p.is("forall") || p.is("exists") || p.is("let") {
			return p.mk("bin", "&&", l, p.expr())
		}
		l = p.mk("bin", "&&", l, p.cmp())
	}
	return l
}
func (p *eparser) cmp() *Expr {
	l := p.add()
	var res *Expr
	for {
		op := ""
		for _, o := range []string{"<=", ">=", "==", "!=", "<", ">"} {
			if p.is(o) {
				op = o
			}
		}
		if op == "" {
			break
		}
		p.i++
		r := p.add()
		c := p.mk("bin", op, l, r)
		if res == nil {
			res = c
		} else {
			res = p.mk("bin", "&&", res, c)
		}
		l = r
	}
	if res != nil {
		return res
	}
	return l
}
func (p *eparser) add() *Expr {
	l := p.mul()
	for p.is("+") || p.is("-") {
		o := p.peek().s
		p.i++
		l = p.mk("bin", o, l, p.mul())
	}
	return l
}
func (p *eparser) mul() *Expr {
	l := p.un()
	for p.is("*") || p.is("/") || p.is("%") {
		o := p.peek().s
		p.i++
		l = p.mk("bin", o, l, p.un())
	}
	return l
}
func (p *eparser) un() *Expr {
	if p.acc("!") {
		return p.mk("un", "!", p.un())
	}
	if p.acc("-") {
		return p.mk("un", "-", p.un())
	}
	if p.acc("*") {
		return p.mk("un", "*", p.un())
	}
	return p.post(p.prim())
}
func (p *eparser) prim() *Expr {
	t := p.peek()
	switch t.k {
	case "int":
		p.i++
		return p.mk("int", t.s)
	case "str":
		p.i++
		return p.mk("str", t.s)
	case "id":
		p.i++
		if t.s == "old" && p.is("(") {
			p.i++
			e := p.expr()
			p.want(")")
			return p.mk("old", "", e)
		}
		if (t.s == "typeis" || t.s == "cast" || t.s == "zero" || t.s == "heapeq") && p.is("(") {
			p.i++
			e := p.mk("call", t.s)
			if t.s == "zero" {
				e.Vars = []VarDecl{{"", p.typ()}}
				p.want(")")
				return e
			}
			e.Args = append(e.Args, p.expr())
			p.want(",")
			e.Vars = []VarDecl{{"", p.typ()}}
			p.want(")")
			return e
		}
		if p.is("(") {
			return p.call(t.s)
		}
		return p.mk("id", t.s)
	}
	if p.acc("(") {
		e := p.expr()
		p.want(")")
		return e
	}
	p.fail("expression expected")
	return nil
}
func (p *eparser) call(n string) *Expr {
	p.want("(")
	e := p.mk("call", n)
	if p.acc(")") {
		return e
	}
	e.Args = append(e.Args, p.expr())
	for p.acc(",") {
		e.Args = append(e.Args, p.expr())
	}
	p.want(")")
	return e
}
func (p *eparser) post(e *Expr) *Expr {
	for {
		switch {
		case p.acc("."):
			n := p.ident()
			if p.is("(") && e.Op == "id" {
				// qualified call pkg.f(...)
				e = p.call(e.Name + "." + n)
			} else {
				e = p.mk("sel", n, e)
			}
		case p.acc("["):
			if p.acc(":") {
				hi := p.expr()
				p.want("]")
				e = p.mk("slice", "", e, p.mk("int", "0"), hi)
				continue
			}
			i := p.expr()
			if p.acc(":") {
				if p.acc("]") {
					e = p.mk("slice", "", e, i, p.mk("call", "len", e))
					continue
				}
				j := p.expr()
				p.want("]")
				e = p.mk("slice", "", e, i, j)
				continue
			}
			p.want("]")
			e = p.mk("idx", "", e, i)
		default:
			return e
		}
	}
}

// ---- file parsing ----

var clauseKW = map[string]bool{"requires": true, "ensures": true, "modifies": true, "loop": true, "invariant": true,
	"decreases": true, "props": true, "returns": true, "trusted": true, "mathint": true, "apply": true, "induction": true,
	"trigger": true, "let": true, "bv": true, "inline": true, "pure": true, "opt": true, "nocheck": true, "pre": true, "impls": true, "split": true}

var topKW = map[string]bool{"package": true, "record": true, "subobj": true, "def": true, "spec": true, "spec2": true, "ufun": true, "axiom": true, "lemma": true,
	"func": true, "extern": true, "iface": true, "functype": true, "ghost": true}

func firstWord(s string) (string, string) {
	s = strings.TrimSpace(s)
	i := 0
	for i < len(s) && (s[i] >= 'a' && s[i] <= 'z' || s[i] == '2') {
		i++
	}
	return s[:i], strings.TrimSpace(s[i:])
}

func stripComment(l string) string {
	inS := false
	for i := 0; i < len(l); i++ {
		switch l[i] {
		case '"':
			if i == 0 || l[i-1] != '\\' {
				inS = !inS
			}
		case '#':
			if !inS {
				return l[:i]
			}
		case '/':
			if !inS && i+1 < len(l) && l[i+1] == '/' {
				return l[:i]
			}
		}
	}
	return l
}

type rawClause struct {
	kw, text, pos string
}
type rawItem struct {
	kw, text, pos string
	cl            []rawClause
}

func loadSpecs(dir string) {
	files, _ := filepath.Glob(filepath.Join(dir, "*.vc"))
	sort.Strings(files)
	for _, f := range files {
		SDB.Files = append(SDB.Files, f)
		data, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		var items []*rawItem
		for n, l := range strings.Split(string(data), "\n") {
			l = stripComment(l)
			if strings.TrimSpace(l) == "" {
				continue
			}
			pos := fmt.Sprintf("%s:%d", filepath.Base(f), n+1)
			if l[0] != ' ' && l[0] != '\t' {
				kw, rest := firstWord(l)
				if !topKW[kw] {
					panic(pos + ": unknown item " + l)
				}
				items = append(items, &rawItem{kw: kw, text: rest, pos: pos})
				continue
			}
			if len(items) == 0 {
				panic(pos + ": clause without item")
			}
			it := items[len(items)-1]
			kw, rest := firstWord(l)
			if clauseKW[kw] && !((it.kw == "def" || it.kw == "spec" || it.kw == "spec2" || it.kw == "axiom") && kw != "trigger" && kw != "props") {
				it.cl = append(it.cl, rawClause{kw, rest, pos})
			} else if len(it.cl) > 0 {
				it.cl[len(it.cl)-1].text += " " + strings.TrimSpace(l)
			} else {
				it.text += " " + strings.TrimSpace(l)
			}
		}
		pkg := ""
		for _, it := range items {
			pkg = addItem(it, pkg)
		}
	}
}

func splitLabel(s string) (string, string) {
	// "label: expr" where label is an identifier not followed by "::"
	i := 0
	for i < len(s) && (s[i] == '_' || s[i] == '-' || s[i] >= 'a' && s[i] <= 'z' || s[i] >= 'A' && s[i] <= 'Z' || s[i] >= '0' && s[i] <= '9') {
		i++
	}
	if i > 0 && i+1 < len(s) && s[i] == ':' && s[i+1] != ':' {
		return s[:i], strings.TrimSpace(s[i+1:])
	}
	return "", s
}

func mkClause(c rawClause) Clause {
	l, t := splitLabel(c.text)
	return Clause{Label: l, E: parseExpr(t, c.pos), Src: t, Pos: c.pos}
}

func parseMods(c rawClause) []ModLoc {
	t := strings.TrimSpace(c.text)
	if t == "nothing" {
		return nil
	}
	if strings.HasPrefix(t, "each ") {
		p := &eparser{lexExpr(t[5:], c.pos), 0, c.pos, t}
		n := p.ident()
		ty := p.typ()
		vd := &VarDecl{n, ty}
		if p.ident() != "where" {
			p.fail("expected where")
		}
		w := p.expr()
		p.want(":")
		var out []ModLoc
		for {
			e := p.expr()
			out = append(out, ModLoc{E: e, Each: vd, Where: w, Src: t})
			if !p.acc(",") {
				break
			}
		}
		return out
	}
	p := &eparser{lexExpr(t, c.pos), 0, c.pos, t}
	var out []ModLoc
	for {
		e := p.expr()
		out = append(out, ModLoc{E: e, Src: t})
		if !p.acc(",") {
			break
		}
	}
	if p.peek().k != "eof" {
		p.fail("trailing")
	}
	return out
}

func parseNames(s string) []string {
	s = strings.TrimSpace(s)
	s = strings.TrimPrefix(s, "(")
	s = strings.TrimSuffix(s, ")")
	var out []string
	for _, x := range strings.Split(s, ",") {
		x = strings.TrimSpace(x)
		if x != "" {
			out = append(out, x)
		}
	}
	return out
}

func addItem(it *rawItem, pkg string) string {
	switch it.kw {
	case "package":
		return strings.TrimSpace(it.text)
	case "record":
		for _, n := range strings.Split(it.text, ",") {
			SDB.Records[pkg+"."+strings.TrimSpace(n)] = true
		}
	case "subobj":
		// subobj T.f: the struct field f of T is an object of its own (its address is taken)
		for _, n := range strings.Split(it.text, ",") {
			SubObjs[pkg+"."+strings.TrimSpace(n)] = true
		}
	case "ghost":
		// ghost variable: an abstract value kept in a heap cell of its own
		n := strings.TrimSpace(it.text)
		gp := types.NewPackage("$ghost", "$ghost")
		nt := types.NewNamed(types.NewTypeName(token.NoPos, gp, n, nil), types.NewChan(types.SendRecv, types.Typ[types.Int]), nil)
		ghosts[n] = types.NewVar(token.NoPos, gp, n, nt)
	case "def", "spec", "spec2", "ufun":
		p := &eparser{lexExpr(it.text, it.pos), 0, it.pos, it.text}
		sf := &SpecFun{Pkg: pkg, Pos: it.pos, Macro: it.kw == "def", Fuel2: it.kw == "spec2"}
		sf.Name = p.ident()
		p.want("(")
		if !p.acc(")") {
			sf.Params = p.varDecls()
			p.want(")")
		}
		sf.Ret = p.typ()
		if it.kw != "ufun" {
			p.want("=")
			sf.Body = p.expr()
		}
		if p.peek().k != "eof" {
			p.fail("trailing input")
		}
		if SDB.SFuns[sf.Name] != nil {
			panic(it.pos + ": duplicate spec function " + sf.Name)
		}
		SDB.SFuns[sf.Name] = sf
	case "axiom", "lemma":
		p := &eparser{lexExpr(it.text, it.pos), 0, it.pos, it.text}
		lm := &Lemma{Pkg: pkg, Pos: it.pos, Axiom: it.kw == "axiom", Opts: map[string]string{}}
		lm.Name = p.ident()
		if p.acc("(") {
			if !p.acc(")") {
				lm.Params = p.varDecls()
				p.want(")")
			}
		}
		if p.acc(":") {
			e := p.expr()
			lm.Ensures = append(lm.Ensures, Clause{E: e, Src: e.String(), Pos: it.pos})
		}
		if p.peek().k != "eof" {
			p.fail("trailing input")
		}
		for _, c := range it.cl {
			switch c.kw {
			case "requires":
				lm.Requires = append(lm.Requires, mkClause(c))
			case "ensures":
				lm.Ensures = append(lm.Ensures, mkClause(c))
			case "induction":
				lm.Induct = strings.TrimSpace(c.text)
			case "apply":
				lm.Apply = append(lm.Apply, mkClause(c))
			case "props":
				lm.Props = append(lm.Props, strings.Fields(strings.ReplaceAll(c.text, ",", " "))...)
			case "opt":
				kv := strings.SplitN(c.text, "=", 2)
				v := "1"
				if len(kv) > 1 {
					v = strings.TrimSpace(kv[1])
				}
				lm.Opts[strings.TrimSpace(kv[0])] = v
			case "trigger":
				q := &eparser{lexExpr(c.text, c.pos), 0, c.pos, c.text}
				lm.Trig = q.trigs()
			default:
				panic(c.pos + ": bad lemma clause " + c.kw)
			}
		}
		SDB.Lemmas = append(SDB.Lemmas, lm)
	case "func", "extern", "iface", "functype":
		fs := &FuncSpec{Kind: it.kw, Pkg: pkg, Pos: it.pos, Loops: map[int]*LoopSpec{}, Opts: map[string]string{}}
		t := strings.TrimSpace(it.text)
		// name is up to the final "(params)"
		i := strings.LastIndex(t, "(")
		fs.Name = strings.TrimSpace(t[:i])
		fs.Params = parseNames(t[i:])
		var cur *LoopSpec
		for _, c := range it.cl {
			switch c.kw {
			case "returns":
				fs.Results = parseNames(c.text)
			case "props":
				fs.Props = append(fs.Props, strings.Fields(strings.ReplaceAll(c.text, ",", " "))...)
			case "impls":
				fs.Impls = append(fs.Impls, strings.Fields(c.text)...)
			case "requires":
				fs.Requires = append(fs.Requires, mkClause(c))
			case "ensures":
				fs.Ensures = append(fs.Ensures, mkClause(c))
			case "let":
				kv := strings.SplitN(c.text, "=", 2)
				lc := Clause{Label: strings.TrimSpace(kv[0]), E: parseExpr(kv[1], c.pos), Src: kv[1], Pos: c.pos}
				if cur != nil {
					cur.Lets = append(cur.Lets, lc)
				} else {
					fs.Lets = append(fs.Lets, lc)
				}
			case "pre":
				kv := strings.SplitN(c.text, "=", 2)
				cur.Pre = append(cur.Pre, Clause{Label: strings.TrimSpace(kv[0]), E: parseExpr(kv[1], c.pos), Src: kv[1], Pos: c.pos})
			case "modifies":
				if cur != nil {
					cur.Mods = append(cur.Mods, parseMods(c)...)
				} else {
					fs.Modifies = append(fs.Modifies, parseMods(c)...)
				}
			case "loop":
				n, err := strconv.Atoi(strings.TrimSpace(c.text))
				if err != nil {
					panic(c.pos + ": loop ordinal")
				}
				n--
				cur = &LoopSpec{Ord: n}
				fs.Loops[n] = cur
			case "split":
				cur.Split = append(cur.Split, mkClause(c))
			case "invariant":
				cur.Invs = append(cur.Invs, mkClause(c))
			case "decreases":
				if cur != nil {
					cur.Decr = append(cur.Decr, mkClause(c))
				} else {
					fs.Decr = append(fs.Decr, mkClause(c))
				}
			case "apply":
				if cur != nil {
					cur.Apply = append(cur.Apply, mkClause(c))
				} else {
					fs.Apply = append(fs.Apply, mkClause(c))
				}
			case "trusted":
				fs.Trusted = c.text
				if fs.Trusted == "" {
					fs.Trusted = "trusted"
				}
			case "mathint":
				fs.MathInt = true
			case "bv":
				fs.BV = true
			case "inline":
				fs.Inline = true
			case "nocheck":
				fs.NoCheck = true
			case "pure":
				fs.Pure = true
			case "opt":
				kv := strings.SplitN(c.text, "=", 2)
				v := "1"
				if len(kv) > 1 {
					v = strings.TrimSpace(kv[1])
				}
				fs.Opts[strings.TrimSpace(kv[0])] = v
			default:
				panic(c.pos + ": unexpected clause " + c.kw)
			}
		}
		key := fs.Kind + " " + pkg + " " + fs.Name
		if fs.Kind == "extern" {
			key = "extern " + fs.Name
		}
		if SDB.ByName[key] != nil {
			panic(it.pos + ": duplicate contract " + key)
		}
		SDB.ByName[key] = fs
		SDB.Funcs = append(SDB.Funcs, fs)
	}
	return pkg
}

// addImpls: the methods of the types named in impls clauses get the contract of the interface method.
func addImpls() {
	for _, s := range append([]*FuncSpec{}, SDB.Funcs...) {
		if s.Kind != "iface" || len(s.Impls) == 0 {
			continue
		}
		i := strings.Index(s.Name, ")")
		p := pkgOf(s.Pkg)
		if p == nil {
			continue
		}
		o := p.Scope().Lookup(s.Name[1:i])
		if o == nil {
			continue
		}
		for _, t := range s.Impls {
			c := *s
			c.Kind, c.Name, c.Impls, c.AsIface, c.Trusted = "func", "("+t+")"+s.Name[i+1:], nil, o.Type(), ""
			key := "func " + c.Pkg + " " + c.Name
			if SDB.ByName[key] == nil {
				SDB.ByName[key] = &c
				SDB.Funcs = append(SDB.Funcs, &c)
			}
		}
	}
}

// ifaceSpec finds the contract of an interface method, also in embedded interfaces.
func ifaceSpec(n *types.Named, m string) (string, *FuncSpec) {
	key := "iface . (" + n.Obj().Name() + ")." + m
	if n.Obj().Pkg() != nil {
		key = "iface " + relPkg(n.Obj().Pkg()) + " (" + n.Obj().Name() + ")." + m
	}
	if s := SDB.ByName[key]; s != nil {
		return key, s
	}
	if it, ok := n.Underlying().(*types.Interface); ok {
		for i := 0; i < it.NumEmbeddeds(); i++ {
			if e, ok := types.Unalias(it.EmbeddedType(i)).(*types.Named); ok {
				if k, s := ifaceSpec(e, m); s != nil {
					return k, s
				}
			}
		}
	}
	return key, nil
}
