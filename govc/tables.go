package main

import (
	"go/ast"
	"go/types"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

// Tables: package-level maps built from a literal with constant keys and values and never written to.
// A contract with "opt table=name" may rely on their contents, which are read from the source on every run.

var loadedPkgs []*packages.Package

// tableAssump returns the facts about a table in the given state.
func (x *Exec) tableAssump(pkg *types.Package, name string, st HeapView) *Term {
	o, _ := pkg.Scope().Lookup(name).(*types.Var)
	if o == nil {
		unsup("no package-level variable %s", name)
	}
	m, ok := o.Type().Underlying().(*types.Map)
	if !ok {
		unsup("%s is not a map", name)
	}
	x.checkTableUse(o)
	for _, p := range loadedPkgs {
		if p.Types != pkg {
			continue
		}
		for _, f := range p.Syntax {
			for _, d := range f.Decls {
				gd, ok := d.(*ast.GenDecl)
				if !ok {
					continue
				}
				for _, s := range gd.Specs {
					vs, ok := s.(*ast.ValueSpec)
					if !ok || len(vs.Names) != len(vs.Values) {
						continue
					}
					for i, n := range vs.Names {
						if p.TypesInfo.Defs[n] == o {
							return tableTerm(p, o, m, vs.Values[i], st)
						}
					}
				}
			}
		}
	}
	unsup("no initial value of %s found", name)
	return nil
}

func tableTerm(p *packages.Package, o *types.Var, m *types.Map, e ast.Expr, st HeapView) *Term {
	cl, ok := ast.Unparen(e).(*ast.CompositeLit)
	if !ok {
		unsup("initial value of %s is not a literal", o.Name())
	}
	ref := loadValue(st, globalPtr(o), o.Type())
	md, mv, _, ds, vs, _ := mapHeaps(m)
	dom, val := Select(st.Heap(md, ds), ref), Select(st.Heap(mv, vs), ref)
	wantD := ConstArr(dom.sort, False)
	fs := []*Term{Not(Eq(ref, IntLit(0)))}
	for _, el := range cl.Elts {
		kv := el.(*ast.KeyValueExpr)
		k := constExpr(p, kv.Key, m.Key())
		wantD = Store(wantD, k, True)
		fs = append(fs, Eq(Select(val, k), constExpr(p, kv.Value, m.Elem())))
	}
	fs = append(fs, Eq(dom, wantD))
	return And(fs...)
}

func constExpr(p *packages.Package, e ast.Expr, t types.Type) *Term {
	e = ast.Unparen(e)
	if tv, ok := p.TypesInfo.Types[e]; ok && tv.Value != nil {
		return constTerm(tv.Value, t)
	}
	cl, ok := e.(*ast.CompositeLit)
	s, isS := t.Underlying().(*types.Struct)
	if !ok || !isS {
		unsup("table element is not a constant")
	}
	args := make([]*Term, s.NumFields())
	for i := range args {
		args[i] = zeroOf(s.Field(i).Type())
	}
	for i, el := range cl.Elts {
		if kv, is := el.(*ast.KeyValueExpr); is {
			for j := range args {
				if s.Field(j).Name() == kv.Key.(*ast.Ident).Name {
					args[j] = constExpr(p, kv.Value, s.Field(j).Type())
				}
			}
		} else {
			args[i] = constExpr(p, el, s.Field(i).Type())
		}
	}
	return Ctor(sortOf(t), args...)
}

// checkTableUse makes sure that nothing but the package initialiser can change the table.
func (x *Exec) checkTableUse(o *types.Var) {
	if o.Exported() {
		unsup("table %s is exported", o.Name())
	}
	var g *ssa.Global
	sp := W.prog.Package(o.Pkg())
	g = sp.Var(o.Name())
	for fn := range ssaFuncs(sp) {
		if fn.Name() == "init" && fn.Synthetic != "" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				uses := false
				for _, op := range in.Operands(nil) {
					uses = uses || *op == g
				}
				if !uses {
					continue
				}
				switch y := in.(type) {
				case *ssa.DebugRef:
				case *ssa.UnOp:
					for _, r := range *y.Referrers() {
						switch r := r.(type) {
						case *ssa.DebugRef, *ssa.Range:
						case *ssa.Lookup:
							if r.X != y {
								unsup("table %s may be changed in %s", o.Name(), fn)
							}
						case *ssa.Call:
							if b, is := r.Call.Value.(*ssa.Builtin); !is || b.Name() != "len" {
								unsup("table %s may be changed in %s", o.Name(), fn)
							}
						default:
							unsup("table %s may be changed in %s", o.Name(), fn)
						}
					}
				default:
					unsup("table %s may be changed in %s", o.Name(), fn)
				}
			}
		}
	}
}

func ssaFuncs(sp *ssa.Package) map[*ssa.Function]bool {
	r := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || r[f] {
			return
		}
		r[f] = true
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, m := range sp.Members {
		switch m := m.(type) {
		case *ssa.Function:
			add(m)
		case *ssa.Type:
			if n, is := m.Type().(*types.Named); is {
				for i := 0; i < n.NumMethods(); i++ {
					add(W.prog.FuncValue(n.Method(i)))
				}
			}
		}
	}
	return r
}

func tableNames(s string) []string {
	if s == "" {
		return nil
	}
	return strings.Split(s, ",")
}
