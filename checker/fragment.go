package main

import (
	"go/ast"
	"go/types"
)

// This file interprets one iteration of a loop of the program under analysis
// from an arbitrary state: every variable of the surrounding function holds a
// symbol. What holds for every such iteration holds for all iterations.

type bodyEnd struct {
	kind string // next, break, return
	st   *state
	vals []val // results of a return
}

type bodyRun struct {
	e        *absEngine
	d        *declSite
	loop     ast.Stmt
	act      int
	vars     map[types.Object]val
	ends     []bodyEnd
	problems []string
}

// reaches: the statements build a value of a type, directly or in a function
// they call.
func reaches(l *Loaded, d *declSite, n ast.Node, is func(d *declSite, n ast.Node) bool, depth int, seen map[types.Object]bool) bool {
	found := false
	ast.Inspect(n, func(x ast.Node) bool {
		if found || x == nil {
			return false
		}
		if is(d, x) {
			found = true
			return false
		}
		if id, ok := x.(*ast.Ident); ok && depth > 0 {
			if f, ok := d.pkg.TypesInfo.Uses[id].(*types.Func); ok && !seen[f] {
				if dd, ok := l.declOf[f.Origin()]; ok && dd.fd.Body != nil && dd.pkg == d.pkg {
					seen[f] = true
					if reaches(l, &dd, dd.fd.Body, is, depth-1, seen) {
						found = true
					}
				}
			}
		}
		return true
	})
	return found
}

// literalOf matches a composite literal, or new(T), of a named type.
func literalOf(pkg, name string) func(d *declSite, n ast.Node) bool {
	return func(d *declSite, n ast.Node) bool {
		switch n := n.(type) {
		case *ast.CompositeLit:
			return namedIs(d.pkg.TypesInfo.TypeOf(n), pkg, name)
		case *ast.CallExpr:
			if id, ok := n.Fun.(*ast.Ident); ok && len(n.Args) == 1 {
				if b, ok := d.pkg.TypesInfo.Uses[id].(*types.Builtin); ok && b.Name() == "new" {
					return namedIs(d.pkg.TypesInfo.TypeOf(n.Args[0]), pkg, name)
				}
			}
		}
		return false
	}
}

// loopsReaching lists the innermost loops of a package which satisfy the
// predicate in their body.
func loopsReaching(l *Loaded, pkg string, is func(d *declSite, n ast.Node) bool) (decls []*declSite, loops []ast.Stmt) {
	for o, d := range l.declOf {
		if _, ok := o.(*types.Func); !ok || d.pkg.PkgPath != pkg || d.fd.Body == nil {
			continue
		}
		dd := d
		ast.Inspect(d.fd.Body, func(n ast.Node) bool {
			var body *ast.BlockStmt
			switch s := n.(type) {
			case *ast.RangeStmt:
				body = s.Body
			case *ast.ForStmt:
				body = s.Body
			default:
				return true
			}
			if !reaches(l, &dd, body, is, 3, map[types.Object]bool{}) {
				return true
			}
			// not the innermost
			inner := false
			ast.Inspect(body, func(m ast.Node) bool {
				switch s := m.(type) {
				case *ast.RangeStmt:
					inner = inner || reaches(l, &dd, s.Body, is, 3, map[types.Object]bool{})
				case *ast.ForStmt:
					inner = inner || reaches(l, &dd, s.Body, is, 3, map[types.Object]bool{})
				}
				return !inner
			})
			if !inner {
				decls = append(decls, &dd)
				loops = append(loops, n.(ast.Stmt))
			}
			return true
		})
	}
	return
}

// runBody interprets the body of a loop. bind gives the initial value of a
// variable declared outside of the body; nil selects a symbol named after it.
func runBody(e *absEngine, d *declSite, loop ast.Stmt, st *state, bind func(o *types.Var, elem bool) val) *bodyRun {
	r := &bodyRun{e: e, d: d, loop: loop, vars: map[types.Object]val{}}
	info := d.pkg.TypesInfo
	var body *ast.BlockStmt
	elems := map[types.Object]bool{}
	switch s := loop.(type) {
	case *ast.RangeStmt:
		body = s.Body
		for _, x := range []ast.Expr{s.Key, s.Value} {
			if id, ok := x.(*ast.Ident); ok {
				o := info.Defs[id]
				if o == nil {
					o = info.Uses[id]
				}
				if o != nil {
					elems[o] = x == s.Value
				}
			}
		}
	case *ast.ForStmt:
		body = s.Body
	}
	fr := &frame{pkg: d.pkg, name: d.fd.Name.Name, decl: d.fd.Type}
	e.acts++
	fr.act = e.acts
	r.act = fr.act
	fr.ret = func(st *state, vs []val) {
		if e.explore == 0 {
			r.ends = append(r.ends, bodyEnd{"return", st.clone(), vs})
		}
	}
	c := &ctx{fr: fr, depth: 1}
	add := func(kind string) func(*state) {
		return func(st *state) {
			if e.explore == 0 {
				r.ends = append(r.ends, bodyEnd{kind: kind, st: st.clone()})
			}
		}
	}
	c.cont, c.brk = add("next"), add("break")
	c.jump = map[string]func(*state){}
	c.lbl = map[string]*ctx{}
	ast.Inspect(d.fd.Body, func(n ast.Node) bool {
		if s, ok := n.(*ast.LabeledStmt); ok {
			if s.Stmt == loop {
				c.lbl[s.Label.Name] = c
			} else if s.Pos() < loop.Pos() && loop.End() <= s.End() {
				c.lbl[s.Label.Name] = &ctx{brk: add("break " + s.Label.Name), cont: add("continue " + s.Label.Name)}
			} else if s.Pos() >= loop.End() {
				c.jump[s.Label.Name] = add("goto " + s.Label.Name)
			}
		}
		return true
	})
	free := func(n ast.Node) {
		ast.Inspect(n, func(n ast.Node) bool {
			id, ok := n.(*ast.Ident)
			if !ok {
				return true
			}
			o, ok := info.Uses[id].(*types.Var)
			if !ok {
				if v, isDef := info.Defs[id].(*types.Var); isDef {
					if _, isElem := elems[v]; isElem {
						o, ok = v, true
					}
				}
			}
			if !ok || o.IsField() || o.Parent() == nil || o.Parent() == d.pkg.Types.Scope() || o.Pkg() != d.pkg.Types {
				return true
			}
			if o.Pos() >= body.Pos() && o.Pos() < body.End() {
				return true
			}
			if _, had := r.vars[o]; had {
				return true
			}
			v := bind(o, elems[o])
			if v == nil {
				v = mkSym("var:"+o.Name(), o.Type())
				if isIntType(o.Type().Underlying()) {
					v = vInt{ps("var:" + o.Name())}
				}
			}
			r.vars[o] = v
			e.declare(c, st, o, v)
			return true
		})
	}
	if s, ok := loop.(*ast.RangeStmt); ok {
		for _, x := range []ast.Expr{s.Key, s.Value} {
			if x != nil {
				free(x)
			}
		}
	}
	free(body)
	e.stmts(c, body.List, st, c.cont)
	r.problems = append(r.problems, e.problems...)
	return r
}

// at is the value of a variable in an end state.
func (r *bodyRun) at(en bodyEnd, o types.Object) val { return en.st.heap[loc{act: r.act, obj: o}] }

// havocLoop replaces a loop by its effect on what it may change: every variable
// and field it assigns, and every map it writes, holds an unknown value.
func havocLoop(e *absEngine, c *ctx, loop ast.Stmt, st *state) {
	info := c.info()
	fields := map[string]bool{}
	vars := map[types.Object]bool{}
	target := func(x ast.Expr) {
		for {
			switch y := ast.Unparen(x).(type) {
			case *ast.IndexExpr:
				x = y.X
				continue
			case *ast.StarExpr:
				x = y.X
				continue
			case *ast.SelectorExpr:
				fields[y.Sel.Name] = true
			case *ast.Ident:
				if o := info.Uses[y]; o != nil {
					vars[o] = true
				}
			}
			return
		}
	}
	ast.Inspect(loop, func(n ast.Node) bool {
		switch s := n.(type) {
		case *ast.AssignStmt:
			for _, x := range s.Lhs {
				target(x)
			}
		case *ast.IncDecStmt:
			target(s.X)
		case *ast.RangeStmt:
			if s.Key != nil {
				target(s.Key)
			}
			if s.Value != nil {
				target(s.Value)
			}
		case *ast.UnaryExpr:
			if s.Op.String() == "&" {
				target(s.X)
			}
		case *ast.CallExpr:
			// fields assigned by functions of the package
			for _, f := range calledFields(e.l, c.fr.pkg.PkgPath, info, s, 3) {
				fields[f] = true
			}
		}
		return true
	})
	for l, v := range st.heap {
		lo, _ := l.obj.(types.Object)
		if lo != nil && vars[lo] {
			if r, ok := v.(vMapRef); ok {
				st.heap[r.l] = e.freshSym("loop:"+lo.Name(), lo.Type())
				continue
			}
			if isIntType(lo.Type().Underlying()) {
				st.heap[l] = vInt{ps(e.freshSym("loop:"+lo.Name(), nil).k)}
				continue
			}
			st.heap[l] = e.freshSym("loop:"+lo.Name(), lo.Type())
		}
	}
	for l, v := range st.heap {
		s, ok := v.(*vStruct)
		if lo, is := l.obj.(types.Object); !ok || is && vars[lo] {
			continue
		}
		n := &vStruct{base: s.base, typ: s.typ, f: map[string]val{}}
		for k, x := range s.f {
			n.f[k] = x
		}
		stt, ok := s.typ, false
		if stt != nil {
			_, ok = stt.Underlying().(*types.Struct)
		}
		if !ok {
			continue
		}
		t := stt.Underlying().(*types.Struct)
		for i := 0; i < t.NumFields(); i++ {
			f := t.Field(i)
			if !fields[f.Name()] {
				continue
			}
			if isIntType(f.Type().Underlying()) {
				n.f[f.Name()] = vInt{ps(e.freshSym("loop:."+f.Name(), nil).k)}
				continue
			}
			n.f[f.Name()] = e.freshSym("loop:."+f.Name(), f.Type())
		}
		st.heap[l] = n
	}
}

// calledFields lists the fields the functions of a package assign which a call
// reaches.
func calledFields(l *Loaded, pkg string, info *types.Info, call *ast.CallExpr, depth int) (out []string) {
	if depth == 0 {
		return
	}
	var id *ast.Ident
	switch f := ast.Unparen(call.Fun).(type) {
	case *ast.Ident:
		id = f
	case *ast.SelectorExpr:
		id = f.Sel
	}
	if id == nil {
		return
	}
	f, ok := info.Uses[id].(*types.Func)
	if !ok {
		return
	}
	d, ok := l.declOf[f.Origin()]
	if !ok || d.pkg.PkgPath != pkg || d.fd.Body == nil {
		return
	}
	ast.Inspect(d.fd.Body, func(n ast.Node) bool {
		switch s := n.(type) {
		case *ast.AssignStmt:
			for _, x := range s.Lhs {
				for {
					if i, ok := ast.Unparen(x).(*ast.IndexExpr); ok {
						x = i.X
						continue
					}
					break
				}
				if y, ok := ast.Unparen(x).(*ast.SelectorExpr); ok {
					out = append(out, y.Sel.Name)
				}
			}
		case *ast.IncDecStmt:
			if y, ok := ast.Unparen(s.X).(*ast.SelectorExpr); ok {
				out = append(out, y.Sel.Name)
			}
		case *ast.CallExpr:
			out = append(out, calledFields(l, pkg, d.pkg.TypesInfo, s, depth-1)...)
		}
		return true
	})
	return
}
