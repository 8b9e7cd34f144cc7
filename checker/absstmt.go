package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strings"
)

func (e *absEngine) stmts(c *ctx, list []ast.Stmt, st *state, k func(*state)) {
	if len(list) == 0 {
		k(st)
		return
	}
	n := c
	for i, s := range list {
		l, ok := s.(*ast.LabeledStmt)
		if !ok || i == 0 {
			continue
		}
		if n == c {
			m := *c
			m.jump = map[string]func(*state){}
			for name, f := range c.jump {
				m.jump[name] = f
			}
			n = &m
		}
		rest := list[i:]
		n.jump[l.Label.Name] = func(st *state) { e.stmts(c, rest, st, k) }
	}
	e.stmt(n, list[0], st, func(st *state) { e.stmts(c, list[1:], st, k) })
}

func (e *absEngine) stmt(c *ctx, s ast.Stmt, st *state, k func(*state)) {
	if e.steps++; e.steps > e.limit {
		return
	}
	if e.drop != nil && e.drop(c, s, st) {
		k(st)
		return
	}
	switch s := s.(type) {
	case nil, *ast.EmptyStmt:
		k(st)
	case *ast.BlockStmt:
		e.stmts(c, s.List, st, k)
	case *ast.ExprStmt:
		e.eval(c, s.X, st, func(st *state, _ val) { k(st) })
	case *ast.AssignStmt:
		e.assignStmt(c, s, st, k)
	case *ast.IncDecStmt:
		e.eval(c, s.X, st, func(st *state, v val) {
			p, ok := asPoly(v)
			if !ok {
				e.assign(c, s.X, e.unknown("inc", c.typeOf(s.X)), st, k)
				return
			}
			d := int64(1)
			if s.Tok == token.DEC {
				d = -1
			}
			e.assign(c, s.X, vInt{p.add(pc(d))}, st, k)
		})
	case *ast.DeclStmt:
		gd, ok := s.Decl.(*ast.GenDecl)
		if !ok || gd.Tok != token.VAR {
			k(st)
			return
		}
		var rec func(i int, st *state)
		rec = func(i int, st *state) {
			if i == len(gd.Specs) {
				k(st)
				return
			}
			vs := gd.Specs[i].(*ast.ValueSpec)
			if len(vs.Values) == 0 {
				for _, n := range vs.Names {
					e.declare(c, st, c.info().Defs[n], e.zero(c.info().Defs[n].Type()))
				}
				rec(i+1, st)
				return
			}
			e.evalList(c, vs.Values, st, func(st *state, v []val) {
				v = spread(v, len(vs.Names))
				for j, n := range vs.Names {
					e.declare(c, st, c.info().Defs[n], e.at(v, j, c.info().Defs[n]))
				}
				rec(i+1, st)
			})
		}
		rec(0, st)
	case *ast.IfStmt:
		e.stmt(c, s.Init, st, func(st *state) {
			e.branch(c, s.Cond, st, func(st *state) { e.stmt(c, s.Body, st, k) }, func(st *state) {
				if s.Else == nil {
					k(st)
					return
				}
				e.stmt(c, s.Else, st, k)
			})
		})
	case *ast.ReturnStmt:
		if len(s.Results) == 0 && len(c.fr.results) > 0 {
			var vs []val
			for _, o := range c.fr.results {
				vs = append(vs, st.heap[loc{act: c.fr.act, obj: o}])
			}
			c.fr.ret(st, vs)
			return
		}
		e.evalList(c, s.Results, st, func(st *state, vs []val) {
			if len(vs) == 1 {
				if t, ok := vs[0].(vTuple); ok {
					vs = t
				}
			}
			c.fr.ret(st, vs)
		})
	case *ast.BranchStmt:
		switch s.Tok {
		case token.BREAK, token.CONTINUE:
			t := c
			if s.Label != nil {
				t = c.lbl[s.Label.Name]
			}
			if t == nil {
				e.problem("unsupported branch")
				return
			}
			if s.Tok == token.BREAK && t.brk != nil {
				t.brk(st)
			} else if s.Tok == token.CONTINUE && t.cont != nil {
				t.cont(st)
			}
		case token.GOTO:
			// forward only
			if f := c.jump[s.Label.Name]; f != nil {
				f(st)
				return
			}
			e.problem("unsupported " + s.Tok.String())
		default:
			e.problem("unsupported " + s.Tok.String())
		}
	case *ast.LabeledStmt:
		n := *c
		n.label = s.Label.Name
		e.stmt(&n, s.Stmt, st, k)
	case *ast.SwitchStmt:
		e.switchStmt(c, s, st, k)
	case *ast.TypeSwitchStmt:
		e.typeSwitch(c, s, st, k)
	case *ast.ForStmt:
		if e.skip != nil && e.skip(c, s, st) {
			k(st)
			return
		}
		e.forStmt(c, s, st, k)
	case *ast.RangeStmt:
		if e.skip != nil && e.skip(c, s, st) {
			k(st)
			return
		}
		e.rangeStmt(c, s, st, k)
	case *ast.DeferStmt:
		// deferred calls run after the statement was sent
		e.evalList(c, s.Call.Args, st, func(st *state, _ []val) { k(st) })
	case *ast.GoStmt:
		k(st)
	case *ast.SendStmt:
		k(st)
	default:
		e.problem(fmt.Sprintf("unsupported %T", s))
	}
}

func (e *absEngine) problem(s string) {
	for _, p := range e.problems {
		if p == s {
			return
		}
	}
	e.problems = append(e.problems, s)
}

func spread(v []val, n int) []val {
	if len(v) == 1 && n > 1 {
		if t, ok := v[0].(vTuple); ok {
			return t
		}
	}
	return v
}

func (e *absEngine) at(v []val, i int, o types.Object) val {
	if i < len(v) && v[i] != nil {
		if _, isNil := v[i].(vNil); isNil && o != nil {
			if _, ok := o.Type().Underlying().(*types.Slice); ok {
				return &vList{typ: o.Type()}
			}
		}
		return v[i]
	}
	var t types.Type
	if o != nil {
		t = o.Type()
	}
	return e.unknown("missing value", t)
}

func (e *absEngine) assignStmt(c *ctx, s *ast.AssignStmt, st *state, k func(*state)) {
	if s.Tok != token.ASSIGN && s.Tok != token.DEFINE {
		op := map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL, token.QUO_ASSIGN: token.QUO, token.REM_ASSIGN: token.REM, token.OR_ASSIGN: token.OR, token.AND_ASSIGN: token.AND}[s.Tok]
		e.eval(c, s.Lhs[0], st, func(st *state, a val) {
			e.eval(c, s.Rhs[0], st, func(st *state, b val) {
				e.assign(c, s.Lhs[0], e.arith(c, s.Lhs[0], op, a, b), st, k)
			})
		})
		return
	}
	set := func(st *state, vs []val) {
		var rec func(i int, st *state)
		rec = func(i int, st *state) {
			if i == len(s.Lhs) {
				k(st)
				return
			}
			var v val
			if i < len(vs) {
				v = vs[i]
			} else {
				v = e.unknown("missing value", c.typeOf(s.Lhs[i]))
			}
			e.assign(c, s.Lhs[i], v, st, func(st *state) { rec(i+1, st) })
		}
		rec(0, st)
	}
	if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
		switch x := ast.Unparen(s.Rhs[0]).(type) {
		case *ast.IndexExpr:
			if _, isMap := c.typeOf(x.X).Underlying().(*types.Map); isMap {
				e.eval(c, x.X, st, func(st *state, m val) {
					e.eval(c, x.Index, st, func(st *state, i val) {
						e.index(c, x, m, i, st, func(st *state, v val, ok bool) { set(st, []val{v, vBool(ok)}) }, true)
					})
				})
				return
			}
		case *ast.TypeAssertExpr:
			t := c.typeOf(x.Type)
			e.eval(c, x.X, st, func(st *state, v val) {
				v = e.plain(st, v)
				e.forkIs(v, t, st, func(st *state) { set(st, []val{e.asserted(c, v, t, st), vBool(true)}) },
					func(st *state) { set(st, []val{e.zero(t), vBool(false)}) })
			})
			return
		}
	}
	e.evalList(c, s.Rhs, st, func(st *state, vs []val) { set(st, spread(vs, len(s.Lhs))) })
}

// plain looks through pointers to symbolic objects.
func (e *absEngine) plain(st *state, v val) val {
	if p, ok := v.(vPtr); ok {
		if s, ok := e.load(st, p).(*sym); ok {
			return s
		}
	}
	return v
}

func (e *absEngine) assign(c *ctx, x ast.Expr, v val, st *state, k func(*state)) {
	x = ast.Unparen(x)
	if id, ok := x.(*ast.Ident); ok {
		if id.Name == "_" {
			k(st)
			return
		}
		if o := c.info().Defs[id]; o != nil {
			e.declare(c, st, o, e.at([]val{v}, 0, o))
			k(st)
			return
		}
	}
	if _, isNil := v.(vNil); isNil {
		if t := c.typeOf(x); t != nil {
			if _, ok := t.Underlying().(*types.Slice); ok {
				v = &vList{typ: t}
			}
		}
	}
	e.lvalue(c, x, st, func(st *state, lv lval) {
		switch {
		case !lv.ok:
		case lv.m != nil:
			if m, ok := st.heap[lv.m.l].(*vMap); ok {
				st.heap[lv.m.l] = &vMap{append(append([]seg{}, m.segs...), seg{kind: segOne, v: vEntry{lv.key, v}})}
			}
		case lv.lst:
			e.setElem(st, lv.p, lv.idx, v)
		default:
			e.store(st, lv.p, v)
		}
		k(st)
	})
}

func (e *absEngine) setElem(st *state, p vPtr, idx, v val) {
	cur := e.load(st, p)
	if q, ok := cur.(vPtr); ok {
		p = q
		cur = e.load(st, q)
	}
	i, ok := asPoly(idx)
	if !ok {
		e.store(st, p, &vList{segs: []seg{{kind: segUnknown, id: fmt.Sprint(e.freshN())}}})
		return
	}
	if e.exact {
		e.elemStores = append(e.elemStores, elemStore{cur, i, v})
	}
	segs := append([]seg{}, e.toSegs(st, cur)...)
	if n, c := i.constant(); c {
		for j := range segs {
			if segs[j].kind != segOne {
				if segs[j].kind == segFill { // split the zero elements
					if m, c := segs[j].to.constant(); c && n < m {
						var mid []seg
						if n > 0 {
							mid = append(mid, seg{kind: segFill, to: pc(n)})
						}
						mid = append(mid, seg{kind: segOne, v: v})
						if m-n-1 > 0 {
							mid = append(mid, seg{kind: segFill, to: pc(m - n - 1)})
						}
						out := append(append(append([]seg{}, segs[:j]...), mid...), segs[j+1:]...)
						e.store(st, p, &vList{segs: out})
						return
					}
				}
				break
			}
			if n == 0 {
				segs[j] = seg{kind: segOne, v: v}
				e.store(st, p, &vList{segs: segs})
				return
			}
			n--
		}
	}
	segs = append(segs, seg{kind: segUpd, from: i, v: v})
	e.store(st, p, &vList{segs: segs})
}

func (e *absEngine) switchStmt(c *ctx, s *ast.SwitchStmt, st *state, k func(*state)) {
	n := *c
	n.brk = k
	n.label = ""
	run := func(st *state, tag val) {
		var def *ast.CaseClause
		var clauses []*ast.CaseClause
		for _, b := range s.Body.List {
			cc := b.(*ast.CaseClause)
			if cc.List == nil {
				def = cc
			} else {
				clauses = append(clauses, cc)
			}
		}
		body := func(cc *ast.CaseClause, st *state) {
			if l := len(cc.Body); l > 0 {
				if b, ok := cc.Body[l-1].(*ast.BranchStmt); ok && b.Tok == token.FALLTHROUGH {
					e.problem("unsupported fallthrough")
					return
				}
			}
			e.stmts(&n, cc.Body, st, k)
		}
		var try func(i, j int, st *state)
		try = func(i, j int, st *state) {
			if i == len(clauses) {
				if def != nil {
					body(def, st)
				} else {
					k(st)
				}
				return
			}
			if j == len(clauses[i].List) {
				try(i+1, 0, st)
				return
			}
			yes := func(st *state) { body(clauses[i], st) }
			no := func(st *state) { try(i, j+1, st) }
			if tag == nil {
				e.branch(&n, clauses[i].List[j], st, yes, no)
				return
			}
			e.eval(&n, clauses[i].List[j], st, func(st *state, v val) {
				e.compareVals(tag, v, token.EQL, st, yes, no)
			})
		}
		try(0, 0, st)
	}
	e.stmt(c, s.Init, st, func(st *state) {
		if s.Tag == nil {
			run(st, nil)
			return
		}
		e.eval(c, s.Tag, st, run)
	})
}

func (e *absEngine) typeSwitch(c *ctx, s *ast.TypeSwitchStmt, st *state, k func(*state)) {
	n := *c
	n.brk = k
	n.label = ""
	var x ast.Expr
	switch a := s.Assign.(type) {
	case *ast.ExprStmt:
		x = ast.Unparen(a.X).(*ast.TypeAssertExpr).X
	case *ast.AssignStmt:
		x = ast.Unparen(a.Rhs[0]).(*ast.TypeAssertExpr).X
	}
	e.stmt(c, s.Init, st, func(st *state) {
		e.eval(c, x, st, func(st *state, v val) {
			if !e.exact {
				v = e.plain(st, v)
			}
			var def *ast.CaseClause
			var clauses []*ast.CaseClause
			for _, b := range s.Body.List {
				cc := b.(*ast.CaseClause)
				if cc.List == nil {
					def = cc
				} else {
					clauses = append(clauses, cc)
				}
			}
			run := func(cc *ast.CaseClause, st *state, bound val) {
				if o := c.info().Implicits[cc]; o != nil {
					e.declare(c, st, o, bound)
				}
				e.stmts(&n, cc.Body, st, k)
			}
			var try func(i, j int, st *state)
			try = func(i, j int, st *state) {
				if i == len(clauses) {
					if def != nil {
						run(def, st, v)
					} else {
						k(st)
					}
					return
				}
				cc := clauses[i]
				if j == len(cc.List) {
					try(i+1, 0, st)
					return
				}
				no := func(st *state) { try(i, j+1, st) }
				if tv := c.info().Types[cc.List[j]]; tv.IsNil() {
					e.compareVals(v, vNil{}, token.EQL, st, func(st *state) { run(cc, st, v) }, no)
					return
				}
				t := c.typeOf(cc.List[j])
				e.forkIs(v, t, st, func(st *state) {
					b := v
					if len(cc.List) == 1 {
						b = e.asserted(c, v, t, st)
					}
					run(cc, st, b)
				}, no)
			}
			try(0, 0, st)
		})
	})
}

// ---- loops

type loopSpec struct {
	from, to poly
	idx      string
	exact    bool // the number of iterations is to-from unless the body leaves
	endless  bool
	bind     func(c *ctx, st *state, k func(*state))
	cond     ast.Expr
	post     ast.Stmt
	body     *ast.BlockStmt
	run      func(c *ctx, st *state, k func(*state)) // instead of body
}

func (e *absEngine) forStmt(c *ctx, s *ast.ForStmt, st *state, k func(*state)) {
	idx := fmt.Sprintf("i$%d", c.depth+1)
	e.stmt(c, s.Init, st, func(st *state) {
		sp := &loopSpec{idx: idx, body: s.Body, cond: s.Cond, post: s.Post, endless: s.Cond == nil}
		sp.to = ps(fmt.Sprintf("len?loop%d", e.freshN()))
		sp.from = poly{}
		sp.bind = func(c *ctx, st *state, k func(*state)) { k(st) }
		if e.conc && s.Cond != nil {
			e.peelLoop(c, s, st, 0, func(st *state) { e.loop(c, sp, st, k) }, k)
			return
		}
		if e.conc && s.Cond == nil {
			e.peelEndless(c, s, st, 0, func(st *state) { e.loop(c, sp, st, k) }, k)
			return
		}
		if v, start, bound, ok := e.counted(c, s, st); ok {
			if n, short := bound.sub(start).constant(); short && n <= 3 && e.peel {
				e.peelLoop(c, s, st, 0, func(st *state) { e.loop(c, sp, st, k) }, k)
				return
			}
			sp.from, sp.to, sp.exact = start, bound, true
			sp.cond, sp.post = nil, nil
			sp.bind = func(c *ctx, st *state, k func(*state)) {
				st.heap[v.l] = vInt{ps(idx)}
				k(st)
			}
			e.loop(c, sp, st, func(st *state) {
				st.heap[v.l] = vInt{bound}
				k(st)
			})
			return
		}
		if e.peel && s.Cond != nil {
			e.peelLoop(c, s, st, 0, func(st *state) { e.loop(c, sp, st, k) }, k)
			return
		}
		e.loop(c, sp, st, k)
	})
}

// peelLoop follows the first iterations of a loop whose condition is decided.
func (e *absEngine) peelLoop(c *ctx, s *ast.ForStmt, st *state, n int, loop, k func(*state)) {
	yes, no := 0, 0
	if n < 4 || e.conc && n < 60 {
		e.explore++
		e.branch(c, s.Cond, st.clone(), func(*state) { yes++ }, func(*state) { no++ })
		e.explore--
	}
	switch {
	case yes == 0 && no == 1:
		k(st)
	case yes == 1 && no == 0:
		m := *c
		m.label = ""
		m.brk = k
		m.cont = func(st *state) {
			next := func(st *state) { e.peelLoop(c, s, st, n+1, loop, k) }
			if s.Post != nil {
				e.stmt(c, s.Post, st, next)
				return
			}
			next(st)
		}
		if c.label != "" {
			m.lbl = with(c.lbl, c.label, &m)
		}
		e.branch(c, s.Cond, st, func(st *state) { e.stmt(&m, s.Body, st, m.cont) }, k)
	default:
		loop(st)
	}
}

// peelEndless follows the iterations of a loop without condition for as long as
// nothing has to be assumed.
func (e *absEngine) peelEndless(c *ctx, s *ast.ForStmt, st *state, n int, loop, k func(*state)) {
	m := *c
	m.label = ""
	m.brk = k
	had := len(st.atoms)
	m.cont = func(st *state) {
		next := func(st *state) {
			if n > 40 || len(st.atoms) > had {
				loop(st)
				return
			}
			e.peelEndless(c, s, st, n+1, loop, k)
		}
		if s.Post != nil {
			e.stmt(c, s.Post, st, next)
			return
		}
		next(st)
	}
	if c.label != "" {
		m.lbl = with(c.lbl, c.label, &m)
	}
	e.stmt(&m, s.Body, st, m.cont)
}

// counted recognises `for i := a; i < n; i++` with an unchanging bound.
func (e *absEngine) counted(c *ctx, s *ast.ForStmt, st *state) (v vPtr, from, to poly, ok bool) {
	be, isBin := s.Cond.(*ast.BinaryExpr)
	if !isBin {
		return
	}
	x, y, op := ast.Unparen(be.X), ast.Unparen(be.Y), be.Op
	name := func(x ast.Expr) types.Object {
		if id, ok := x.(*ast.Ident); ok {
			return c.info().ObjectOf(id)
		}
		return nil
	}
	var o types.Object
	switch p := s.Post.(type) {
	case *ast.IncDecStmt:
		if p.Tok == token.INC {
			o = name(ast.Unparen(p.X))
		}
	case *ast.AssignStmt:
		if p.Tok == token.ADD_ASSIGN && len(p.Lhs) == 1 {
			if tv := c.info().Types[p.Rhs[0]]; tv.Value != nil && tv.Value.ExactString() == "1" {
				o = name(ast.Unparen(p.Lhs[0]))
			}
		}
	}
	if o == nil {
		return
	}
	if name(x) != o {
		if name(y) != o {
			return
		}
		x, y = y, x
		switch op {
		case token.GTR:
			op = token.LSS
		case token.GEQ:
			op = token.LEQ
		case token.NEQ:
		default:
			return
		}
	}
	if op != token.LSS && op != token.LEQ && op != token.NEQ {
		return
	}
	v, found := e.lookup(c, st, o)
	if !found || assignsTo(c, s.Body, o) {
		return
	}
	start, isInt := asPoly(st.heap[v.l])
	if !isInt {
		return
	}
	var bound poly
	n := 0
	e.eval(c, y, st.clone(), func(_ *state, b val) {
		n++
		if p, ok := asPoly(b); ok {
			bound = p
		} else {
			n += 2
		}
	})
	if n != 1 || bound == nil {
		return
	}
	// the bound must not change in the body
	changed := false
	ast.Inspect(y, func(nd ast.Node) bool {
		if id, ok := nd.(*ast.Ident); ok {
			if vo, ok := c.info().ObjectOf(id).(*types.Var); ok && !vo.IsField() && assignsTo(c, s.Body, vo) {
				changed = true
			}
		}
		if se, ok := nd.(*ast.SelectorExpr); ok {
			ast.Inspect(s.Body, func(m ast.Node) bool {
				if as, ok := m.(*ast.AssignStmt); ok {
					for _, l := range as.Lhs {
						if types.ExprString(l) == types.ExprString(se) {
							changed = true
						}
					}
				}
				return true
			})
		}
		return true
	})
	if changed {
		return
	}
	if op == token.LEQ {
		bound = bound.add(pc(1))
	}
	return v, start, bound, true
}

func assignsTo(c *ctx, b ast.Node, o types.Object) bool {
	found := false
	ast.Inspect(b, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.AssignStmt:
			for _, l := range n.Lhs {
				if id, ok := ast.Unparen(l).(*ast.Ident); ok && c.info().Uses[id] == o {
					found = true
				}
			}
		case *ast.IncDecStmt:
			if id, ok := ast.Unparen(n.X).(*ast.Ident); ok && c.info().Uses[id] == o {
				found = true
			}
		case *ast.UnaryExpr:
			if id, ok := ast.Unparen(n.X).(*ast.Ident); ok && n.Op == token.AND && c.info().Uses[id] == o {
				found = true
			}
		case *ast.RangeStmt:
			for _, l := range []ast.Expr{n.Key, n.Value} {
				if id, ok := l.(*ast.Ident); ok && c.info().Uses[id] == o {
					found = true
				}
			}
		}
		return true
	})
	return found
}

func (e *absEngine) rangeStmt(c *ctx, s *ast.RangeStmt, st *state, k func(*state)) {
	idx := fmt.Sprintf("i$%d", c.depth+1)
	e.eval(c, s.X, st, func(st *state, x val) {
		if p, ok := x.(vPtr); ok {
			x = e.load(st, p)
		}
		sp := &loopSpec{idx: idx, body: s.Body, exact: true}
		set := func(c *ctx, lhs ast.Expr, v val, st *state, k func(*state)) {
			if lhs == nil {
				k(st)
				return
			}
			e.assign(c, lhs, v, st, k)
		}
		unroll := func(ks, vs []val, st *state) {
			n := *c
			n.label = ""
			var rec func(i int, st *state)
			rec = func(i int, st *state) {
				if i == len(vs) {
					k(st)
					return
				}
				m := n
				m.brk = k
				m.cont = func(st *state) { rec(i+1, st) }
				if c.label != "" {
					m.lbl = with(c.lbl, c.label, &m)
				}
				set(&m, s.Key, ks[i], st, func(st *state) {
					set(&m, s.Value, vs[i], st, func(st *state) {
						e.stmt(&m, s.Body, st, m.cont)
					})
				})
			}
			rec(0, st)
		}
		switch u := c.typeOf(s.X).Underlying().(type) {
		case *types.Slice, *types.Array, *types.Pointer:
			var et types.Type
			if sl, ok := u.(*types.Slice); ok {
				et = sl.Elem()
			}
			// a short list of known elements is walked one by one
			if l, ok := x.(*vList); ok && len(l.segs) <= 12 && allOnes(l.segs) {
				var ks, vs []val
				for i, sg := range l.segs {
					ks = append(ks, vInt{pc(int64(i))})
					vs = append(vs, sg.v)
				}
				unroll(ks, vs, st)
				return
			}
			// a list that was itself built by a loop is walked the way it was built
			if l, ok := x.(*vList); ok && isBlank(s.Key) && !hasReturn(s.Body) && composed(l.segs) {
				e.eachOf(c, l.segs, et, func(c *ctx, el val, st *state, k func(*state)) {
					set(c, s.Value, el, st, func(st *state) { e.stmt(c, s.Body, st, k) })
				}, st, k)
				return
			}
			sp.from, sp.to = poly{}, e.length(st, x)
			sp.bind = func(c *ctx, st *state, k func(*state)) {
				set(c, s.Key, vInt{ps(idx)}, st, func(st *state) {
					set(c, s.Value, e.elem(x, ps(idx), et), st, k)
				})
			}
		case *types.Basic:
			if n, ok := asPoly(x); ok && isIntType(u) {
				sp.from, sp.to = poly{}, n
				sp.bind = func(c *ctx, st *state, k func(*state)) { set(c, s.Key, vInt{ps(idx)}, st, k) }
			} else { // a string
				sp.from, sp.to = poly{}, ps(fmt.Sprintf("len?str%d", e.freshN()))
				sp.bind = func(c *ctx, st *state, k func(*state)) {
					set(c, s.Key, vInt{ps(idx)}, st, func(st *state) {
						set(c, s.Value, mkSym("byte", nil, x, vInt{ps(idx)}), st, k)
					})
				}
			}
		case *types.Map:
			// a map of known entries
			if r, ok := x.(vMapRef); ok {
				if m, ok := st.heap[r.l].(*vMap); ok && len(m.segs) <= 12 && allOnes(m.segs) {
					at := map[string]int{}
					var ks, vs []val
					for _, sg := range m.segs {
						en, ok := sg.v.(vEntry)
						if !ok {
							ks = nil
							break
						}
						if i, dup := at[en.k.key()]; dup {
							vs[i] = en.v
							continue
						}
						at[en.k.key()] = len(ks)
						ks, vs = append(ks, en.k), append(vs, en.v)
					}
					if ks != nil || len(m.segs) == 0 {
						unroll(ks, vs, st)
						return
					}
				}
			}
			if _, ok := x.(vNil); ok {
				k(st)
				return
			}
			sp.from, sp.to = poly{}, ps(fmt.Sprintf("len?map%d", e.freshN()))
			id := e.freshN()
			sp.bind = func(c *ctx, st *state, k func(*state)) {
				set(c, s.Key, mkSym(fmt.Sprintf("mapkey%d", id), u.Key(), vInt{ps(idx)}), st, func(st *state) {
					set(c, s.Value, mkSym(fmt.Sprintf("mapval%d", id), u.Elem(), vInt{ps(idx)}), st, k)
				})
			}
		default:
			sp.from, sp.to = poly{}, ps(fmt.Sprintf("len?it%d", e.freshN()))
			id := e.freshN()
			sp.bind = func(c *ctx, st *state, k func(*state)) {
				bindT := func(x ast.Expr) types.Type {
					if x == nil {
						return nil
					}
					return c.typeOf(x)
				}
				set(c, s.Key, mkSym(fmt.Sprintf("itk%d", id), bindT(s.Key), vInt{ps(idx)}), st, func(st *state) {
					set(c, s.Value, mkSym(fmt.Sprintf("itv%d", id), bindT(s.Value), vInt{ps(idx)}), st, k)
				})
			}
		}
		e.loop(c, sp, st, k)
	})
}

func allOnes(s []seg) bool {
	for _, x := range s {
		if x.kind != segOne {
			return false
		}
	}
	return true
}

func with(m map[string]*ctx, k string, v *ctx) map[string]*ctx {
	n := map[string]*ctx{}
	for a, b := range m {
		n[a] = b
	}
	n[k] = v
	return n
}

type slotMode int

const (
	slotInv slotMode = iota
	slotInt
	slotList
	slotDoc // builder or string
	slotMap
	slotEnum // one of two constants
	slotHavoc
)

type slot struct {
	l    loc
	path string
}

type slotState struct {
	mode slotMode
	id   string
	v0   val
	w    val  // the second constant
	all  bool // every iteration leaves the second constant
}

// smallConst: a constant text or truth value.
func smallConst(v val) bool {
	switch v := v.(type) {
	case vBool:
		return true
	case vStr:
		_, ok := v.d.constString()
		return ok
	}
	return false
}

func (e *absEngine) slotGet(st *state, s slot) val {
	return e.load(st, vPtr{l: s.l, path: s.path})
}

// loop summarises a loop.
func (e *absEngine) loop(c *ctx, sp *loopSpec, st *state, k func(*state)) {
	loopID := e.freshN()
	slots := map[slot]*slotState{}
	var order []slot

	enter := func(carry func(slot, *slotState) val) *state {
		s := st.clone()
		for _, sl := range order {
			ss := slots[sl]
			if ss.mode != slotInv {
				e.store(s, vPtr{l: sl.l, path: sl.path}, carry(sl, ss))
			}
		}
		return s
	}
	carried := func(sl slot, ss *slotState) val {
		switch ss.mode {
		case slotInt:
			n := "c:" + ss.id
			if p, ok := asPoly(ss.v0); ok && (len(p) == 0 || nonNegSyms(p) && p[""] >= 0) {
				n = "c+:" + ss.id
			}
			return vInt{ps(n)}
		case slotList:
			return &vList{segs: []seg{{kind: segCarried, id: ss.id}}}
		case slotDoc:
			d := doc{{kind: pCarried, s: ss.id}}
			if _, ok := ss.v0.(vBuilder); ok {
				return vBuilder{d}
			}
			return vStr{d}
		case slotMap:
			return &vMap{segs: []seg{{kind: segCarried, id: ss.id}}}
		}
		return mkSym("h:"+ss.id, typeOfVal(ss.v0))
	}
	// run walks the body once from s.
	run := func(s *state, quiet bool, onEnd, onBrk func(*state)) {
		n := *c
		n.depth = c.depth + 1
		n.label = ""
		next := onEnd
		if sp.post != nil {
			next = func(s *state) { e.stmt(&n, sp.post, s, onEnd) }
		}
		n.cont = next
		n.brk = onBrk
		if quiet {
			// outer targets are not reached while measuring
			l := map[string]*ctx{}
			for name := range c.lbl {
				l[name] = &ctx{brk: func(*state) {}, cont: func(*state) {}}
			}
			n.lbl = l
			j := map[string]func(*state){}
			for name := range c.jump {
				j[name] = func(*state) {}
			}
			n.jump = j
		}
		if c.label != "" {
			n.lbl = with(n.lbl, c.label, &n)
		}
		body := func(s *state) {
			if sp.run != nil {
				sp.run(&n, s, next)
				return
			}
			e.stmt(&n, sp.body, s, next)
		}
		var enums func(i int, s *state)
		enums = func(i int, s *state) {
			for i < len(order) && slots[order[i]].mode != slotEnum {
				i++
			}
			if i == len(order) {
				sp.bind(&n, s, func(s *state) {
					if sp.cond != nil {
						e.branch(&n, sp.cond, s, body, func(*state) {})
						return
					}
					body(s)
				})
				return
			}
			sl := order[i]
			ss := slots[sl]
			at := vPtr{l: sl.l, path: sl.path}
			atom := "first:" + ss.id
			if ss.all && sp.exact {
				atom = "zero:" + ps(sp.idx).sub(sp.from).String()
			}
			e.fork(atom, s, func(s *state) {
				e.store(s, at, ss.v0)
				enums(i+1, s)
			}, func(s *state) {
				e.store(s, at, ss.w)
				enums(i+1, s)
			})
		}
		enums(0, s)
	}

	var ends, brks []*state
	var start *state
	for round := 0; ; round++ {
		if round > 8 {
			e.problem("loop does not stabilise")
			return
		}
		ends, brks = nil, nil
		start = enter(carried)
		savedRet := c.fr.ret
		c.fr.ret = func(*state, []val) {}
		e.explore++
		run(start.clone(), true, func(s *state) { ends = append(ends, s) }, func(s *state) { brks = append(brks, s) })
		e.explore--
		c.fr.ret = savedRet
		if e.steps > e.limit {
			return
		}
		changed := false
		modes := map[slot]slotMode{}
		for _, en := range ends {
			var locs []loc
			for l := range start.heap {
				locs = append(locs, l)
			}
			for _, l := range locs {
				e.diff(start, en, slot{l, ""}, start.heap[l], en.heap[l], func(sl slot, a, b val) {
					ss := slots[sl]
					if ss == nil {
						ss = &slotState{mode: slotInv, v0: a, id: fmt.Sprintf("%d.%d", loopID, len(slots))}
						slots[sl] = ss
						order = append(order, sl)
					}
					if _, had := modes[sl]; !had {
						modes[sl] = ss.mode
					}
					now := ss.mode
					ss.mode = modes[sl]
					if now == slotDoc && ss.mode == slotEnum {
						ss.mode = slotDoc
						return
					}
					m := e.upgrade(ss, b)
					if now != modes[sl] && m != now {
						m = slotHavoc
					}
					ss.mode = m
					if m != now {
						changed = true
					}
				})
			}
		}
		for _, sl := range order {
			ss := slots[sl]
			if ss.mode != slotEnum {
				continue
			}
			all := true
			for _, en := range ends {
				if v := e.slotGet(en, sl); v == nil || v.key() != ss.w.key() {
					all = false
				}
			}
			if all != ss.all {
				ss.all = all
				changed = true
			}
		}
		if !changed {
			break
		}
		sort.Slice(order, func(i, j int) bool { return slots[order[i]].id < slots[order[j]].id })
	}

	// what each kind of iteration contributes
	conds := make([]pathCond, len(ends))
	for i, en := range ends {
		for a, v := range en.atoms {
			if _, had := start.atoms[a]; !had && !strings.HasPrefix(a, "done:") {
				conds[i] = append(conds[i], literal{a, v})
			}
		}
		sort.Slice(conds[i], func(x, y int) bool { return conds[i][x].atom < conds[i][y].atom })
	}
	conds = dropCommon(conds)
	lp := &loopInfo{idx: sp.idx, from: sp.from, to: sp.to, conds: conds, partial: len(brks) > 0 || !sp.exact}
	pre := *lp
	pre.to = ps(sp.idx)
	pre.partial = false
	if !sp.exact {
		// the index only counts iterations
		pre.from = poly{}
	}
	sub := &subst{e: e, ints: map[string]poly{}, lists: map[string][]seg{}, docs: map[string]doc{}, vals: map[string]val{}}
	total := map[slot]val{}
	intDelta := map[slot][]poly{}
	for _, sl := range order {
		ss := slots[sl]
		switch ss.mode {
		case slotInt:
			var per []poly
			name := carried(sl, ss).(vInt).p
			for _, en := range ends {
				p, _ := asPoly(e.slotGet(en, sl))
				per = append(per, p.sub(name))
			}
			intDelta[sl] = per
			p0, _ := asPoly(ss.v0)
			sub.ints[name.String()] = p0.add(e.loopSum(&pre, per))
		case slotList, slotMap:
			var per []poly
			for _, en := range ends {
				per = append(per, e.segsLen(nil, deltaSegs(e.slotGet(en, sl))))
			}
			sub.ints["clen:"+ss.id] = e.segsLen(nil, baseSegs(e, ss.v0)).add(e.loopSum(&pre, per))
		}
	}
	for _, sl := range order {
		ss := slots[sl]
		switch ss.mode {
		case slotList, slotMap:
			var paths [][]seg
			upd := false
			for _, en := range ends {
				d := deltaSegs(e.slotGet(en, sl))
				for _, x := range d {
					if x.kind == segUpd {
						upd = true
					}
					if p, ok := x.v.(vPtr); ok && x.kind == segOne {
						if _, had := start.heap[p.l]; !had && en.heap[p.l] != nil {
							e.made[p.l] = en.heap[p.l]
						}
					}
				}
				paths = append(paths, sub.segs(d))
			}
			base := baseSegs(e, ss.v0)
			var full, part []seg
			if upd {
				full, part = e.foldUpdates(lp, &pre, base, paths)
			} else {
				full = append(append([]seg{}, base...), seg{kind: segLoop, lp: lp, paths: paths})
				part = append(append([]seg{}, base...), seg{kind: segLoop, lp: &pre, paths: paths})
				if a, ok := loopAsAll(full[len(full)-1]); ok && ss.mode == slotList {
					full[len(full)-1] = a
				}
			}
			sub.lists[ss.id] = part
			if ss.mode == slotMap {
				total[sl] = &vMap{full}
			} else {
				total[sl] = &vList{segs: full}
			}
		case slotDoc:
			var paths []doc
			for _, en := range ends {
				paths = append(paths, sub.doc(docOf(e.slotGet(en, sl))[1:]))
			}
			base := docOf(ss.v0)
			sub.docs[ss.id] = base.cat(doc{{kind: pLoop, lp: &pre, paths: paths}})
			f := base.cat(doc{{kind: pLoop, lp: lp, paths: paths}})
			if _, ok := ss.v0.(vBuilder); ok {
				total[sl] = vBuilder{f}
			} else {
				total[sl] = vStr{f}
			}
		case slotInt:
			p0, _ := asPoly(ss.v0)
			var per []poly
			for _, p := range intDelta[sl] {
				per = append(per, sub.poly(p))
			}
			total[sl] = vInt{p0.add(e.loopSum(lp, per))}
		case slotHavoc, slotEnum:
			total[sl] = mkSym(fmt.Sprintf("after:%s#%d", ss.id, e.freshN()), typeOfVal(ss.v0))
		}
	}

	// the body again, now with the real state of an arbitrary iteration
	prefix := func(sl slot, ss *slotState) val {
		v := carried(sl, ss)
		switch v := v.(type) {
		case vInt:
			return vInt{sub.poly(v.p)}
		case *vList:
			return &vList{segs: sub.segs(v.segs)}
		case *vMap:
			return &vMap{segs: sub.segs(v.segs)}
		case vStr:
			return vStr{sub.doc(v.d)}
		case vBuilder:
			return vBuilder{sub.doc(v.d)}
		}
		return v
	}
	n0 := len(brks)
	if e.explore == 0 || sp.body != nil && hasReturn(sp.body) || n0 > 0 {
		run(enter(prefix), false, func(*state) {}, func(s *state) {
			k(s)
		})
	}
	if sp.endless {
		return
	}
	after := st.clone()
	for _, sl := range order {
		if v, ok := total[sl]; ok {
			e.store(after, vPtr{l: sl.l, path: sl.path}, v)
		}
	}
	if sp.body != nil && sp.exact && hasReturn(sp.body) {
		// nothing was found on the way
		after.atoms["done:"+sp.to.String()] = true
	}
	if sp.cond != nil {
		n := *c
		e.branch(&n, sp.cond, after, func(*state) {}, k)
		return
	}
	k(after)
}

func isBlank(x ast.Expr) bool {
	id, ok := x.(*ast.Ident)
	return x == nil || ok && id.Name == "_"
}

// composed: a list built by loops whose iterations do not all add one element
// of one form.
func composed(segs []seg) bool {
	some := false
	for _, s := range segs {
		switch s.kind {
		case segOne, segAll:
		case segLoop:
			if s.lp.partial || len(s.paths) != len(s.lp.conds) {
				return false
			}
			same := true
			for _, p := range s.paths {
				if !allOnes(p) {
					return false
				}
				if len(p) != 1 || len(s.paths[0]) != 1 || p[0].key() != s.paths[0][0].key() {
					same = false
				}
			}
			if !same {
				some = true
			}
		default:
			return false
		}
	}
	return some
}

// eachOf runs a body for every element of a composed list, in order.
func (e *absEngine) eachOf(c *ctx, segs []seg, et types.Type, run func(c *ctx, el val, st *state, k func(*state)), st *state, k func(*state)) {
	if len(segs) == 0 {
		k(st)
		return
	}
	s := segs[0]
	rest := func(st *state) { e.eachOf(c, segs[1:], et, run, st, k) }
	idx := fmt.Sprintf("i$%d", c.depth+1)
	sp := &loopSpec{idx: idx, exact: true}
	sp.bind = func(c *ctx, st *state, k func(*state)) { k(st) }
	switch s.kind {
	case segOne:
		// one round of the loop
		sp.from, sp.to = poly{}, pc(1)
		sp.run = func(c *ctx, st *state, k func(*state)) { run(c, s.v, st, k) }
	case segAll:
		sp.from, sp.to = s.from, s.to
		sp.run = func(c *ctx, st *state, k func(*state)) { run(c, e.elem(s.v, ps(idx), et), st, k) }
	case segLoop:
		sp.from, sp.to = s.lp.from, s.lp.to
		sp.run = func(c *ctx, st *state, k func(*state)) {
			sb := &subst{e: e, ints: map[string]poly{s.lp.idx: ps(idx)}}
			for i, p := range s.paths {
				n := st.clone()
				ok := true
				for _, l := range s.lp.conds[i] {
					if !n.assume(renameIndex(l.atom, s.lp.idx, idx), l.pos) {
						ok = false
						break
					}
				}
				if !ok {
					continue
				}
				var els func(j int, st *state)
				els = func(j int, st *state) {
					if j == len(p) {
						k(st)
						return
					}
					m := *c
					m.cont = func(st *state) { els(j+1, st) }
					run(&m, sb.val(p[j].v), st, m.cont)
				}
				els(0, n)
			}
		}
	}
	e.loop(c, sp, st, rest)
}

// renameIndex replaces the name of a loop index in the text of a condition.
func renameIndex(atom, from, to string) string {
	if from == to {
		return atom
	}
	var b strings.Builder
	for i := 0; i < len(atom); {
		j := strings.Index(atom[i:], from)
		if j < 0 {
			b.WriteString(atom[i:])
			break
		}
		j += i
		end := j + len(from)
		b.WriteString(atom[i:j])
		if end < len(atom) && (atom[end] >= '0' && atom[end] <= '9') {
			b.WriteString(from)
		} else {
			b.WriteString(to)
		}
		i = end
	}
	return b.String()
}

func hasReturn(b ast.Node) bool {
	found := false
	ast.Inspect(b, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.ReturnStmt, *ast.BranchStmt:
			found = true
		}
		return true
	})
	return found
}

func typeOfVal(v val) types.Type {
	switch v := v.(type) {
	case *sym:
		return v.typ
	case *vStruct:
		return v.typ
	case *vList:
		return v.typ
	case vBool:
		return types.Typ[types.Bool]
	case vStr:
		return types.Typ[types.String]
	case vInt:
		return types.Typ[types.Int]
	}
	return nil
}

func docOf(v val) doc {
	switch v := v.(type) {
	case vBuilder:
		return v.d
	case vStr:
		return v.d
	}
	return nil
}

func baseSegs(e *absEngine, v val) []seg {
	if m, ok := v.(*vMap); ok {
		return m.segs
	}
	return e.toSegs(nil, v)
}

// deltaSegs drops the carried head of a list.
func deltaSegs(v val) []seg {
	switch v := v.(type) {
	case *vList:
		return v.segs[1:]
	case *vMap:
		return v.segs[1:]
	}
	return nil
}

// foldUpdates handles loops that fill a list by index.
func (e *absEngine) foldUpdates(lp, pre *loopInfo, base []seg, paths [][]seg) (full, part []seg) {
	bad := []seg{{kind: segUnknown, id: fmt.Sprint(e.freshN())}}
	if len(base) != 1 || base[0].kind != segFill || !base[0].to.eq(lp.to) || len(lp.from) != 0 || lp.partial {
		return bad, bad
	}
	var out [][]seg
	for _, p := range paths {
		switch {
		case len(p) == 1 && p[0].kind == segUpd && p[0].from.eq(ps(lp.idx)):
			out = append(out, []seg{{kind: segOne, v: p[0].v}})
		case len(p) == 0:
			out = append(out, []seg{{kind: segFill, to: pc(1)}})
		default:
			return bad, bad
		}
	}
	f := seg{kind: segLoop, lp: lp, paths: out}
	if a, ok := loopAsAll(f); ok {
		f = a
	}
	return []seg{f}, []seg{{kind: segLoop, lp: pre, paths: out}, {kind: segFill, to: lp.to.sub(ps(lp.idx))}}
}

// dropCommon removes the conditions every iteration meets.
func dropCommon(cs []pathCond) []pathCond {
	if len(cs) == 0 {
		return cs
	}
	count := map[literal]int{}
	for _, c := range cs {
		for _, l := range c {
			count[l]++
		}
	}
	out := make([]pathCond, len(cs))
	for i, c := range cs {
		for _, l := range c {
			if count[l] != len(cs) {
				out[i] = append(out[i], l)
			}
		}
	}
	return out
}

// diff reports the places where two values of a location differ.
func (e *absEngine) diff(s0, s1 *state, sl slot, a, b val, report func(slot, val, val)) {
	if b == nil || a == nil || a.key() == b.key() {
		return
	}
	sa, ok1 := a.(*vStruct)
	sb, ok2 := b.(*vStruct)
	if ok2 && !ok1 {
		if sy, isSym := a.(*sym); isSym && sb.base != nil && sb.base.k == sy.k {
			sa, ok1 = &vStruct{base: sy, typ: sb.typ, f: map[string]val{}}, true
		}
	}
	if ok1 && ok2 && (sa.base == nil) == (sb.base == nil) && (sa.base == nil || sa.base.k == sb.base.k) {
		names := map[string]bool{}
		for n := range sa.f {
			names[n] = true
		}
		for n := range sb.f {
			names[n] = true
		}
		var ns []string
		for n := range names {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		for _, n := range ns {
			p := n
			if sl.path != "" {
				p = sl.path + "." + n
			}
			e.diff(s0, s1, slot{sl.l, p}, e.field(s0, sa, n, nil), e.field(s1, sb, n, nil), report)
		}
		return
	}
	report(sl, a, b)
}

// upgrade picks how a changing place is summarised.
func (e *absEngine) upgrade(ss *slotState, b val) slotMode {
	switch ss.mode {
	case slotInv:
		if smallConst(ss.v0) && smallConst(b) {
			ss.w = b
			return slotEnum
		}
		switch v := ss.v0.(type) {
		case vInt:
			if _, ok := asPoly(b); ok {
				return slotInt
			}
		case *sym:
			if isIntType(v.typ) {
				return slotInt
			}
			if _, ok := b.(*vList); ok {
				return slotList
			}
		case *vList:
			return slotList
		case vBuilder, vStr:
			return slotDoc
		case *vMap:
			return slotMap
		}
		return slotHavoc
	case slotEnum:
		if k := b.key(); k == ss.v0.key() || k == ss.w.key() {
			return slotEnum
		}
		// a text that grows and is not switched
		if _, ok := ss.v0.(vStr); ok {
			return slotDoc
		}
		return slotHavoc
	case slotInt:
		p, ok := asPoly(b)
		if !ok {
			return slotHavoc
		}
		d := p.sub(ps("c:" + ss.id))
		if _, direct := p["c+:"+ss.id]; direct {
			d = p.sub(ps("c+:" + ss.id))
		}
		for m := range d {
			for _, f := range strings.Split(m, "\x00") {
				if strings.HasPrefix(f, "c:") || strings.HasPrefix(f, "c+:") || strings.HasPrefix(f, "clen:") || strings.HasPrefix(f, "h:") {
					return slotHavoc
				}
			}
		}
		return slotInt
	case slotList, slotMap:
		var segs []seg
		switch b := b.(type) {
		case *vList:
			segs = b.segs
		case *vMap:
			segs = b.segs
		default:
			return slotHavoc
		}
		if len(segs) == 0 || segs[0].kind != segCarried || segs[0].id != ss.id || strings.Contains(segsKey(segs[1:]), "carried:"+ss.id+",") {
			return slotHavoc
		}
		return ss.mode
	case slotDoc:
		d := docOf(b)
		if len(d) == 0 || d[0].kind != pCarried || d[0].s != ss.id {
			return slotHavoc
		}
		return slotDoc
	}
	return slotHavoc
}
