package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"regexp/syntax"
	"sort"
	"strconv"
	"strings"
)

// P36: which sources, directories, files, declarations become models, decided
// by interpreting one iteration of every loop between the configured sources
// and the found structs, from an arbitrary state.

func init() {
	register("P36", "One iteration of every loop between the configured sources and the models is interpreted from an arbitrary state: sources, directories, the callbacks of tree walks, files, declarations and tables. On every path an element is passed over only for a documented reason, the list loses exactly that element, the loop is left only with an error, and what is looked into, matched and stored is the element itself. The regular expression built for a wildcard source is checked piece by piece: text of the path is quoted, a wildcard stands for any name, `**` for any directories.", checkP36)
}

// nestEnd is the end of one iteration of a loop of a nest, or of a call of a
// function handed to a walk.
type nestEnd struct {
	bodyEnd
	tag   string
	entry *nestEntry
}

// nestEntry is the state in which a loop of a nest starts.
type nestEntry struct {
	tag  string
	loop ast.Stmt
	cx   *ctx
	st   *state               // before the first iteration
	vars map[types.Object]val // at the start of the iteration looked at
	over val                  // what a range loop runs over
	elem val
}

type nest struct {
	c       *Ctx
	e       *absEngine
	is      func(d *declSite, n ast.Node) bool
	ends    []nestEnd
	entries []*nestEntry
	top     *bodyRun
	depth   int
}

// outermostReaching lists the outermost loops of a package which satisfy the
// predicate in their body.
func outermostReaching(l *Loaded, pkg string, is func(d *declSite, n ast.Node) bool) (decls []*declSite, loops []ast.Stmt) {
	var fns []*types.Func
	for o, d := range l.declOf {
		if f, ok := o.(*types.Func); ok && d.pkg.PkgPath == pkg && d.fd.Body != nil {
			fns = append(fns, f)
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].Pos() < fns[j].Pos() })
	inside := map[types.Object]bool{} // called from a loop which is listed
	type cand struct {
		d *declSite
		s ast.Stmt
		f *types.Func
	}
	var cs []cand
	for _, f := range fns {
		d := l.declOf[f]
		dd := d
		var walk func(n ast.Node) bool
		walk = func(n ast.Node) bool {
			b := loopBody(n)
			if b == nil {
				return true
			}
			seen := map[types.Object]bool{}
			if !reaches(l, &dd, b, is, 4, seen) {
				return true
			}
			cs = append(cs, cand{&dd, n.(ast.Stmt), f})
			markCalled(l, &dd, b, 4, inside)
			return false
		}
		ast.Inspect(d.fd.Body, walk)
	}
	for _, x := range cs {
		if inside[x.f] {
			continue
		}
		decls = append(decls, x.d)
		loops = append(loops, x.s)
	}
	return
}

func markCalled(l *Loaded, d *declSite, n ast.Node, depth int, seen map[types.Object]bool) {
	ast.Inspect(n, func(x ast.Node) bool {
		if id, ok := x.(*ast.Ident); ok && depth > 0 {
			if f, ok := d.pkg.TypesInfo.Uses[id].(*types.Func); ok && !seen[f.Origin()] {
				if dd, ok := l.declOf[f.Origin()]; ok && dd.fd.Body != nil && dd.pkg == d.pkg {
					seen[f.Origin()] = true
					markCalled(l, &dd, dd.fd.Body, depth-1, seen)
				}
			}
		}
		return true
	})
}

func loopBody(n ast.Node) *ast.BlockStmt {
	switch s := n.(type) {
	case *ast.RangeStmt:
		return s.Body
	case *ast.ForStmt:
		return s.Body
	}
	return nil
}

// nestOf interprets a loop and the loops of its body which lead to the same
// place, each for an arbitrary iteration.
func nestOf(c *Ctx, d *declSite, loop ast.Stmt, is func(d *declSite, n ast.Node) bool, prepare func(n *nest)) *nest {
	e := newAbs(c.L)
	e.peel = true
	n := &nest{c: c, e: e, is: is}
	st := &state{heap: map[loc]val{}, atoms: map[string]bool{}}
	e.skip = func(cx *ctx, s ast.Stmt, st *state) bool {
		b := loopBody(s)
		if b == nil {
			return false
		}
		if !reaches(c.L, &declSite{pkg: cx.fr.pkg}, b, is, 4, map[types.Object]bool{}) {
			return n.other(cx, s, st)
		}
		n.inner(cx, s, st)
		return true
	}
	if prepare != nil {
		prepare(n)
	}
	top := &nestEntry{tag: n.tag(loop, d, true), loop: loop, vars: map[types.Object]val{}}
	n.entries = append(n.entries, top)
	n.top = runBody(e, d, loop, st, func(o *types.Var, elem bool) val {
		if elem {
			v := mkSym("elem:"+top.tag, o.Type())
			top.elem = v
			return v
		}
		return nil
	})
	for o, v := range n.top.vars {
		top.vars[o] = v
	}
	for _, en := range n.top.ends {
		n.ends = append(n.ends, nestEnd{en, top.tag, top})
	}
	return n
}

// other handles a loop on the way which does not lead there: short lists
// written out are walked, of other loops only the returns are followed.
func (n *nest) other(cx *ctx, s ast.Stmt, st *state) bool {
	e := n.e
	if r, ok := s.(*ast.RangeStmt); ok {
		if lit, ok := ast.Unparen(r.X).(*ast.CompositeLit); ok && len(lit.Elts) <= 12 {
			return false
		}
	}
	if !hasReturn(loopBody(s)) {
		havocLoop(e, cx, s, st)
		return true
	}
	if f, ok := s.(*ast.ForStmt); ok && f.Init != nil {
		e.stmt(cx, f.Init, st, func(*state) {})
	}
	havocLoop(e, cx, s, st)
	m := *cx
	m.depth++
	drop := func(*state) {}
	m.brk, m.cont = drop, drop
	m.lbl = map[string]*ctx{}
	for k := range cx.lbl {
		m.lbl[k] = &ctx{brk: drop, cont: drop}
	}
	if cx.label != "" {
		m.lbl[cx.label] = &m
	}
	m.label = ""
	over := ""
	if r, ok := s.(*ast.RangeStmt); ok {
		e.eval(cx, r.X, st.clone(), func(it *state, x val) {
			if p, ok := x.(vPtr); ok {
				x = e.load(it, p)
			}
			over = x.key()
			idx := e.freshSym("some", types.Typ[types.Int])
			set := func(lhs ast.Expr, v val, st *state, k func(*state)) {
				if lhs == nil {
					k(st)
					return
				}
				e.assign(&m, lhs, v, st, k)
			}
			var kv val = idx
			var et types.Type
			switch u := cx.typeOf(r.X).Underlying().(type) {
			case *types.Slice:
				kv, et = vInt{ps(idx.k)}, u.Elem()
			case *types.Array:
				kv, et = vInt{ps(idx.k)}, u.Elem()
			case *types.Map:
				et = u.Elem()
			}
			set(r.Key, kv, it, func(it *state) {
				set(r.Value, e.elem(x, ps(idx.k), et), it, func(it *state) { e.stmts(&m, r.Body.List, it, drop) })
			})
		})
	} else {
		e.stmts(&m, loopBody(s).List, st.clone(), drop)
	}
	st.atoms["none:"+over] = true
	return true
}

// tag names a loop after what its body does.
func (n *nest) tag(s ast.Stmt, d *declSite, top bool) string {
	inner := false
	ast.Inspect(loopBody(s), func(x ast.Node) bool {
		if b := loopBody(x); b != nil && reaches(n.c.L, d, b, n.is, 4, map[types.Object]bool{}) {
			inner = true
		}
		if id, ok := x.(*ast.Ident); ok {
			if f, ok := d.pkg.TypesInfo.Uses[id].(*types.Func); ok {
				if dd, ok := n.c.L.declOf[f.Origin()]; ok && dd.fd.Body != nil && dd.pkg == d.pkg && n.hasLoop(&dd, 3) {
					inner = true
				}
			}
		}
		return !inner
	})
	switch {
	case inner && top:
		return "outer"
	case inner:
		return "middle"
	}
	return "inner"
}

// hasLoop: a function contains, or calls one which contains, a loop of the nest.
func (n *nest) hasLoop(d *declSite, depth int) bool {
	hit := false
	ast.Inspect(d.fd.Body, func(x ast.Node) bool {
		if b := loopBody(x); b != nil && reaches(n.c.L, d, b, n.is, 4, map[types.Object]bool{}) {
			hit = true
		}
		if id, ok := x.(*ast.Ident); ok && depth > 0 && !hit {
			if f, ok := d.pkg.TypesInfo.Uses[id].(*types.Func); ok {
				if dd, ok := n.c.L.declOf[f.Origin()]; ok && dd.fd != d.fd && dd.fd.Body != nil && dd.pkg == d.pkg && n.hasLoop(&dd, depth-1) {
					hit = true
				}
			}
		}
		return !hit
	})
	return hit
}

func (n *nest) record(en nestEnd) {
	if n.e.explore == 0 {
		n.ends = append(n.ends, en)
	}
}

// inner interprets an arbitrary iteration of a loop which is met on the way;
// afterwards st is the state behind the loop.
func (n *nest) inner(cx *ctx, s ast.Stmt, st *state) {
	e := n.e
	en := &nestEntry{tag: n.tag(s, &declSite{pkg: cx.fr.pkg}, false), loop: s, cx: cx, st: st.clone(), vars: map[types.Object]val{}}
	if e.explore == 0 {
		n.entries = append(n.entries, en)
	}
	if f, ok := s.(*ast.ForStmt); ok && f.Init != nil {
		e.stmt(cx, f.Init, st, func(*state) {})
	}
	havocLoop(e, cx, s, st)
	it := st.clone()
	for _, o := range changed(cx.info(), s) {
		if p, ok := e.lookup(cx, it, o); ok {
			en.vars[o] = e.load(it, p)
		}
	}
	for _, o := range initVars(cx.info(), s) {
		if p, ok := e.lookup(cx, it, o); ok {
			en.vars[o] = e.load(it, p)
		}
	}
	fr := *cx.fr
	fr.ret = func(st *state, vs []val) { n.record(nestEnd{bodyEnd{"return", st.clone(), vs}, en.tag, en}) }
	m := *cx
	m.fr = &fr
	m.depth++
	add := func(kind string) func(*state) {
		return func(st *state) { n.record(nestEnd{bodyEnd{kind: kind, st: st.clone()}, en.tag, en}) }
	}
	m.brk, m.cont = add("break"), add("next")
	m.lbl = map[string]*ctx{}
	for k, v := range cx.lbl {
		_ = v
		m.lbl[k] = &ctx{brk: add("break " + k), cont: add("continue " + k)}
	}
	if cx.label != "" {
		m.lbl[cx.label] = &m
	}
	m.jump = map[string]func(*state){}
	for k := range cx.jump {
		m.jump[k] = add("goto " + k)
	}
	m.label = ""
	run := func(st *state) { e.stmts(&m, loopBody(s).List, st, m.cont) }
	if r, ok := s.(*ast.RangeStmt); ok {
		e.eval(cx, r.X, it, func(st *state, x val) {
			if p, ok := x.(vPtr); ok {
				x = e.load(st, p)
			}
			en.over = x
			var kt, vt types.Type
			switch u := cx.typeOf(r.X).Underlying().(type) {
			case *types.Slice:
				kt, vt = types.Typ[types.Int], u.Elem()
			case *types.Array:
				kt, vt = types.Typ[types.Int], u.Elem()
			case *types.Map:
				kt, vt = u.Key(), u.Elem()
			}
			var ev val = mkSym("elem:"+en.tag, vt)
			en.elem = ev
			set := func(lhs ast.Expr, v val, st *state, k func(*state)) {
				if lhs == nil {
					k(st)
					return
				}
				e.assign(&m, lhs, v, st, k)
			}
			var kv val = mkSym("key:"+en.tag, kt)
			if kt != nil && isIntType(kt.Underlying()) {
				kv = vInt{ps("key:" + en.tag)}
			}
			set(r.Key, kv, st, func(st *state) { set(r.Value, ev, st, run) })
		})
	} else {
		run(it)
	}
	st.atoms["visited:"+en.tag] = true
}

// initVars lists the variables a for statement declares.
func initVars(info *types.Info, s ast.Stmt) (out []types.Object) {
	if f, ok := s.(*ast.ForStmt); ok {
		if a, ok := f.Init.(*ast.AssignStmt); ok {
			for _, x := range a.Lhs {
				if id, ok := x.(*ast.Ident); ok && info.Defs[id] != nil {
					out = append(out, info.Defs[id])
				}
			}
		}
	}
	return
}

func dumpNest(n *nest) {
	if os.Getenv("DBG") == "" {
		return
	}
	for _, p := range uniq(append(n.top.problems, n.e.problems...)) {
		fmt.Println("PROBLEM", p)
	}
	for _, en := range n.entries {
		fmt.Println("ENTRY", en.tag, n.c.L.prog.Fset.Position(en.loop.Pos()))
		if en.st != nil {
			for o := range en.vars {
				if p, ok := n.e.lookup(en.cx, en.st, o); ok {
					fmt.Println("   var", o.Name(), "=", n.e.load(en.st, p).key())
				}
			}
		}
	}
	for _, en := range n.ends {
		var as []string
		for a, b := range en.st.atoms {
			as = append(as, fmt.Sprintf("%v=%v", a, b))
		}
		sort.Strings(as)
		fmt.Println("END", en.tag, en.kind)
		for _, v := range en.vals {
			fmt.Println("   ret", v.key())
		}
		for _, a := range as {
			fmt.Println("    ", a)
		}
		if en.entry != nil {
			for o := range en.entry.vars {
				if en.entry.cx != nil {
					if p, ok := n.e.lookup(en.entry.cx, en.st, o); ok {
						fmt.Println("   var", o.Name(), "=", n.e.load(en.st, p).key())
					}
				} else if v := n.top.at(en.bodyEnd, o); v != nil {
					fmt.Println("   var", o.Name(), "=", v.key())
				}
			}
		}
	}
}

func checkP36(c *Ctx) {
	discovery(c)
	sources(c)
	allSources(c)
	matchers(c)
	emptyDirectory(c)
	tables(c)
	lookups(c)
	c.Min("lookup", 1)
	c.Min("table", 1)
	c.Min("declaration", 8)
	c.Min("file", 4)
	c.Min("source", 6)
	c.Min("directory", 6)
	c.Min("walk", 2)
	c.Min("matcher", 3)
	c.Min("all-sources", 1)
	c.Min("empty-directory", 2)
}

// atomsWith lists the atoms which contain all the texts, with their values.
func atomsWith(st *state, subs ...string) map[bool]bool {
	out := map[bool]bool{}
next:
	for a, v := range st.atoms {
		for _, s := range subs {
			if !strings.Contains(a, s) {
				continue next
			}
		}
		out[v] = true
	}
	return out
}

// starts is like atomsWith for the beginning of an atom.
func starts(st *state, prefix string) map[bool]bool {
	out := map[bool]bool{}
	for a, v := range st.atoms {
		if strings.HasPrefix(a, prefix) {
			out[v] = true
		}
	}
	return out
}

// asks reports what the atoms that mention all the texts make of a question;
// an atom of one of the kinds in whenFalse answers it by being false.
func asks(st *state, whenFalse []string, subs ...string) map[bool]bool {
	out := map[bool]bool{}
next:
	for a, v := range st.atoms {
		for _, s := range subs {
			if !strings.Contains(a, s) {
				continue next
			}
		}
		for _, w := range whenFalse {
			if strings.HasPrefix(a, w) {
				v = !v
				break
			}
		}
		out[v] = true
	}
	return out
}

// failing: a return with an error that is not nil.
func failing(en bodyEnd) bool {
	if en.kind != "return" || len(en.vals) == 0 {
		return false
	}
	v := en.vals[len(en.vals)-1]
	if isNilVal(v) {
		return false
	}
	switch x := v.(type) {
	case *sym:
		if b, ok := en.st.atoms["nil:"+x.k]; ok {
			return !b
		}
		return strings.HasPrefix(x.k, "global:") || strings.HasPrefix(x.k, "call:fmt.Errorf") || strings.HasPrefix(x.k, "call:errors.New") || strings.HasPrefix(x.k, "new:call:fmt.Errorf") || strings.HasPrefix(x.k, "new:call:errors.New")
	case vPtr, *vStruct:
		return true
	}
	return false
}

// advances says the queue a loop works on loses exactly its first element, or
// the loop ranges over all elements of a list.
func (n *nest) advances(en nestEnd) string {
	switch s := en.entry.loop.(type) {
	case *ast.RangeStmt:
		if _, cut := ast.Unparen(s.X).(*ast.SliceExpr); cut {
			return "the loop leaves out elements of the list"
		}
		return ""
	case *ast.ForStmt:
		info := n.top.d.pkg.TypesInfo
		if en.entry.cx != nil {
			info = en.entry.cx.info()
		}
		if s.Cond == nil {
			return "an endless loop"
		}
		var q types.Object
		if b, ok := ast.Unparen(s.Cond).(*ast.BinaryExpr); ok {
			for _, x := range []ast.Expr{b.X, b.Y} {
				if call, ok := ast.Unparen(x).(*ast.CallExpr); ok && len(call.Args) == 1 {
					if id, ok := call.Fun.(*ast.Ident); ok && id.Name == "len" {
						if a, ok := ast.Unparen(call.Args[0]).(*ast.Ident); ok {
							q = info.Uses[a]
						}
					}
				}
			}
			op, y := b.Op, b.Y
			if _, isLen := ast.Unparen(b.Y).(*ast.CallExpr); isLen {
				y = b.X
				switch op {
				case token.LSS:
					op = token.GTR
				case token.LEQ:
					op = token.GEQ
				case token.GTR, token.GEQ:
					op = token.ILLEGAL
				}
			}
			tv := info.Types[y]
			if s.Init == nil && q != nil {
				ok := tv.Value != nil && (tv.Value.ExactString() == "0" && (op == token.GTR || op == token.NEQ) || tv.Value.ExactString() == "1" && op == token.GEQ)
				if !ok {
					return "the loop does not run until the list is empty"
				}
			}
		}
		if s.Init != nil {
			// for i := 0; i < len(list); i++
			b, ok := ast.Unparen(s.Cond).(*ast.BinaryExpr)
			a, ok2 := s.Init.(*ast.AssignStmt)
			_, ok3 := s.Post.(*ast.IncDecStmt)
			if !ok || !ok2 || !ok3 || b.Op != token.LSS || q == nil || len(a.Rhs) != 1 || info.Types[a.Rhs[0]].Value == nil || info.Types[a.Rhs[0]].Value.ExactString() != "0" {
				return "the loop is not seen to cover the whole list"
			}
			return ""
		}
		if q == nil {
			return "the loop is not seen to work on a list"
		}
		var before, after val
		if en.entry.cx != nil {
			before = en.entry.vars[q]
			if p, ok := n.e.lookup(en.entry.cx, en.st, q); ok {
				after = n.e.load(en.st, p)
			}
		} else {
			before, after = n.top.vars[q], n.top.at(en.bodyEnd, q)
		}
		if before == nil || after == nil {
			return "the list the loop works on is lost"
		}
		bk := before.key()
		segs := n.e.toSegs(en.st, after)
		if len(segs) != 1 || segs[0].kind != segAll || segs[0].v.key() != bk || segs[0].from.String() != "1" || segs[0].to.String() != "len("+bk+")" {
			return "after an element the remaining elements become " + short(after.key())
		}
		return ""
	}
	return ""
}

// ---- which declarations of a package become structs

func discovery(c *Ctx) {
	is := literalOf(compPath, "structCache")
	ds, ls := outermostReaching(c.L, compPath, is)
	for i := range ds {
		c.Analysed(ds[i].fd.Name.Name + " (files, nodes, declarations)")
		n := nestOf(c, ds[i], ls[i], is, func(n *nest) {
			n.e.inst = map[*types.TypeParam]types.Type{}
			n.e.external = n.walks
		})
		dumpNest(n)
		if p := uniq(append(n.top.problems, n.e.problems...)); len(p) > 0 {
			c.Bad("interpretable", "declarations", ls[i].Pos(), "%s", short(strings.Join(p, "; ")))
			continue
		}
		n.files()
		n.declarations()
	}
}

func (n *nest) where(en nestEnd) token.Pos { return en.entry.loop.Pos() }

// files checks the ends of the loop over files and of the visits of nodes.
func (n *nest) files() {
	for _, en := range n.ends {
		st := en.st
		switch {
		case en.tag == "outer":
			var bad []string
			switch {
			case en.kind == "next":
				if m := n.advances(en); m != "" {
					bad = append(bad, m)
				}
				visited := starts(st, "visited:")[true]
				generated := atomsWith(st, "IsGenerated(")
				unmatched := starts(st, "m:Match(")
				if !visited && !yes(generated) && !no(unmatched) && !n.noDecls(st) {
					bad = append(bad, "a file which is not generated is left out: "+n.story(st))
				}
				if visited && !no(generated) {
					bad = append(bad, "the declarations of a generated file are visited")
				}
			case !failing(en.bodyEnd):
				bad = append(bad, "the remaining files are left out ("+en.kind+")")
			}
			fmtBad(n.c, "file", "end "+en.kind, n.where(en), bad, "all files but the generated ones", "")
		case en.tag == "middle":
			// a loop over the declarations of the file
			var bad []string
			if en.entry.over == nil || !strings.HasPrefix(en.entry.over.key(), ".Decls(") {
				bad = append(bad, "the declarations are looked for in something else than a file")
			}
			isType := false
			for a, v := range st.atoms {
				if strings.Contains(a, ".Tok(elem:middle)") && v {
					isType = true
				}
			}
			gen := starts(st, "is(elem:middle,*ast.GenDecl)")
			switch {
			case en.kind == "next":
				if m := n.advances(en); m != "" {
					bad = append(bad, m)
				}
				if !st.atoms["visited:inner"] && (len(gen) == 0 || yes(gen) && isType) {
					bad = append(bad, "a declaration of types is not looked into: "+n.story(st))
				}
			case !failing(en.bodyEnd):
				bad = append(bad, "the remaining declarations are left out ("+en.kind+")")
			}
			fmtBad(n.c, "file", "node", n.where(en), bad, "every package level declaration of types is looked into", "")
		case strings.HasPrefix(en.tag, "walk:"):
			var bad []string
			visited := st.atoms["visited:inner"]
			gen := starts(st, "is(arg0,*ast.GenDecl)")
			isType := false
			for a, v := range st.atoms {
				if strings.Contains(a, ".Tok(arg0)") && v {
					isType = true
				}
			}
			isNil := starts(st, "nil:arg0")
			if yes(gen) && isType && !visited {
				bad = append(bad, "a declaration of types is not looked into: "+n.story(st))
			}
			if !visited && !yes(isNil) && !starts(st, "is(arg0,")[true] && len(gen) == 0 {
				bad = append(bad, "a node is passed over without being examined")
			}
			ret := ""
			if len(en.vals) == 1 {
				ret = en.vals[0].key()
			}
			someKind, body := false, []string{}
			for a, v := range st.atoms {
				if strings.HasPrefix(a, "is(arg0,") && v && a != "is(arg0,*ast.File)" {
					someKind = true
				}
			}
			for _, t := range []string{"*ast.FuncDecl", "*ast.FuncLit"} {
				if v, ok := st.atoms["is(arg0,"+t+")"]; !ok || v {
					body = append(body, t)
				}
			}
			switch ret {
			case "false":
				if !someKind && !yes(isNil) && !visited {
					bad = append(bad, "the nodes below an arbitrary node are not visited: "+n.story(st))
				}
			case "true":
				if len(body) > 0 && !yes(isNil) && !visited && !yes(gen) {
					bad = append(bad, "the types declared inside of a function are visited ("+strings.Join(body, ", ")+"), generated methods cannot be declared on them")
				}
			default:
				if !visited {
					bad = append(bad, "whether the nodes below are visited is not decided: "+short(ret))
				}
			}
			fmtBad(n.c, "file", "node", n.where(en), bad, "every package level declaration of types is looked into", "")
		}
	}
}

func (n *nest) noDecls(st *state) bool { return starts(st, "zero:len(.Decls(")[true] }

func (n *nest) story(st *state) string {
	var out []string
	for a, v := range st.atoms {
		if strings.HasPrefix(a, "visited:") {
			continue
		}
		if v {
			out = append(out, a)
		} else {
			out = append(out, "!"+a)
		}
	}
	sort.Strings(out)
	return short(strings.Join(out, ", "))
}

// declarations checks the ends of the loop over the declarations of a group.
func (n *nest) declarations() {
	type addition struct {
		en nestEnd
		v  val
	}
	// a declaration is known by what is stored of it
	subjects := map[string]bool{}
	adds := make([][]val, len(n.ends))
	odd := make([]string, len(n.ends))
	for i, en := range n.ends {
		if en.tag != "inner" {
			continue
		}
		for o, before := range en.entry.vars {
			sl, ok := o.Type().Underlying().(*types.Slice)
			if !ok || !namedIs(sl.Elem(), compPath, "structCache") {
				continue
			}
			var after val
			if en.entry.cx != nil {
				if p, ok := n.e.lookup(en.entry.cx, en.st, o); ok {
					after = n.e.load(en.st, p)
				}
			} else {
				after = n.top.at(en.bodyEnd, o)
			}
			if after == nil {
				odd[i] = "the list of structs is lost"
				continue
			}
			add, ok := appended(n.e, after, before.key())
			if !ok {
				odd[i] = "the list of structs becomes " + short(after.key())
				continue
			}
			for _, s := range add {
				if s.kind != segOne {
					odd[i] = "an unknown number of structs is added"
					continue
				}
				v := n.e.plain(en.st, s.v)
				if p, ok := v.(vPtr); ok {
					v = n.e.load(en.st, p)
				}
				adds[i] = append(adds[i], v)
				if x, ok := fieldKey(n.e, en.st, v, "name"); ok && strings.HasPrefix(x, ".Name(") {
					subjects[strings.TrimSuffix(strings.TrimPrefix(x, ".Name("), ")")] = true
				}
			}
		}
	}
	if len(subjects) != 1 {
		n.c.Bad("declaration", "subject", n.entries[0].loop.Pos(), "the structs found are not named after one declaration: %d", len(subjects))
		return
	}
	x := ""
	for k := range subjects {
		x = k
	}
	for i, en := range n.ends {
		if en.tag != "inner" {
			continue
		}
		st := en.st
		var bad []string
		if odd[i] != "" {
			bad = append(bad, odd[i])
		}
		if en.kind != "next" {
			if !failing(en.bodyEnd) {
				bad = append(bad, "the remaining declarations are left out ("+en.kind+")")
			}
			fmtBad(n.c, "declaration", "stop", n.where(en), bad, "an error", "")
			continue
		}
		if m := n.advances(en); m != "" {
			bad = append(bad, m)
		}
		isSpec := starts(st, "is("+x+",*ast.TypeSpec)")
		nilSpec := starts(st, "nil:"+x)
		if st.atoms["nil:"+x] {
			nilSpec = map[bool]bool{true: true}
		}
		alias := asks(st, []string{"eq0:"}, ".Assign("+x+")")
		if _, other := st.atoms["lt0:.Assign("+x+")"]; other {
			alias = nil // positions are never negative
		}
		generic := asks(st, []string{"nil:", "zero:"}, ".TypeParams("+x+")")
		matched := starts(st, "m:Match(")
		exported := atomsWith(st, "xported(", x)
		structT := starts(st, "is(.Type("+x+"),*ast.StructType)")
		selT := starts(st, "is(.Type("+x+"),*ast.SelectorExpr)")
		// the structure of an imported type, or that there is none
		imported := false
		for a, v := range st.atoms {
			switch {
			case strings.HasPrefix(a, "is(.Decl(") && strings.HasSuffix(a, ",*ast.TypeSpec)") && !v,
				strings.HasPrefix(a, "is(.Type(.Decl(") && strings.HasSuffix(a, ",*ast.StructType)") && !v,
				strings.HasPrefix(a, "nil:") && !strings.Contains(a, x) && v,
				strings.HasPrefix(a, "nil:.Decl(") && v,
				strings.HasPrefix(a, "nil:.Type(.Decl(") && v,
				strings.HasPrefix(a, "none:.Syntax(mapget(.Imports(") && v:
				imported = true
			}
		}
		switch len(adds[i]) {
		case 0:
			if !(no(isSpec) || yes(nilSpec) || yes(alias) || yes(generic) || no(matched) || no(exported) ||
				no(structT) && no(selT) || yes(selT) && imported) {
				bad = append(bad, "a declaration of a model is left out: "+n.story(st))
			}
		case 1:
			if !yes(isSpec) {
				bad = append(bad, "something else than a declaration of a type is taken for a model")
			}
			if !no(alias) {
				bad = append(bad, "an alias is taken for a model: methods cannot be declared on it")
			}
			if !no(generic) {
				bad = append(bad, "a generic type is taken for a model: the generated methods cannot name its parameters")
			}
			if !yes(matched) {
				bad = append(bad, "a declaration of a file which the source does not match is taken for a model")
			}
			if !yes(exported) {
				bad = append(bad, "an unexported type is taken for a model")
			}
			t, _ := fieldKey(n.e, st, adds[i][0], "t")
			p, _ := fieldKey(n.e, st, adds[i][0], "pkg")
			switch {
			case yes(structT):
				if t != ".Type("+x+")" {
					bad = append(bad, "the fields of the model are those of "+short(t))
				}
				if strings.HasPrefix(p, "mapget(.Imports(") {
					bad = append(bad, "the model is looked up in an imported package")
				}
			case yes(selT):
				if !strings.HasPrefix(t, ".Type(.Decl(") {
					bad = append(bad, "the fields of the imported struct are those of "+short(t))
				}
				if !strings.HasPrefix(p, "mapget(.Imports(") || !strings.Contains(p, ".Sel(.Type("+x+"))") {
					bad = append(bad, "the imported struct is looked up in "+short(p))
				}
			default:
				bad = append(bad, "a type that is no struct is taken for a model")
			}
			for a := range st.atoms {
				if strings.HasPrefix(a, "m:Match(") && !strings.Contains(a, x) && !strings.Contains(a, "elem:") && !strings.Contains(a, "arg0") {
					bad = append(bad, "what the source has to match is not the file of the declaration: "+short(a))
				}
			}
		default:
			bad = append(bad, "a declaration becomes several models")
		}
		fmtBad(n.c, "declaration", fmt.Sprintf("%d found", len(adds[i])), n.where(en), bad, "exactly the exported structs of the matching files", "")
	}
}

func fieldKey(e *absEngine, st *state, v val, name string) (string, bool) {
	s, ok := v.(*vStruct)
	if !ok {
		return "", false
	}
	f, ok := s.f[name]
	if !ok || f == nil {
		return "", false
	}
	return f.key(), true
}

// walks applies the functions handed to a walk of a tree to an arbitrary node.
func (n *nest) walks(e *absEngine, c *ctx, x *ast.CallExpr, fn *vFunc, args []val, st *state, k func(*state, []val)) bool {
	at := -1
	for i, a := range args {
		if f, ok := a.(*vFunc); ok && f.lit != nil {
			at = i
		}
	}
	if at < 0 || fn.decl != nil {
		return false
	}
	f := args[at].(*vFunc)
	if !strings.Contains(fn.name, "Walk") && !reaches(n.c.L, &declSite{pkg: f.pkg}, f.lit.Body, n.is, 4, map[types.Object]bool{}) {
		return false
	}
	en := &nestEntry{tag: "walk:" + fn.name, cx: c, st: st.clone(), vars: map[types.Object]val{}}
	if e.explore == 0 {
		n.entries = append(n.entries, en)
	}
	var as []val
	i := 0
	for _, p := range f.lit.Type.Params.List {
		for range p.Names {
			as = append(as, mkSym(fmt.Sprintf("arg%d", i), f.pkg.TypesInfo.TypeOf(p.Type)))
			i++
		}
	}
	en.loop = f.lit.Body
	if at > 0 {
		en.over = args[0]
	}
	fc := &ctx{fr: f.fr}
	if fc.fr == nil {
		fc = c
	}
	havocLoop(e, &ctx{fr: &frame{pkg: f.pkg}}, f.lit.Body, st)
	it := st.clone()
	for _, o := range changed(f.pkg.TypesInfo, f.lit.Body) {
		if p, ok := e.lookup(fc, it, o); ok {
			en.vars[o] = e.load(it, p)
		}
	}
	en.cx = fc
	e.apply(c, x, f, as, it, func(st *state, vs []val) {
		n.record(nestEnd{bodyEnd{"return", st.clone(), vs}, en.tag, en})
	})
	st.atoms["visited:"+en.tag] = true
	n.after(c, x, st, k)
	return true
}

// after: the results of a call that is not looked into.
func (n *nest) after(c *ctx, x *ast.CallExpr, st *state, k func(*state, []val)) {
	k(st, n.e.freshResults(c, x, "walk"))
}

func sources(c *Ctx) {
	is := isParseCall
	ds, ls := outermostReaching(c.L, genPath, is)
	for i := range ds {
		c.Analysed(ds[i].fd.Name.Name + " (sources, directories)")
		n := nestOf(c, ds[i], ls[i], is, func(n *nest) {
			n.e.external = func(e *absEngine, c *ctx, x *ast.CallExpr, fn *vFunc, args []val, st *state, k func(*state, []val)) bool {
				pure := func(op string, res ...types.Type) bool {
					var out []val
					for i, t := range res {
						o := op
						if len(res) > 1 {
							o = fmt.Sprintf("%s#%d", op, i)
						}
						out = append(out, mkSym(o, t, args...))
					}
					k(st, out)
					return true
				}
				errT := types.Universe.Lookup("error").Type()
				switch fn.name {
				case "os.Stat", "os.Lstat":
					return pure("stat", nil, errT)
				case "os.IsNotExist":
					return pure("notexist", types.Typ[types.Bool])
				case "errors.Is":
					if g, ok := args[1].(*sym); ok && strings.HasSuffix(g.k, "fs.ErrNotExist") || ok && strings.HasSuffix(g.k, "os.ErrNotExist") {
						args = args[:1]
						return pure("notexist", types.Typ[types.Bool])
					}
					return pure("is", types.Typ[types.Bool])
				case "regexp.QuoteMeta":
					return pure("QuoteMeta", types.Typ[types.String])
				case "regexp.MustCompile":
					return pure("regexp", nil)
				case "regexp.Compile":
					return pure("regexp", nil, errT)
				case "path/filepath.Clean", "path.Clean":
					k(st, args[:1])
					return true
				case "path/filepath.Join", "path.Join":
					return pure("join", types.Typ[types.String])
				case "path/filepath.Dir", "path.Dir":
					return pure("dir", types.Typ[types.String])
				}
				if fn.recv != nil && strings.HasSuffix(fn.name, "IsDir") && fn.decl == nil {
					args = []val{fn.recv}
					return pure("isdir", types.Typ[types.Bool])
				}
				if fn.recv != nil && strings.HasSuffix(fn.name, ".Name") && fn.decl == nil {
					args = []val{fn.recv}
					return pure("name", types.Typ[types.String])
				}
				if fn.decl != nil && fn.decl.pkg.PkgPath != genPath && fn.decl.pkg.PkgPath != compPath {
					switch fn.decl.fd.Name.Name {
					case "Getpwd":
						return pure("pwd", types.Typ[types.String])
					case "IsDirEmptyFiles":
						return pure("nofiles", types.Typ[types.Bool])
					}
				}
				if fn.decl != nil && fn.decl.fd.Name.Name == "RenameFunc" {
					return pure("rename", nil)
				}
				if fn.decl != nil && fn.decl.pkg.PkgPath == compPath && fn.decl.fd.Name.Name == "Parse" {
					key := ""
					for i, a := range args {
						if p, ok := a.(vPtr); ok {
							a = e.load(st, p)
						}
						if i > 0 {
							a = e.plain(st, e.field(st, a, "Matcher", nil))
						}
						if p, ok := a.(vPtr); ok {
							a = e.load(st, p)
						}
						if r, ok := a.(vMapRef); ok {
							a = st.heap[r.l]
						}
						key += "|" + a.key()
					}
					st.atoms["parse"+key] = true
					k(st, []val{mkSym("SCHEMA", nil), mkSym("PARSEERR", types.Universe.Lookup("error").Type())})
					return true
				}
				if fn.decl != nil && fn.decl.pkg.PkgPath == genPath && isModelWriter(fn.decl) {
					key := ""
					for _, a := range args {
						key += "|" + a.key()
					}
					st.atoms["generate"+key] = true
					k(st, []val{mkSym("GENERR", types.Universe.Lookup("error").Type())})
					return true
				}
				return n.walks(e, c, x, fn, args, st, k)
			}
			n.e.opaque = func(fn *vFunc) bool { return fn.decl == nil || fn.decl.pkg.PkgPath != genPath }
		})
		dumpNest(n)
		if p := uniq(append(n.top.problems, n.e.problems...)); len(p) > 0 {
			c.Bad("interpretable", "sources", ls[i].Pos(), "%s", short(strings.Join(p, "; ")))
			continue
		}
		n.sourceEnds()
		n.directoryEnds()
		n.walkEnds()
	}
}

// source is the text of a source as the loop takes it from the list.
func (n *nest) source() string {
	top := n.entries[0]
	if top.elem != nil {
		return top.elem.key()
	}
	if f, ok := top.loop.(*ast.ForStmt); ok {
		k := ""
		ast.Inspect(f.Cond, func(x ast.Node) bool {
			if id, ok := x.(*ast.Ident); ok {
				if o, ok := n.top.d.pkg.TypesInfo.Uses[id].(*types.Var); ok && k == "" && isListOfString(o.Type()) {
					at := "0"
					for _, i := range initVars(n.top.d.pkg.TypesInfo, f) {
						if v := n.top.vars[i]; v != nil {
							at = v.key()
						}
					}
					k = "elem(" + n.top.vars[o].key() + "," + at + ")"
				}
			}
			return true
		})
		return k
	}
	return ""
}

// paths are the forms in which the resolved source may appear: as it is, or in
// the working directory, with the extension added.
func (n *nest) paths(st *state) (out map[string]bool, rel bool) {
	x := n.source()
	out = map[string]bool{}
	abs := starts(st, "call:path/filepath.IsAbs("+x+")")
	in := x
	if no(abs) {
		in, rel = "join([pwd, "+x+"])", true
	}
	out[in] = true
	out["«"+in+" \".go\"»"] = true
	return
}

func (n *nest) sourceEnds() {
	for _, en := range n.ends {
		if en.tag != "outer" {
			continue
		}
		var bad []string
		switch {
		case en.kind == "next":
			if m := n.advances(en); m != "" {
				bad = append(bad, m)
			}
			gone := false
			ps, _ := n.paths(en.st)
			for p := range ps {
				gone = gone || en.st.atoms["notexist(stat#1("+p+"))"]
			}
			if !en.st.atoms["visited:inner"] && !gone {
				bad = append(bad, "a source is passed over: "+n.story(en.st))
			}
		case !failing(en.bodyEnd):
			bad = append(bad, "the remaining sources are left out ("+en.kind+"): "+n.story(en.st))
		}
		fmtBad(n.c, "source", "end "+en.kind, n.where(en), bad, "every source that exists is processed, then the next one", "")
	}
	for _, e := range n.entries {
		if e.tag != "inner" || e.cx == nil {
			continue
		}
		// what there is to do for the source
		var bad []string
		walked := e.st.atoms["visited:walk:path/filepath.WalkDir"] || e.st.atoms["visited:walk:path/filepath.Walk"]
		switch s := e.loop.(type) {
		case *ast.RangeStmt:
			if !walked && len(n.e.toSegs(e.st, e.over)) == 0 {
				bad = append(bad, "no directory is processed for a source")
			}
		case *ast.ForStmt:
			for o := range e.vars {
				if p, ok := n.e.lookup(e.cx, e.st, o); ok && isListOfString(o.Type()) && strings.Contains(types.ExprString(s.Cond), o.Name()) {
					l, ok := n.e.load(e.st, p).(*vList)
					if ok && len(l.segs) == 0 {
						bad = append(bad, "no directory is processed for a source")
					}
				}
			}
		}
		fmtBad(n.c, "source", "directories", e.loop.Pos(), bad, "at least one directory", "")
	}
}

func (n *nest) directoryEnds() {
	dirOf := map[*nestEntry]string{}
	for _, en := range n.ends {
		if en.tag != "inner" {
			continue
		}
		for a := range en.st.atoms {
			if strings.HasPrefix(a, "parse|") {
				if p := strings.Split(a, "|"); len(p) >= 3 {
					dirOf[en.entry] = p[1]
				}
			}
		}
	}
	for _, en := range n.ends {
		if en.tag != "inner" {
			continue
		}
		st := en.st
		var bad []string
		d := dirOf[en.entry]
		var parsed, generated []string
		for a := range st.atoms {
			if strings.HasPrefix(a, "parse|") {
				parsed = append(parsed, a)
			}
			if strings.HasPrefix(a, "generate|") {
				generated = append(generated, a)
			}
		}
		for _, a := range parsed {
			if m := n.rightDirectory(en, a); m != "" {
				bad = append(bad, m)
			}
		}
		for _, a := range generated {
			if len(parsed) == 0 || !strings.Contains(a, "|"+d+"|") && !strings.HasSuffix(a, "|"+d) || !strings.Contains(a, "|SCHEMA") {
				bad = append(bad, "what is generated is not what was parsed in that directory: "+short(a))
			}
		}
		switch {
		case en.kind == "next":
			if m := n.advances(en); m != "" {
				bad = append(bad, m)
			}
			if d == "" {
				bad = append(bad, "a directory is never parsed")
				break
			}
			helper := asks(st, []string{"lt0:", "zero:"}, ".Dir(.Database(", d)
			for v := range asks(st, []string{"lt0:", "zero:"}, ".Dir(.Operator(", d) {
				helper[v] = true
			}
			none := starts(st, "nofiles("+d)
			skip := starts(st, "is(PARSEERR,global:")
			empty := yes(atomsWith(st, ".SkipEmpty(")) && yes(atomsWith(st, "zero:len(.Tables(SCHEMA))"))
			if len(generated) == 0 && !helper[true] && !yes(none) && !(yes(skip) && len(parsed) > 0) && !empty {
				bad = append(bad, "a directory with models is passed over: "+n.story(st))
			}
			if len(generated) > 0 {
				for _, h := range []string{".Dir(.Database(", ".Dir(.Operator("} {
					left := false
					for a, v := range st.atoms {
						if strings.Contains(a, h) && strings.Contains(a, d) {
							left = left || v == strings.HasPrefix(a, "lt0:") && !strings.HasPrefix(a, "eq0:")
						}
					}
					if !left {
						bad = append(bad, "models may be generated into a directory of the helpers ("+strings.TrimPrefix(strings.TrimSuffix(h, "("), ".Dir(")+")")
					}
				}
				if !starts(st, "nil:PARSEERR")[true] {
					bad = append(bad, "models are generated although parsing failed")
				}
			}
		case !failing(en.bodyEnd):
			bad = append(bad, "the remaining directories are left out ("+en.kind+"): "+n.story(st))
		}
		fmtBad(n.c, "directory", "end "+en.kind, n.where(en), bad, "every directory of the source is parsed and generated", "")
	}
}

// rightDirectory says what is wrong with the directory and the matcher a
// source is parsed with.
func (n *nest) rightDirectory(en nestEnd, a string) string {
	parts := strings.SplitN(a, "|", 3)
	if len(parts) < 3 {
		return "the parser is called in another way"
	}
	d, m := parts[1], parts[2]
	st := en.entry.st
	ps, _ := n.paths(st)
	// the element of the queue
	root := ""
	if strings.HasPrefix(d, "join([") {
		if i := strings.LastIndex(d, ", elem"); i > 0 {
			el := strings.TrimSuffix(d[i+2:], "])")
			root = d[len("join("):i]
			root = strings.TrimPrefix(root, "[")
			first := en.entry.elem != nil && el == en.entry.elem.key()
			for o, v := range en.entry.vars {
				first = first || el == "elem("+v.key()+",0)"
				if f, ok := en.entry.loop.(*ast.ForStmt); ok && f.Init != nil && isIntType(o.Type().Underlying()) {
					first = first || strings.HasPrefix(el, "elem(") && strings.HasSuffix(el, ","+v.key()+")")
				}
			}
			if !first && !strings.Contains(el, "key:") {
				return "the directory parsed is not the one taken from the list but " + short(el)
			}
		}
	}
	if root == "" {
		root = d
	}
	walk := ""
	for _, e := range n.entries {
		if strings.HasPrefix(e.tag, "walk:") && e.over != nil && st.atoms["visited:"+e.tag] && (root == e.over.key() || root == d) {
			walk = e.over.key()
		}
	}
	for p := range ps {
		isdir := starts(st, "isdir(stat#0("+p+"))")
		switch {
		case yes(isdir):
			if root != p {
				return "for a directory the parser looks into " + short(root)
			}
			if m != p && !strings.Contains(m, "regexp(") {
				return "for a directory the files are matched by " + short(m)
			}
			return ""
		case no(isdir):
			if root != "dir("+p+")" {
				return "for a file the parser looks into " + short(root)
			}
			if !strings.Contains(m, "join([dir("+p+"), name(stat#0("+p+"))])") && !strings.Contains(m, p+":") && !strings.Contains(m, p+"=") {
				return "for a file the files are matched by " + short(m)
			}
			return ""
		}
	}
	if starts(st, "visited:walk:")[true] && walk == "" {
		return "the directories found by the walk are looked for in " + short(root)
	}
	if walk != "" {
		fromSource := false
		for p := range ps {
			fromSource = fromSource || strings.Contains(walk, "SplitN("+p) || strings.Contains(walk, "Split("+p) || strings.Contains(walk, "Cut#0("+p) || strings.Contains(walk, "Cut("+p) || strings.Contains(walk, p)
		}
		if !fromSource {
			return "the walk starts in " + short(walk)
		}
	} else {
		ok := false
		for p := range ps {
			ok = ok || root == "dir("+p+")"
		}
		if !ok {
			return "for a pattern the parser looks into " + short(root)
		}
	}
	return n.rightPattern(m, walk)
}

// rightPattern says what is wrong with the regular expression of a pattern:
// the text of the path stands for itself.
func (n *nest) rightPattern(m, walk string) string {
	i := strings.Index(m, "regexp(")
	if i < 0 {
		return "the files are matched by " + short(m)
	}
	p := balanced(m[i+len("regexp"):])
	quoted := 0
	rest := p
	for {
		j := strings.Index(rest, "QuoteMeta(")
		if j < 0 {
			break
		}
		q := balanced(rest[j+len("QuoteMeta"):])
		rest = rest[:j] + rest[j+len("QuoteMeta")+len(q):]
		quoted++
	}
	if strings.Contains(rest, n.source()) {
		return "characters of the path are taken for a regular expression: " + short(rest)
	}
	if quoted == 0 {
		return "the regular expression has nothing to do with the path"
	}
	if m := wildcards(p); m != "" {
		return m
	}
	if walk != "" {
		// the constant pieces outside of the replacements
		ok := false
		for _, t := range quotedTexts(withoutCalls(p)) {
			if re, err := syntax.Parse(t, syntax.Perl); err == nil && anyDirs(re) {
				ok = true
			}
		}
		if !ok {
			return "the regular expression does not match the files of every directory below: " + short(withoutCalls(p))
		}
	}
	return ""
}

// quotedTexts lists the constant texts of a key.
func quotedTexts(k string) (out []string) {
	for i := 0; i < len(k); i++ {
		if k[i] != '"' {
			continue
		}
		j := i + 1
		for j < len(k) && k[j] != '"' {
			if k[j] == '\\' {
				j++
			}
			j++
		}
		if j >= len(k) {
			break
		}
		if t, err := strconv.Unquote(k[i : j+1]); err == nil {
			out = append(out, t)
		}
		i = j
	}
	return
}

// withoutCalls removes the calls of methods of a key: m:Name(...).
func withoutCalls(k string) string {
	for {
		i := strings.Index(k, "m:")
		if i < 0 {
			return k
		}
		j := strings.Index(k[i:], "(")
		if j < 0 {
			return k
		}
		k = k[:i] + k[i+j+len(balanced(k[i+j:])):]
	}
}

// wildcards checks what the characters of the quoted path are replaced by.
func wildcards(p string) string {
	star := false
	rest := p
	for {
		i := strings.Index(rest, "NewReplacer(")
		if i < 0 {
			break
		}
		q := balanced(rest[i+len("NewReplacer"):])
		rest = rest[i+len("NewReplacer")+len(q):]
		t := quotedTexts(q)
		for k := 0; k+1 < len(t); k += 2 {
			re, err := syntax.Parse(t[k+1], syntax.Perl)
			if err != nil {
				return fmt.Sprintf("%q is replaced by %q, which is no regular expression", t[k], t[k+1])
			}
			switch t[k] {
			case "\\*":
				star = true
				if !anyName(re) {
					return fmt.Sprintf("the wildcard of a path becomes %q, which does not match every name", t[k+1])
				}
			case "\\*\\*":
				if !anyName(re) {
					return fmt.Sprintf("the wildcard of a path becomes %q, which does not match every name", t[k+1])
				}
			case "/", "\\\\":
				if re = re.Simplify(); !(re.Op == syntax.OpLiteral && string(re.Rune) == "/" || re.Op == syntax.OpCharClass && inClass(re, '/')) {
					return fmt.Sprintf("the separator of a path becomes %q", t[k+1])
				}
			default:
				return fmt.Sprintf("%q of a path becomes %q", t[k], t[k+1])
			}
		}
	}
	if !star {
		return "the wildcard of a path stands for nothing"
	}
	return ""
}

func inClass(re *syntax.Regexp, r rune) bool {
	for i := 0; i+1 < len(re.Rune); i += 2 {
		if re.Rune[i] <= r && r <= re.Rune[i+1] {
			return true
		}
	}
	return false
}

// inName: a single character matches whatever a name may be made of.
func inName(re *syntax.Regexp) bool {
	switch re.Op {
	case syntax.OpAnyChar, syntax.OpAnyCharNotNL:
		return true
	case syntax.OpCharClass:
		// all ranges of what is left out lie in the separators
		next := rune(0)
		for i := 0; i+1 < len(re.Rune); i += 2 {
			for r := next; r < re.Rune[i]; r++ {
				if r != '/' && r != '\\' && r != '\n' && r != 0 {
					return false
				}
				if r > next+8 {
					return false
				}
			}
			next = re.Rune[i+1] + 1
		}
		return next > 0x10ffff
	}
	return false
}

func anyName(re *syntax.Regexp) bool {
	for re.Op == syntax.OpCapture {
		re = re.Sub[0]
	}
	return re.Op == syntax.OpStar && inName(re.Sub[0])
}

// anyDirs: the expression begins with something that matches any sequence of
// directories, and none.
func anyDirs(re *syntax.Regexp) bool {
	for re.Op == syntax.OpCapture || re.Op == syntax.OpConcat && len(re.Sub) > 0 {
		re = re.Sub[0]
	}
	if anyName(re) && re.Sub[0].Op != syntax.OpCharClass {
		return true
	}
	if re.Op != syntax.OpStar && re.Op != syntax.OpQuest {
		return false
	}
	rep := re.Op == syntax.OpStar
	re = re.Sub[0]
	for re.Op == syntax.OpCapture {
		re = re.Sub[0]
	}
	if re.Op != syntax.OpConcat || len(re.Sub) != 2 {
		return false
	}
	sep, name := re.Sub[0], re.Sub[1]
	if !(sep.Op == syntax.OpCharClass && inClass(sep, '/') || sep.Op == syntax.OpLiteral && string(sep.Rune) == "/") {
		return false
	}
	if (name.Op == syntax.OpPlus || name.Op == syntax.OpStar) && inName(name.Sub[0]) {
		return rep || name.Sub[0].Op != syntax.OpCharClass
	}
	return false
}

func (n *nest) walkEnds() {
	for _, en := range n.ends {
		if !strings.HasPrefix(en.tag, "walk:") {
			continue
		}
		st := en.st
		var bad []string
		var added []string
		for o, before := range en.entry.vars {
			if !isListOfString(o.Type()) {
				continue
			}
			p, ok := n.e.lookup(en.entry.cx, st, o)
			if !ok {
				continue
			}
			add, ok := appended(n.e, n.e.load(st, p), before.key())
			if !ok {
				bad = append(bad, "the directories found so far become "+short(n.e.load(st, p).key()))
				continue
			}
			for _, s := range add {
				added = append(added, s.v.key())
			}
		}
		isDir := starts(st, "isdir(arg1)")
		gone := asks(st, nil, "notexist(arg2)")
		nilEntry := starts(st, "nil:arg1")
		ret := val(vNil{})
		if len(en.vals) == 1 {
			ret = en.vals[0]
		}
		switch {
		case len(added) > 1:
			bad = append(bad, "a directory is processed twice")
		case len(added) == 1:
			root := ""
			if en.entry.over != nil {
				root = en.entry.over.key()
			}
			if added[0] != "call:strings.TrimPrefix(arg0,"+root+")" && added[0] != "arg0" {
				bad = append(bad, "what is processed for a directory is "+short(added[0]))
			}
			if !isNilVal(ret) {
				bad = append(bad, "the walk ends at, or does not go below, a directory: "+short(ret.key()))
			}
		case isNilVal(ret):
			if !(no(isDir) || yes(nilEntry) || yes(gone)) {
				bad = append(bad, "a directory is passed over: "+n.story(st))
			}
		default:
			k := ret.key()
			if k != "arg2" || !st.hasNot("nil:arg2") || yes(gone) {
				bad = append(bad, "the walk is cut short with "+short(k)+": "+n.story(st))
			}
		}
		fmtBad(n.c, "walk", "directory", n.where(en), bad, "every directory below is processed", "")
	}
}

func (st *state) hasNot(atom string) bool {
	v, ok := st.atoms[atom]
	return ok && !v
}

// allSources: the loop over the sources starts with those of the configuration.
func allSources(c *Ctx) {
	l := c.L
	ds, ls := outermostReaching(l, genPath, isParseCall)
	for i := range ds {
		d, loop := ds[i], ls[i]
		e := newAbs(l)
		e.peel = true
		cfgT := l.pkgs[genPath].Types.Scope().Lookup("Config")
		var seen []string
		var pos = loop.Pos()
		e.skip = func(cx *ctx, s ast.Stmt, st *state) bool {
			if s != loop {
				havocLoop(e, cx, s, st)
				return true
			}
			if e.explore > 0 {
				return true
			}
			switch s := s.(type) {
			case *ast.RangeStmt:
				e.eval(cx, s.X, st.clone(), func(_ *state, v val) { seen = append(seen, v.key()) })
			case *ast.ForStmt:
				ast.Inspect(s.Cond, func(x ast.Node) bool {
					if id, ok := x.(*ast.Ident); ok {
						if o, ok := cx.info().Uses[id].(*types.Var); ok && isListOfString(o.Type()) {
							if p, ok := e.lookup(cx, st, o); ok {
								seen = append(seen, e.load(st, p).key())
							}
						}
					}
					return true
				})
			}
			return true
		}
		e.external = func(e *absEngine, cx *ctx, x *ast.CallExpr, fn *vFunc, args []val, st *state, k func(*state, []val)) bool {
			if fn.decl == nil || cfgT == nil {
				return false
			}
			rs := fn.decl.fd.Type.Results
			if rs == nil || len(rs.List) != 1 {
				return false
			}
			t := fn.decl.pkg.TypesInfo.TypeOf(rs.List[0].Type)
			if n, ok := derefNamed(t); ok && n.Obj() == cfgT {
				k(st, []val{mkSym("CFG", t)})
				return true
			}
			return false
		}
		st := &state{heap: map[loc]val{}, atoms: map[string]bool{}}
		var args []val
		for _, p := range d.fd.Type.Params.List {
			for _, nm := range p.Names {
				t := d.pkg.TypesInfo.TypeOf(p.Type)
				name := "arg:" + nm.Name
				if n, ok := derefNamed(t); ok && cfgT != nil && n.Obj() == cfgT {
					name = "CFG"
				}
				args = append(args, mkSym(name, t))
			}
		}
		e.opaque = func(fn *vFunc) bool {
			return fn.decl == nil || fn.decl.pkg.PkgPath != genPath || fn.name == "renderTemplate"
		}
		e.enter(&frame{pkg: d.pkg, name: d.fd.Name.Name}, d.fd.Type, nil, nil, d.fd.Body, args, st, func(*state, []val) {})
		var bad []string
		for _, k := range uniq(seen) {
			if k != ".Source(CFG)" && k != "[.Source(CFG)[0:len(.Source(CFG))]]" {
				bad = append(bad, "the sources which are processed are "+short(k))
			}
		}
		if len(seen) == 0 {
			bad = append(bad, "the loop over the sources is not reached")
		}
		fmtBad(c, "all-sources", "start", pos, bad, "all sources of the configuration", "")
	}
}

// matchers: a matcher answers with the comparison its kind stands for.
func matchers(c *Ctx) {
	p := c.L.pkgs[genPath]
	for _, name := range p.Types.Scope().Names() {
		tn, ok := p.Types.Scope().Lookup(name).(*types.TypeName)
		if !ok || types.IsInterface(tn.Type()) {
			continue
		}
		var f *types.Func
		for _, t := range []types.Type{tn.Type(), types.NewPointer(tn.Type())} {
			if o, _, _ := types.LookupFieldOrMethod(t, true, p.Types, "Match"); o != nil {
				f, _ = o.(*types.Func)
			}
		}
		if f == nil {
			continue
		}
		sg := f.Type().(*types.Signature)
		if sg.Params().Len() != 1 || sg.Results().Len() != 1 || !isStringType(sg.Params().At(0).Type()) || !isBoolType(sg.Results().At(0).Type()) {
			continue
		}
		d, ok := c.L.declOf[f]
		if !ok || d.fd.Body == nil {
			continue
		}
		c.Analysed(name + ".Match")
		e := newAbs(c.L)
		st := &state{heap: map[loc]val{}, atoms: map[string]bool{}}
		var recvObj types.Object
		if len(d.fd.Recv.List[0].Names) > 0 {
			recvObj = d.pkg.TypesInfo.Defs[d.fd.Recv.List[0].Names[0]]
		}
		recv, file := mkSym("RECV", sg.Recv().Type()), mkSym("FILE", types.Typ[types.String])
		n := 0
		e.external = func(e *absEngine, cx *ctx, x *ast.CallExpr, fn *vFunc, args []val, st *state, k func(*state, []val)) bool {
			if fn.decl == nil && fn.recv != nil && (strings.HasSuffix(fn.name, "MatchString") || strings.HasSuffix(fn.name, "Match")) {
				k(st, []val{mkSym("m:"+lastName(fn.name), types.Typ[types.Bool], append([]val{fn.recv}, args...)...)})
				return true
			}
			return false
		}
		e.enter(&frame{pkg: d.pkg, name: "Match"}, d.fd.Type, recvObj, recv, d.fd.Body, []val{file}, st, func(st *state, vs []val) {
			n++
			var bad []string
			want := ""
			switch u := tn.Type().Underlying().(type) {
			case *types.Map:
				want = "map"
			case *types.Basic:
				want = "folder"
			case *types.Struct:
				if u.NumFields() > 0 {
					want = "regexp"
				}
			}
			ans := map[bool]bool{} // atom for the comparison, in the sense of a match
			v := vs[0]
			key := v.key()
			is := func(k string) bool {
				switch want {
				case "map":
					return strings.Contains(k, "RECV") && strings.Contains(k, "FILE") && (strings.HasPrefix(k, "in(") || strings.Contains(k, "mapget"))
				case "folder":
					return k == "call:strings.HasPrefix(FILE,RECV)"
				case "regexp":
					return strings.HasPrefix(k, "m:MatchString(") && strings.Contains(k, "RECV") && strings.HasSuffix(k, "FILE)") || strings.HasPrefix(k, "m:Match(") && strings.HasSuffix(k, "FILE)")
				}
				return false
			}
			for a, b := range st.atoms {
				if is(a) {
					ans[b] = true
				}
			}
			switch {
			case want == "":
				if key != "true" {
					bad = append(bad, "the matcher that matches everything answers "+short(key))
				}
			case key == "true":
				if !yes(ans) {
					bad = append(bad, "a file is matched although it is not the one")
				}
			case key == "false":
				if !no(ans) {
					bad = append(bad, "a file is not matched although it is the one")
				}
			case !is(key):
				bad = append(bad, "the answer is "+short(key))
			}
			if len(bad) > 0 && os.Getenv("DBG") != "" {
				fmt.Println(name, key, st.atoms)
			}
			fmtBad(c, "matcher", name, d.fd.Pos(), bad, "answers with the comparison it stands for", "")
		})
		if n == 0 || len(e.problems) > 0 {
			c.Bad("interpretable", name+".Match", d.fd.Pos(), "%s", short(strings.Join(uniq(e.problems), "; ")))
		}
	}
}

// emptyDirectory: a directory counts as empty only if no file of it may hold a
// model.
func emptyDirectory(c *Ctx) {
	for o, d := range c.L.declOf {
		f, ok := o.(*types.Func)
		if !ok || f.Name() != "IsDirEmptyFiles" || d.fd.Body == nil || f.Pkg() == nil || !strings.HasPrefix(f.Pkg().Path(), modPath) {
			continue
		}
		dd := d
		c.Analysed(f.Name())
		var loop ast.Stmt
		ast.Inspect(d.fd.Body, func(n ast.Node) bool {
			if loop == nil && loopBody(n) != nil {
				loop = n.(ast.Stmt)
			}
			return loop == nil
		})
		if loop == nil {
			c.Bad("interpretable", "IsDirEmptyFiles", d.fd.Pos(), "the loop over the files is not found")
			continue
		}
		e := newAbs(c.L)
		e.peel = true
		e.skip = func(cx *ctx, s ast.Stmt, st *state) bool { havocLoop(e, cx, s, st); return true }
		e.external = func(e *absEngine, cx *ctx, x *ast.CallExpr, fn *vFunc, args []val, st *state, k func(*state, []val)) bool {
			if fn.decl == nil && fn.recv != nil && strings.HasSuffix(fn.name, "IsDir") {
				k(st, []val{mkSym("isdir", types.Typ[types.Bool], fn.recv)})
				return true
			}
			if fn.decl == nil && fn.recv != nil && strings.HasSuffix(fn.name, "Name") {
				k(st, []val{mkSym("name", types.Typ[types.String], fn.recv)})
				return true
			}
			if fn.decl == nil && (strings.HasSuffix(fn.name, ".Contains") || strings.HasSuffix(fn.name, ".HasSuffix") || strings.HasSuffix(fn.name, ".Ext") || strings.HasSuffix(fn.name, ".IndexOf") || strings.HasSuffix(fn.name, ".Index")) {
				t := types.Type(types.Typ[types.Bool])
				if strings.HasSuffix(fn.name, ".Ext") {
					t = types.Typ[types.String]
				} else if strings.Contains(fn.name, ".Index") {
					t = types.Typ[types.Int]
				}
				k(st, []val{mkSym("call:"+fn.name, t, args...)})
				return true
			}
			return false
		}
		st := &state{heap: map[loc]val{}, atoms: map[string]bool{}}
		r := runBody(e, &dd, loop, st, func(o *types.Var, elem bool) val {
			if elem {
				return mkSym("ENTRY", o.Type())
			}
			return nil
		})
		dumpRun(r)
		if len(r.problems) > 0 {
			c.Bad("interpretable", "IsDirEmptyFiles", loop.Pos(), "%s", short(strings.Join(uniq(r.problems), "; ")))
		}
		for _, en := range r.ends {
			var bad []string
			other := yes(starts(en.st, "isdir("))
			var excl map[bool]bool
			for a, v := range en.st.atoms {
				if strings.Contains(a, "var:") && strings.Contains(a, "name(") {
					if strings.HasPrefix(a, "lt0:") {
						v = !v
					}
					excl = map[bool]bool{v: true}
				}
			}
			goFile := map[bool]bool{}
			for a, v := range en.st.atoms {
				if strings.Contains(a, "\".go\"") && strings.Contains(a, "name(") {
					goFile[v] = true
				}
			}
			switch en.kind {
			case "next":
				if !other && !yes(excl) && !no(goFile) {
					var as []string
					for a, v := range en.st.atoms {
						as = append(as, fmt.Sprintf("%s=%v", a, v))
					}
					sort.Strings(as)
					bad = append(bad, "a file that may hold a model does not count: "+short(strings.Join(as, ", ")))
				}
			case "return":
				if len(en.vals) != 1 || en.vals[0].key() != "false" {
					bad = append(bad, "the directory counts as empty because of one file")
				}
			default:
				bad = append(bad, "the remaining files do not count ("+en.kind+")")
			}
			fmtBad(c, "empty-directory", en.kind, loop.Pos(), bad, "a go file which is not generated counts", "")
		}
	}
}

func dumpRun(r *bodyRun) {
	if os.Getenv("DBG") == "" {
		return
	}
	for _, en := range r.ends {
		fmt.Println("END", en.kind)
		for _, v := range en.vals {
			fmt.Println("   ret", v.key())
		}
		for a, b := range en.st.atoms {
			fmt.Println("    ", a, b)
		}
	}
}

// isModelWriter: a function with a loop over the tables of a package.
func isModelWriter(d *declSite) bool {
	hit := false
	ast.Inspect(d.fd.Body, func(x ast.Node) bool {
		var over ast.Node
		switch s := x.(type) {
		case *ast.RangeStmt:
			over = s.X
		case *ast.ForStmt:
			if s.Cond != nil {
				over = s.Cond
			}
		}
		if over != nil {
			ast.Inspect(over, func(y ast.Node) bool {
				if z, ok := y.(ast.Expr); ok {
					if sl, ok := d.pkg.TypesInfo.TypeOf(z).(*types.Slice); ok && namedIs(sl.Elem(), compPath, "Table") {
						hit = true
					}
				}
				return !hit
			})
		}
		return !hit
			})
	return hit
}

func isParseCall(d *declSite, n ast.Node) bool {
	id, ok := n.(*ast.Ident)
	if !ok {
		return false
	}
	f, ok := d.pkg.TypesInfo.Uses[id].(*types.Func)
	return ok && f.Pkg() != nil && f.Pkg().Path() == compPath && f.Name() == "Parse"
}

// tables: the loop which writes the methods of the models of a package goes
// over all of them and keeps what was written for the earlier ones.
func tables(c *Ctx) {
	l := c.L
	isTables := func(info *types.Info, x ast.Expr) bool {
		sl, ok := info.TypeOf(x).(*types.Slice)
		return ok && namedIs(sl.Elem(), compPath, "Table")
	}
	var fns []*types.Func
	for o, d := range l.declOf {
		if f, ok := o.(*types.Func); ok && d.pkg.PkgPath == genPath && d.fd.Body != nil {
			fns = append(fns, f)
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].Pos() < fns[j].Pos() })
	for _, f := range fns {
		d := l.declOf[f]
		info := d.pkg.TypesInfo
		ast.Inspect(d.fd.Body, func(x ast.Node) bool {
			var list ast.Expr
			counted := false
			switch s := x.(type) {
			case *ast.RangeStmt:
				y := ast.Unparen(s.X)
				for {
					sl, ok := y.(*ast.SliceExpr)
					if !ok {
						break
					}
					y = ast.Unparen(sl.X)
				}
				if isTables(info, y) {
					list = s.X
				}
			case *ast.ForStmt:
				counted = s.Init != nil
				if s.Cond != nil {
					ast.Inspect(s.Cond, func(y ast.Node) bool {
						if call, ok := y.(*ast.CallExpr); ok && len(call.Args) == 1 && isTables(info, call.Args[0]) {
							list = call.Args[0]
						}
						return list == nil
					})
				}
			}
			if list == nil {
				return true
			}
			c.Analysed(d.fd.Name.Name + " (models of a package)")
			tableLoop(c, &d, x.(ast.Stmt), list, counted)
			return true
		})
	}
}

func tableLoop(c *Ctx, d *declSite, loop ast.Stmt, list ast.Expr, counted bool) {
	l := c.L
	info := d.pkg.TypesInfo
	e := newAbs(l)
	e.opaque = func(*vFunc) bool { return true }
	e.skip = func(cx *ctx, s ast.Stmt, st *state) bool { havocLoop(e, cx, s, st); return true }
	matters := func(n ast.Node) bool {
		hit := false
		ast.Inspect(n, func(x ast.Node) bool {
			switch s := x.(type) {
			case *ast.ReturnStmt, *ast.BranchStmt:
				hit = true
			case *ast.FuncLit:
				return false
			case *ast.AssignStmt:
				for _, y := range s.Lhs {
					if sl, ok := info.TypeOf(y).(*types.Slice); ok && namedIs(sl.Elem(), compPath, "Table") {
						hit = true
					}
				}
			case *ast.CallExpr:
				if cutsText(info, s) {
					hit = true
				}
			}
			return !hit
		})
		return hit
	}
	e.drop = func(cx *ctx, s ast.Stmt, st *state) bool {
		switch s.(type) {
		case *ast.IfStmt, *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.ForStmt, *ast.RangeStmt, *ast.ExprStmt:
			if !matters(s) {
				havocLoop(e, cx, s, st)
				return true
			}
		}
		return false
	}
	cut := 0
	e.external = func(e *absEngine, cx *ctx, x *ast.CallExpr, fn *vFunc, args []val, st *state, k func(*state, []val)) bool {
		if cutsText(cx.info(), x) && outside(cx.info(), x, loop) {
			st.atoms["cut"] = true
			cut++
		}
		return false
	}
	pkgT := func(t types.Type) bool { n, ok := derefNamed(t); return ok && n.Obj().Name() == "Package" && n.Obj().Pkg().Path() == compPath }
	st := &state{heap: map[loc]val{}, atoms: map[string]bool{}}
	before := map[types.Object]string{}
	r := runBody(e, d, loop, st, func(o *types.Var, elem bool) val {
		switch {
		case elem:
			return mkSym("TABLE", o.Type())
		case pkgT(o.Type()):
			tl := mkSym("TABLES", types.NewSlice(types.Typ[types.Int]))
			p, ok := o.Type().(*types.Pointer)
			if !ok {
				return nil
			}
			return e.alloc(st, &vStruct{base: mkSym("PKG", p.Elem()), typ: p.Elem(), f: map[string]val{"Tables": tl}})
		default:
			if sl, ok := o.Type().(*types.Slice); ok && namedIs(sl.Elem(), compPath, "Table") {
				before[o] = "TABLES"
				return mkSym("TABLES", o.Type())
			}
		}
		return nil
	})
	dumpRun(r)
	if p := uniq(r.problems); len(p) > 0 {
		c.Bad("interpretable", d.fd.Name.Name, loop.Pos(), "%s", short(strings.Join(p, "; ")))
		return
	}
	now := func(en bodyEnd) val {
		switch x := ast.Unparen(list).(type) {
		case *ast.Ident:
			return r.at(en, info.Uses[x])
		case *ast.SelectorExpr:
			if id, ok := ast.Unparen(x.X).(*ast.Ident); ok {
				if v := r.at(en, info.Uses[id]); v != nil {
					return e.plain(en.st, e.field(en.st, v, x.Sel.Name, nil))
				}
			}
		}
		return nil
	}
	for _, en := range r.ends {
		var bad []string
		if en.st.atoms["cut"] {
			bad = append(bad, "what was written for the earlier models is thrown away")
		}
		switch {
		case en.kind == "next":
			v := now(en)
			switch s := loop.(type) {
			case *ast.RangeStmt:
				if _, isCut := ast.Unparen(s.X).(*ast.SliceExpr); isCut {
					bad = append(bad, "models of the package are left out")
				}
				if v != nil && v.key() != "TABLES" {
					bad = append(bad, "the list of models changes to "+short(v.key()))
				}
			case *ast.ForStmt:
				switch {
				case v == nil:
					bad = append(bad, "the list of models is lost")
				case counted:
					if !countsAll(info, s) {
						bad = append(bad, "the loop is not seen to cover all models")
					}
					if v.key() != "TABLES" {
						bad = append(bad, "the list of models changes to "+short(v.key()))
					}
				default:
					if !untilEmpty(info, s) {
						bad = append(bad, "the loop does not run until no model is left")
					}
					segs := e.toSegs(en.st, v)
					if len(segs) != 1 || segs[0].kind != segAll || segs[0].v.key() != "TABLES" || segs[0].from.String() != "1" || segs[0].to.String() != "len(TABLES)" {
						bad = append(bad, "after a model the remaining models become "+short(v.key()))
					}
				}
			}
		case !failing(en):
			bad = append(bad, "the remaining models are left out ("+en.kind+")")
		}
		fmtBad(c, "table", d.fd.Name.Name+" "+en.kind, loop.Pos(), bad, "every model of the package is written", "")
	}
}

// cutsText: a call which takes back text written to a buffer.
func cutsText(info *types.Info, x *ast.CallExpr) bool {
	sel, ok := ast.Unparen(x.Fun).(*ast.SelectorExpr)
	return ok && (sel.Sel.Name == "Reset" || sel.Sel.Name == "Truncate") && isTextSink(info.TypeOf(sel.X))
}

func isTextSink(t types.Type) bool {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	return isBuilderType(t)
}

// outside: the buffer is declared outside of the loop.
func outside(info *types.Info, x *ast.CallExpr, loop ast.Stmt) bool {
	sel := ast.Unparen(x.Fun).(*ast.SelectorExpr)
	if id, ok := ast.Unparen(sel.X).(*ast.Ident); ok {
		o := info.Uses[id]
		return o != nil && (o.Pos() < loop.Pos() || o.Pos() >= loop.End())
	}
	return true
}

// untilEmpty: for len(list) > 0, in any spelling.
func untilEmpty(info *types.Info, s *ast.ForStmt) bool {
	b, ok := ast.Unparen(s.Cond).(*ast.BinaryExpr)
	if !ok {
		return false
	}
	isLen := func(x ast.Expr) bool {
		c, ok := ast.Unparen(x).(*ast.CallExpr)
		if !ok {
			return false
		}
		id, ok := c.Fun.(*ast.Ident)
		return ok && id.Name == "len"
	}
	num := func(x ast.Expr) string {
		if v := info.Types[x].Value; v != nil {
			return v.ExactString()
		}
		return ""
	}
	switch {
	case isLen(b.X):
		n := num(b.Y)
		return n == "0" && (b.Op == token.GTR || b.Op == token.NEQ) || n == "1" && b.Op == token.GEQ
	case isLen(b.Y):
		n := num(b.X)
		return n == "0" && (b.Op == token.LSS || b.Op == token.NEQ) || n == "1" && b.Op == token.LEQ
	}
	return false
}

// countsAll: for i := 0; i < len(list); i++.
func countsAll(info *types.Info, s *ast.ForStmt) bool {
	b, ok := ast.Unparen(s.Cond).(*ast.BinaryExpr)
	a, ok2 := s.Init.(*ast.AssignStmt)
	p, ok3 := s.Post.(*ast.IncDecStmt)
	return ok && ok2 && ok3 && p.Tok == token.INC && b.Op == token.LSS && len(a.Rhs) == 1 &&
		info.Types[a.Rhs[0]].Value != nil && info.Types[a.Rhs[0]].Value.ExactString() == "0"
}

// lookups: the struct an imported type stands for is looked for in every file
// of its package.
func lookups(c *Ctx) {
	is := func(d *declSite, n ast.Node) bool {
		sel, ok := n.(*ast.SelectorExpr)
		if !ok || sel.Sel.Name != "Lookup" {
			return false
		}
		t, ok := derefNamed(d.pkg.TypesInfo.TypeOf(sel.X))
		return ok && t.Obj().Pkg() != nil && t.Obj().Pkg().Path() == "go/ast"
	}
	var fns []*types.Func
	for o, d := range c.L.declOf {
		if f, ok := o.(*types.Func); ok && d.pkg.PkgPath == compPath && d.fd.Body != nil {
			fns = append(fns, f)
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].Pos() < fns[j].Pos() })
	for _, f := range fns {
		d := c.L.declOf[f]
		direct := func(n ast.Node) (hit, inner bool) {
			ast.Inspect(n, func(x ast.Node) bool {
				if b := loopBody(x); b != nil && x != n {
					ast.Inspect(b, func(y ast.Node) bool { inner = inner || is(&d, y); return true })
				}
				hit = hit || is(&d, x)
				return true
			})
			return
		}
		ast.Inspect(d.fd.Body, func(x ast.Node) bool {
			b := loopBody(x)
			if b == nil {
				return true
			}
			if hit, inner := direct(x); !hit || inner {
				return true
			}
			c.Analysed(d.fd.Name.Name + " (files of an imported package)")
			loop := x.(ast.Stmt)
			dd := d
			e := newAbs(c.L)
			e.skip = func(cx *ctx, s ast.Stmt, st *state) bool { havocLoop(e, cx, s, st); return true }
			st := &state{heap: map[loc]val{}, atoms: map[string]bool{}}
			r := runBody(e, &dd, loop, st, func(o *types.Var, elem bool) val {
				if elem {
					return mkSym("elem:file", o.Type())
				}
				return nil
			})
			dumpRun(r)
			if p := uniq(r.problems); len(p) > 0 {
				c.Bad("interpretable", d.fd.Name.Name, loop.Pos(), "%s", short(strings.Join(p, "; ")))
				return false
			}
			whole := ""
			switch s := loop.(type) {
			case *ast.RangeStmt:
				if _, cut := ast.Unparen(s.X).(*ast.SliceExpr); cut {
					whole = "files of the package are left out"
				}
			case *ast.ForStmt:
				if s.Cond == nil || !(s.Init != nil && countsAll(d.pkg.TypesInfo, s) || s.Init == nil && untilEmpty(d.pkg.TypesInfo, s)) {
					whole = "the loop is not seen to cover all files"
				}
			}
			for _, en := range r.ends {
				var bad []string
				if whole != "" {
					bad = append(bad, whole)
				}
				found := starts(en.st, "nil:m:Lookup(.Scope(")
				switch {
				case en.kind == "next":
					// a lookup which found nothing
					if !yes(found) && !yes(starts(en.st, "nil:.Scope(")) {
						var as []string
						for a, v := range en.st.atoms {
							as = append(as, fmt.Sprintf("%v=%v", a, v))
						}
						sort.Strings(as)
						bad = append(bad, "a file is passed over: "+strings.Join(as, ", "))
					}
				case failing(en):
				case !no(found):
					bad = append(bad, "the remaining files are left out ("+en.kind+")")
				}
				fmtBad(c, "lookup", d.fd.Name.Name+" "+en.kind, loop.Pos(), bad, "the search ends where the declaration is found", "")
			}
			return false
		})
	}
}
