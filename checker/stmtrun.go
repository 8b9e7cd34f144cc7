package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strings"
)

// sent is one statement handed to the database on one path of a helper.
type sent struct {
	entry   string // helper
	dialect string
	fn      string // function holding the call
	pos     token.Pos
	method  string
	query   val
	args    val
	st      *state
	params  map[string]types.Type
}

// built is what a clause function wrote into the statement it was given.
type built struct {
	entry   string
	dialect string
	pos     token.Pos
	doc     doc
	args    val
	count   val
	st      *state
	params  map[string]types.Type
	ret     []val
}

type stmtRun struct {
	sents    []*sent
	builts   []*built
	problems map[string][]string // entry -> problems
	entries  []string
	calls    map[token.Pos]string // database call sites in the source, by position -> function
	seenPos  map[token.Pos]bool
	eng      map[string]*absEngine
}

func isDBCall(fn *vFunc) bool {
	switch lastName(fn.name) {
	case "ExecContext", "QueryContext", "QueryRowContext":
		return fn.recv != nil
	case "Exec", "Query", "QueryRow":
		return fn.recv != nil && strings.HasPrefix(fn.name, "(database/sql.")
	}
	return false
}

// takesDB says a function is given a database handle.
func takesDB(sig *types.Signature) bool {
	for i := 0; i < sig.Params().Len(); i++ {
		t := sig.Params().At(i).Type()
		if namedIs(t, "database/sql", "DB") || namedIs(t, "database/sql", "Tx") || namedIs(t, "database/sql", "Conn") || namedIs(t, seqPath, "DB") {
			return true
		}
	}
	return false
}

// isWriterType recognises the statement writer given to clauses.
func isWriterType(t types.Type) bool {
	return namedIs(t, seqPath, "StmtWriter") || namedIs(t, seqPath, "Stmt")
}

func newHelperEngine(l *Loaded, d dialectConsts) *absEngine {
	e := newAbs(l)
	e.lenHook = func(st *state, s *sym) (poly, bool) {
		switch s.op {
		case "m:InsertColumns", "m:Values":
			return ps("NC"), true
		case "m:CompositeKey#0", "m:CompositeKey#1", "m:CompositeKey#2":
			return ps("NK"), true
		case "m:Columns":
			if st != nil && len(s.args) > 0 && saysNot(st, s.args[0], "InsertColumner") {
				return ps("NC"), true
			}
			return ps("NCall"), true
		}
		return nil, false
	}
	e.opaque = func(fn *vFunc) bool {
		if fn.decl == nil {
			return false
		}
		o, ok := fn.decl.pkg.TypesInfo.Defs[fn.decl.fd.Name].(*types.Func)
		if !ok {
			return false
		}
		p := fn.decl.pkg.PkgPath
		if !strings.HasPrefix(p, virtPath) && !strings.HasPrefix(p, seqPath) {
			return true
		}
		if strings.HasPrefix(p, encPath) || strings.Contains(p, "/driver/") || strings.Contains(p, "/sqltype") {
			return true
		}
		return o.Exported() && strings.HasPrefix(p, virtPath) && takesDB(o.Type().(*types.Signature))
	}
	return e
}

// saysNot: on this path the value is known not to have the interface.
func saysNot(st *state, v val, iface string) bool {
	for _, f := range st.is {
		if !f.yes && f.k == v.key() && namedIs(f.t, seqPath, iface) {
			return true
		}
	}
	return false
}

func says(st *state, v val, iface string) bool {
	for _, f := range st.is {
		if f.yes && f.k == v.key() && namedIs(f.t, seqPath, iface) {
			return true
		}
	}
	return false
}

// paramVals makes a symbol for each parameter.
func paramVals(e *absEngine, info *types.Info, ft *ast.FuncType, prefix string, st *state, types_ map[string]types.Type, writer types.Type) ([]val, []vPtr) {
	var out []val
	var ws []vPtr
	if ft.Params == nil {
		return nil, nil
	}
	n := 0
	add := func(name string, t types.Type) {
		if writer != nil && isWriterType(t) {
			p := e.alloc(st, e.zero(writer))
			ws = append(ws, p)
			out = append(out, p)
			return
		}
		s := mkSym(prefix+name, t)
		types_[s.k] = t
		out = append(out, s)
	}
	for _, f := range ft.Params.List {
		t := info.TypeOf(f.Type)
		if el, ok := f.Type.(*ast.Ellipsis); ok {
			t = types.NewSlice(info.TypeOf(el.Elt))
		}
		if len(f.Names) == 0 {
			add(fmt.Sprintf("_%d", n), t)
			n++
			continue
		}
		for _, nm := range f.Names {
			add(nm.Name, t)
			n++
		}
	}
	return out, ws
}

// runHelpers interprets every exported function of the expanded helper
// templates, and the functions they return.
func runHelpers(l *Loaded) *stmtRun {
	if l.stmtRun != nil {
		return l.stmtRun
	}
	r := &stmtRun{problems: map[string][]string{}, calls: map[token.Pos]string{}, seenPos: map[token.Pos]bool{}, eng: map[string]*absEngine{}}
	l.stmtRun = r
	for _, d := range specDialects {
		p := l.pkgs[helperPkgPath(d.Name)]
		if p == nil {
			continue
		}
		var writer types.Type
		if o := p.Types.Scope().Lookup("SqlStmt"); o != nil {
			writer = o.Type()
		}
		var decls []*ast.FuncDecl
		for _, f := range p.Syntax {
			for _, dd := range f.Decls {
				if fd, ok := dd.(*ast.FuncDecl); ok && fd.Body != nil {
					decls = append(decls, fd)
					name := fd.Name.Name
					ast.Inspect(fd, func(n ast.Node) bool {
						if c, ok := n.(*ast.CallExpr); ok {
							if se, ok := ast.Unparen(c.Fun).(*ast.SelectorExpr); ok {
								switch se.Sel.Name {
								case "ExecContext", "QueryContext", "QueryRowContext", "Exec", "QueryRow":
									r.calls[c.Pos()] = d.Name + "." + name
								}
							}
						}
						return true
					})
				}
			}
		}
		sort.Slice(decls, func(i, j int) bool { return decls[i].Pos() < decls[j].Pos() })
		for _, fd := range decls {
			if !fd.Name.IsExported() {
				continue
			}
			o, _ := p.TypesInfo.Defs[fd.Name].(*types.Func)
			if o == nil {
				continue
			}
			name := fd.Name.Name
			var recvObj types.Object
			if fd.Recv != nil {
				if len(fd.Recv.List[0].Names) > 0 {
					recvObj = p.TypesInfo.Defs[fd.Recv.List[0].Names[0]]
				}
				rt := o.Type().(*types.Signature).Recv().Type()
				if n, ok := derefNamed(rt); ok {
					if writer != nil && n.Obj() == writer.(*types.Named).Obj() {
						continue // analysed through its users
					}
					name = n.Obj().Name() + "." + name
				}
			}
			e := newHelperEngine(l, d)
			entry := d.Name + "." + name
			r.entries = append(r.entries, entry)
			r.eng[entry] = e
			params := map[string]types.Type{}
			e.external = func(e *absEngine, c *ctx, x *ast.CallExpr, fn *vFunc, args []val, st *state, k func(*state, []val)) bool {
				if !isDBCall(fn) {
					return false
				}
				if x != nil && len(args) >= 2 {
					r.seenPos[x.Pos()] = true
					if e.explore == 0 {
						s := &sent{entry: entry, dialect: d.Name, fn: c.fr.name, pos: x.Pos(), method: lastName(fn.name), st: st.clone(), params: params}
						if strings.HasSuffix(fn.name, "Context") {
							s.query = args[1]
							if len(args) > 2 {
								s.args = args[2]
							}
						} else {
							s.query, s.args = args[0], args[1]
						}
						r.sents = append(r.sents, s)
					}
				}
				k(st, e.freshResults(c, x, lastName(fn.name)))
				return true
			}
			st := &state{heap: map[loc]val{}, atoms: map[string]bool{}}
			args, ws := paramVals(e, p.TypesInfo, fd.Type, "p:", st, params, writer)
			var recv val
			if recvObj != nil {
				recv = mkSym("p:"+recvObj.Name(), recvObj.Type())
				params[recv.key()] = recvObj.Type()
			}
			var done func(pos token.Pos, ws []vPtr, depth int) func(*state, []val)
			done = func(pos token.Pos, ws []vPtr, depth int) func(*state, []val) {
				return func(st *state, vs []val) {
					for _, w := range ws {
						s := e.load(st, w)
						b := &built{entry: entry, dialect: d.Name, pos: pos, st: st, params: params, ret: vs}
						for _, f := range writerFields(writer) {
							fv := e.field(st, s, f.Name(), f.Type())
							switch {
							case isBuilderType(f.Type()):
								b.doc = docOf(fv)
							case isIntType(f.Type()):
								b.count = fv
							default:
								b.args = fv
							}
						}
						r.builts = append(r.builts, b)
					}
					for _, v := range vs {
						if f, ok := v.(*vFunc); ok && f.lit != nil && depth < 3 {
							s2 := st.clone()
							a, w2 := paramVals(e, f.pkg.TypesInfo, f.lit.Type, fmt.Sprintf("p%d:", depth+2), s2, params, writer)
							e.apply(&ctx{fr: f.fr}, nil, f, a, s2, done(f.lit.Pos(), w2, depth+1))
						}
					}
					if len(ws) == 0 && depth == 0 {
						r.builts = append(r.builts, &built{entry: entry, dialect: d.Name, pos: pos, st: st, params: params, ret: vs})
					}
				}
			}
			e.enter(&frame{pkg: p, name: fd.Name.Name}, fd.Type, recvObj, recv, fd.Body, args, st, done(fd.Pos(), ws, 0))
			pr := append([]string{}, e.problems...)
			if e.steps > e.limit {
				pr = append(pr, "analysis limit reached")
			}
			if len(pr) > 0 {
				r.problems[entry] = pr
			}
		}
	}
	return r
}

func writerFields(t types.Type) []*types.Var {
	var out []*types.Var
	if t == nil {
		return nil
	}
	if s, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			out = append(out, s.Field(i))
		}
	}
	return out
}

func argSegs(s val) ([]seg, bool) {
	switch s := s.(type) {
	case nil:
		return nil, true
	case *vList:
		return s.segs, true
	case vNil:
		return nil, true
	case *sym:
		return nil, false
	}
	return nil, false
}
