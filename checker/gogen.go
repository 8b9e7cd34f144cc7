package main

import (
	"go/ast"
	"go/token"
	"go/types"
	"strings"
)

// This file interprets the model generator (codegen.Generator) over abstract
// tables: the result is the abstract text of the generated file.

// genDoc is the text of one generated model file, for one dialect and setting.
type genDoc struct {
	dialect string
	quoted  bool // quote_identifier
	doc     doc
	st      *state
}

type genRun struct {
	docs     []genDoc
	problems []string
	fn       string
	pos      token.Pos
	steps    int
	e        map[string]*absEngine
}

// genEntry finds the function which writes the models of a parsed package.
func genEntry(l *Loaded) (*declSite, *types.Func) {
	var best *declSite
	var obj *types.Func
	for o, d := range l.declOf {
		f, ok := o.(*types.Func)
		if !ok || d.pkg.PkgPath != genPath {
			continue
		}
		sig := f.Type().(*types.Signature)
		if sig.Recv() == nil || !namedIs(sig.Recv().Type(), genPath, "Generator") || !returnsError(sig) {
			continue
		}
		for i := 0; i < sig.Params().Len(); i++ {
			if namedIs(sig.Params().At(i).Type(), compPath, "Package") {
				if best == nil || calls(d.pkg.TypesInfo, d.fd.Body, obj) {
					dd := d
					best, obj = &dd, f
				}
			}
		}
	}
	return best, obj
}

func returnsError(sig *types.Signature) bool {
	n := sig.Results().Len()
	return n > 0 && isErrorType(sig.Results().At(n-1).Type())
}

func calls(info *types.Info, b ast.Node, f *types.Func) bool {
	found := false
	ast.Inspect(b, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok && info.Uses[id] == f {
			found = true
		}
		return true
	})
	return found
}

// exprRole says whether a method of the generator builds the expression which
// reads (1) or writes (2) a field.
func exprRole(d *declSite) int {
	o, ok := d.pkg.TypesInfo.Defs[d.fd.Name].(*types.Func)
	if !ok || d.pkg.PkgPath != genPath {
		return 0
	}
	sig := o.Type().(*types.Signature)
	if sig.Results().Len() != 1 || !isStringType(sig.Results().At(0).Type()) {
		return 0
	}
	hasT, hasS := false, false
	for i := 0; i < sig.Params().Len(); i++ {
		t := sig.Params().At(i).Type()
		if namedIs(t, "go/types", "Type") {
			hasT = true
		} else if isStringType(t) {
			hasS = true
		}
	}
	if !hasT || !hasS {
		return 0
	}
	val, scan := false, false
	ast.Inspect(d.fd.Body, func(n ast.Node) bool {
		if se, ok := n.(*ast.SelectorExpr); ok {
			val = val || se.Sel.Name == "Valuer"
			scan = scan || se.Sel.Name == "Scanner"
		}
		return true
	})
	switch {
	case val && !scan:
		return 2
	case scan && !val:
		return 1
	}
	return 0
}

// typesOnly: a function of Go types only, without other effects.
func typesOnly(o *types.Func) bool {
	sig := o.Type().(*types.Signature)
	if sig.Params().Len() == 0 || sig.Results().Len() == 0 {
		return false
	}
	for i := 0; i < sig.Params().Len(); i++ {
		n, ok := derefNamed(sig.Params().At(i).Type())
		if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != "go/types" {
			return false
		}
	}
	return true
}

// takesStruct: a function which describes an anonymous struct type.
func takesStruct(o *types.Func) bool {
	sig := o.Type().(*types.Signature)
	for i := 0; i < sig.Params().Len(); i++ {
		if namedIs(sig.Params().At(i).Type(), "go/types", "Struct") {
			return true
		}
	}
	return false
}

var columnMethods = map[string]bool{"IsPtr": true, "IsUnderlyingPtr": true, "GoPtrPaths": true, "IsNullable": true, "Size": true,
	"InsertColumns": true, "ColumnsWithoutPK": true}

func dialectPkg(name string) string { return diaPath + "/" + name }

// dialectType is the registered implementation of a dialect.
func dialectType(l *Loaded, name string) types.Type {
	p := l.pkgs[dialectPkg(name)]
	if p == nil {
		return nil
	}
	dp := l.pkgs[diaPath]
	if dp == nil || dp.Types.Scope().Lookup("Dialect") == nil {
		return nil
	}
	iface, ok := dp.Types.Scope().Lookup("Dialect").Type().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	for _, n := range p.Types.Scope().Names() {
		if tn, ok := p.Types.Scope().Lookup(n).(*types.TypeName); ok && !types.IsInterface(tn.Type()) {
			// the methods of the interface may be declared by other packages' copies
			if types.Implements(types.NewPointer(tn.Type()), iface) {
				return tn.Type()
			}
			ok := true
			for i := 0; i < iface.NumMethods(); i++ {
				if o, _, _ := types.LookupFieldOrMethod(types.NewPointer(tn.Type()), true, nil, iface.Method(i).Name()); o == nil {
					ok = false
				}
			}
			if ok {
				return tn.Type()
			}
		}
	}
	return nil
}

func runGenerator(l *Loaded, dialect string, quoted, viaPtr bool) *genRun {
	r := &genRun{e: map[string]*absEngine{}}
	d, obj := genEntry(l)
	if d == nil {
		r.problems = append(r.problems, "the function which generates models is not found")
		return r
	}
	r.fn, r.pos = d.fd.Name.Name, d.fd.Pos()
	ng := l.genCtor()
	if ng == nil {
		r.problems = append(r.problems, "the constructor of the generator is not found")
		return r
	}
	dt := dialectType(l, dialect)
	if dt == nil {
		r.problems = append(r.problems, "dialect "+dialect+" is not found")
		return r
	}
	e := newAbs(l)
	e.peel = true
	e.assume = func(a string) (bool, bool) {
		switch {
		case strings.HasPrefix(a, "nil:elem("), a == "nil:T": // lists hold no nil columns
			return false, true
		case a == "zero:len(.Columns(T))": // tables without columns are not generated
			return false, true
		case strings.HasPrefix(a, "zero:len(.imports("), strings.HasPrefix(a, "zero:len(.DataTypes("):
			return false, true
		case strings.HasPrefix(a, "m:IsUnderlyingPtr("):
			return viaPtr, true
		}
		return false, false
	}
	r.e[dialect] = e
	if genLimit > 0 {
		e.limit = genLimit
	}
	roles := map[*ast.FuncDecl]int{}
	e.opaque = func(fn *vFunc) bool {
		p := fn.decl.pkg.PkgPath
		if p != genPath && !strings.HasPrefix(p, diaPath) && p != compPath && p != poolPath {
			return true
		}
		switch fn.decl.fd.Name.Name {
		case "ColumnDataTypes", "Import", "Format":
			return true
		}
		o, ok := fn.decl.pkg.TypesInfo.Defs[fn.decl.fd.Name].(*types.Func)
		return ok && (typesOnly(o) || takesStruct(o))
	}
	e.external = func(e *absEngine, c *ctx, x *ast.CallExpr, fn *vFunc, args []val, st *state, k func(*state, []val)) bool {
		one := func(v val) bool { k(st, []val{v}); return true }
		last := lastName(fn.name)
		switch {
		case fn.name == "("+compPath+".Table).Implements" || fn.name == "("+compPath+".Table).PtrImplements":
			e.fork("own:"+keyOf(args[0]), st, func(st *state) {
				k(st, []val{vNil{}, vBool(false)})
			}, func(st *state) {
				k(st, []val{e.alloc(st, mkSym("method", nil)), vBool(false)})
			})
			return true
		case strings.HasPrefix(fn.name, "("+compPath+".") && columnMethods[last]:
			var t types.Type
			if fn.decl != nil {
				t = fn.decl.pkg.TypesInfo.Defs[fn.decl.fd.Name].Type().(*types.Signature).Results().At(0).Type()
			}
			return one(mkSym("m:"+last, t, fn.recv))
		case fn.name == "("+compPath+".Table).GoPtrPaths":
			return one(mkSym("m:"+last, nil, fn.recv))
		case last == "QuoteIdentifier" && fn.decl != nil && strings.HasPrefix(fn.decl.pkg.PkgPath, diaPath):
			return one(mkSym("quote", types.Typ[types.String], args[0]))
		case fn.name == "(text/template.Template).Execute":
			if b, ok := st.builderAt(args[0]); ok {
				e.write(c, x, b, toDoc(args[1]), st)
				return one(vNil{})
			}
		case fn.name == "golang.org/x/tools/imports.Process":
			if e.explore == 0 {
				r.docs = append(r.docs, genDoc{dialect: dialect, quoted: quoted, doc: toDoc(args[1]), st: st.clone()})
			}
			k(st, e.freshResults(c, x, "formatted"))
			return true
		}
		if fn.decl != nil && e.opaque(fn) {
			if o, ok := fn.decl.pkg.TypesInfo.Defs[fn.decl.fd.Name].(*types.Func); ok && typesOnly(o) {
				var plain []val
				for _, a := range args {
					plain = append(plain, e.plain(st, a))
				}
				res := o.Type().(*types.Signature).Results()
				var out []val
				for i := 0; i < res.Len(); i++ {
					n := "t:" + last
					if res.Len() > 1 {
						n += "#" + string(rune('0'+i))
					}
					out = append(out, mkSym(n, res.At(i).Type(), plain...))
				}
				k(st, out)
				return true
			}
		}
		if fn.decl != nil {
			role, ok := roles[fn.decl.fd]
			if !ok {
				role = exprRole(fn.decl)
				roles[fn.decl.fd] = role
			}
			if role != 0 {
				var path, typ val
				sig := fn.decl.pkg.TypesInfo.Defs[fn.decl.fd.Name].Type().(*types.Signature)
				for i := 0; i < sig.Params().Len() && i < len(args); i++ {
					if t := sig.Params().At(i).Type(); isStringType(t) {
						path = args[i]
					} else if namedIs(t, "go/types", "Type") {
						typ = args[i]
					}
				}
				op := "read"
				if role == 2 {
					op = "write"
				}
				return one(mkSym(op, types.Typ[types.String], vStr{toDoc(path)}, e.plain(st, typ)))
			}
		}
		return false
	}
	st := &state{heap: map[loc]val{}, atoms: map[string]bool{}}
	for _, v := range []string{"sqlColumner", "sqlQueryColumner", "sqlValuer", "sqlScanner"} {
		st.atoms["own:global:codegen."+v] = false
	}
	params := map[string]types.Type{}
	args, _ := paramVals(e, ng.pkg.TypesInfo, ng.fd.Type, "p:", st, params, nil)
	sig := ng.pkg.TypesInfo.Defs[ng.fd.Name].Type().(*types.Signature)
	for i := range args {
		t := sig.Params().At(i).Type()
		switch {
		case namedIs(t, genPath, "Config"):
			ct := t.(*types.Pointer).Elem()
			args[i] = e.alloc(st, &vStruct{base: mkSym("config", ct), typ: ct, f: map[string]val{
				"QuoteIdentifier": vBool(quoted),
				"Driver":          vStr{lit(dialect)},
			}})
		case namedIs(t, diaPath, "Dialect"):
			args[i] = e.alloc(st, &vStruct{typ: dt, f: map[string]val{}})
		}
	}
	seen := map[string]bool{}
	e.enter(&frame{pkg: ng.pkg, name: ng.fd.Name.Name}, ng.fd.Type, nil, nil, ng.fd.Body, args, st, func(st *state, vs []val) {
		if len(vs) == 0 {
			return
		}
		g, ok := vs[0].(vPtr)
		if !ok {
			return
		}
		if n := len(vs); n > 1 {
			if _, isNil := vs[n-1].(vNil); !isNil {
				return
			}
		}
		gk := e.load(st, g).key()
		if seen[gk] {
			return
		}
		seen[gk] = true
		a2, _ := paramVals(e, d.pkg.TypesInfo, d.fd.Type, "p:", st, params, nil)
		dsig := obj.Type().(*types.Signature)
		for i := range a2 {
			if t := dsig.Params().At(i).Type(); namedIs(t, compPath, "Package") {
				pt := t.(*types.Pointer).Elem()
				tt := fieldType(pt, "Tables")
				sl, ok := tt.(*types.Slice)
				if !ok {
					r.problems = append(r.problems, "the tables of a package are not a list")
					return
				}
				a2[i] = e.alloc(st, &vStruct{base: mkSym("schema", pt), typ: pt, f: map[string]val{
					"Tables": &vList{typ: tt, segs: []seg{{kind: segOne, v: mkSym("T", sl.Elem())}}},
				}})
			}
		}
		var recvObj types.Object
		if len(d.fd.Recv.List[0].Names) > 0 {
			recvObj = d.pkg.TypesInfo.Defs[d.fd.Recv.List[0].Names[0]]
		}
		e.enter(&frame{pkg: d.pkg, name: d.fd.Name.Name}, d.fd.Type, recvObj, g, d.fd.Body, a2, st, func(*state, []val) {})
	})
	r.problems = append(r.problems, e.problems...)
	if e.steps > e.limit {
		r.problems = append(r.problems, "analysis limit reached")
	}
	r.steps = e.steps
	return r
}

// genCtor finds the function building a Generator.
func (l *Loaded) genCtor() *declSite {
	var best *declSite
	for o, d := range l.declOf {
		f, ok := o.(*types.Func)
		if !ok || d.pkg.PkgPath != genPath {
			continue
		}
		sig := f.Type().(*types.Signature)
		if sig.Recv() != nil || sig.Results().Len() == 0 || !namedIs(sig.Results().At(0).Type(), genPath, "Generator") {
			continue
		}
		dd := d
		best = &dd
	}
	return best
}

var genLimit int
