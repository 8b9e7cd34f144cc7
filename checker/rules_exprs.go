package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P07", "partial evaluation of the read and write expressions of every entry of every type table, for plain, pointer, named and aliased forms, which are then type-checked as a witness program; static types of both sides are compared", checkP07)
}

// witness is one field of a synthetic model with the expressions the generator
// writes for it.
type witness struct {
	dialect, name string // "postgres *named []string"
	key           string
	t             types.Type
	gen           types.Type // as the generator sees it, when that is not t
	ptr           bool
	write, read   string
	imports       map[string]string
	problems      []string

	wType, rType types.Type
	wExpr, rExpr ast.Expr
	errs         map[string][]string // "write", "read"
	info         *types.Info
}

const witnessPath = "example.com/zz/model"

// exprFuncs are the functions of the generator which yield the expressions
// that write and read a field.
func (l *Loaded) exprFuncs() (write, read *declSite) {
	for _, d := range l.declOf {
		if d.pkg.PkgPath != genPath || d.fd.Body == nil {
			continue
		}
		dd := d
		switch exprRole(&dd) {
		case 2:
			write = &dd
		case 1:
			read = &dd
		}
	}
	return
}

// witnessTypes are the forms in which a type is used.
func witnessForms(l *Loaded, key string, own, other *types.Package, n *int) []*witness {
	var out []*witness
	t := tableType(l, key)
	if t == nil {
		return nil
	}
	*n++
	add := func(form string, t types.Type, ptr bool) {
		out = append(out, &witness{name: form + key, key: key, t: t, ptr: ptr})
	}
	decl := func(p *types.Package, prefix string, under types.Type) types.Type {
		o := types.NewTypeName(token.NoPos, p, fmt.Sprintf("%s%d", prefix, *n), nil)
		nt := types.NewNamed(o, under.Underlying(), nil)
		p.Scope().Insert(o)
		return nt
	}
	add("", t, false)
	add("*", types.NewPointer(t), true)
	if key == "*" {
		// structs which share no more than a name with known types
		for _, p := range []*types.Package{own, other} {
			for _, name := range []string{"Time", "RawMessage", "RawBytes"} {
				o := types.NewTypeName(token.NoPos, p, name, nil)
				nt := types.NewNamed(o, types.NewStruct(nil, nil), nil)
				p.Scope().Insert(o)
				add(p.Name()+"."+name+" as ", nt, false)
				add("*"+p.Name()+"."+name+" as ", types.NewPointer(nt), true)
			}
		}
	}
	if _, isStruct := t.Underlying().(*types.Struct); !isStruct {
		named, foreign := decl(own, "Named", t), decl(other, "Kind", t)
		add("named ", named, false)
		add("*named ", types.NewPointer(named), true)
		add("imported ", foreign, false)
		add("*imported ", types.NewPointer(foreign), true)
		if el := listElem(t); el != nil {
			if _, basic := el.(*types.Basic); basic && key != "[]byte" {
				ne := decl(own, "Elem", el)
				fe := decl(other, "Elem", el)
				add("elements named ", relist(t, ne), false)
				add("*elements named ", types.NewPointer(relist(t, ne)), true)
				add("elements imported ", relist(t, fe), false)
			}
		}
	}
	o := types.NewTypeName(token.NoPos, own, fmt.Sprintf("Alias%d", *n), nil)
	al := types.NewAlias(o, t)
	own.Scope().Insert(o)
	add("alias ", al, false)
	return out
}

func listElem(t types.Type) types.Type {
	switch t := t.(type) {
	case *types.Slice:
		return t.Elem()
	case *types.Array:
		return t.Elem()
	}
	return nil
}

func relist(t, el types.Type) types.Type {
	if a, ok := t.(*types.Array); ok {
		return types.NewArray(el, a.Len())
	}
	return types.NewSlice(el)
}

// tableType is the Go type a key of a type table names; arrays get a length.
func tableType(l *Loaded, key string) types.Type {
	switch {
	case key == "*":
		return types.NewMap(types.Typ[types.String], types.Typ[types.Int])
	case strings.HasPrefix(key, "[]"):
		if el := tableType(l, key[2:]); el != nil {
			return types.NewSlice(el)
		}
		return nil
	case strings.HasPrefix(key, "[...]"):
		if el := tableType(l, key[5:]); el != nil {
			return types.NewArray(el, 7)
		}
		return nil
	}
	if o, ok := types.Universe.Lookup(key).(*types.TypeName); ok {
		return o.Type()
	}
	if i := strings.LastIndex(key, "."); i > 0 {
		p := key[:i]
		if p == "sql" {
			p = "database/sql"
		}
		if pk := l.anyPkg(p); pk != nil {
			if o := pk.Scope().Lookup(key[i+1:]); o != nil {
				return o.Type()
			}
		}
	}
	return nil
}

// ownForms are types which bring methods of their own: database/sql's, or those
// of a text.
func ownForms(l *Loaded, own, other *types.Package) []*witness {
	var out []*witness
	errT := types.Universe.Lookup("error").Type()
	anyT := types.NewInterfaceType(nil, nil)
	bytesT := types.NewSlice(types.Typ[types.Byte])
	var value types.Type
	if p := l.anyPkg("database/sql/driver"); p != nil {
		value = p.Scope().Lookup("Value").Type()
	}
	if value == nil {
		return nil
	}
	// the generator loads the models apart from the interfaces it knows, so that
	// their driver.Value is another type
	far := types.NewPackage("database/sql/driver", "driver")
	farValue := types.NewNamed(types.NewTypeName(token.NoPos, far, "Value", nil), anyT, nil)
	tuple := func(ts ...types.Type) *types.Tuple {
		var vs []*types.Var
		for _, t := range ts {
			vs = append(vs, types.NewVar(token.NoPos, nil, "", t))
		}
		return types.NewTuple(vs...)
	}
	for _, p := range []*types.Package{own, other} {
		for _, m := range []string{"scan", "text"} {
			for _, under := range []types.Type{types.NewStruct(nil, nil), types.Typ[types.String]} {
				name := "Own" + strings.ToUpper(m[:1]) + m[1:]
				if _, basic := under.(*types.Basic); basic {
					if m == "text" {
						continue // has an entry of its own
					}
					name += "String"
				}
				var made []*types.Named
				for _, value := range []types.Type{value, farValue} {
					o := types.NewTypeName(token.NoPos, p, name, nil)
					n := types.NewNamed(o, under, nil)
					made = append(made, n)
					if len(made) == 1 {
						p.Scope().Insert(o)
					}
					add := func(name string, ptr bool, params, results *types.Tuple) {
						var rt types.Type = n
						if ptr {
							rt = types.NewPointer(n)
						}
						sig := types.NewSignatureType(types.NewVar(token.NoPos, p, "", rt), nil, nil, params, results, false)
						n.AddMethod(types.NewFunc(token.NoPos, p, name, sig))
					}
					if m == "scan" {
						add("Value", false, nil, tuple(value, errT))
						add("Scan", true, tuple(anyT), tuple(errT))
					} else {
						add("MarshalText", false, nil, tuple(bytesT, errT))
						add("UnmarshalText", true, tuple(bytesT), tuple(errT))
					}
				}
				n := made[0]
				where := ""
				if p == other {
					where = "imported "
				}
				out = append(out, &witness{name: where + "own " + name, key: "own methods", t: n, gen: made[1]}, &witness{name: "*" + where + "own " + name, key: "own methods", t: types.NewPointer(n), gen: types.NewPointer(made[1]), ptr: true})
			}
		}
	}
	return out
}

// witnesses evaluates the expressions of every form of every entry.
func witnesses(c *Ctx, dn string, config map[string]val) (out []*witness, own, other *types.Package, problems []string) {
	l := c.L
	own, other = types.NewPackage(witnessPath, "model"), types.NewPackage("example.com/zz/other/kinds", "kinds")
	other.MarkComplete()
	ct := columnTable(l, dn)
	if len(ct.problems) > 0 {
		return nil, own, other, ct.problems
	}
	wr, rd := l.exprFuncs()
	if wr == nil || rd == nil {
		return nil, own, other, []string{"the functions which yield the expressions are not found"}
	}
	c.Analysed(genPath + "." + wr.fd.Name.Name)
	c.Analysed(genPath + "." + rd.fd.Name.Name)
	recv, st, why := genWithTable(ct, config)
	if why != "" {
		return nil, own, other, []string{why}
	}
	n := 0
	for _, key := range append([]string{""}, ct.keys...) {
		var ws []*witness
		if key == "" {
			ws = ownForms(l, own, other)
		} else {
			ws = witnessForms(l, key, own, other, &n)
		}
		if ws == nil {
			problems = append(problems, "the Go type "+key+" is not known")
		}
		for _, w := range ws {
			w.dialect = dn
			wp, wt := "v.F", w.t
			if w.gen != nil {
				wt = w.gen
			}
			rt := wt
			if w.ptr {
				wp, wt = "*v.F", wt.(*types.Pointer).Elem()
			}
			w.write = ct.expr(w, wr, recv, st, wp, wt)
			w.read = ct.expr(w, rd, recv, st, "&v.F", rt)
			out = append(out, w)
		}
	}
	return
}

func (ct *colTable) expr(w *witness, d *declSite, recv val, st *state, goPath string, t types.Type) string {
	e := ct.ce
	e.own = witnessPath
	e.trouble = nil
	e.imported = map[string]string{}
	if w.imports == nil {
		w.imports = map[string]string{}
	}
	st = st.clone()
	sig := d.pkg.TypesInfo.Defs[d.fd.Name].Type().(*types.Signature)
	var args []val
	for i := 0; i < sig.Params().Len(); i++ {
		switch pt := sig.Params().At(i).Type(); {
		case isStringType(pt):
			args = append(args, vStr{lit(goPath)})
		case namedIs(pt, "go/types", "Type"):
			args = append(args, &vGo{t})
		default:
			args = append(args, mkSym(fmt.Sprintf("arg%d", i), pt))
		}
	}
	ends := e.evalFunc(d, recv, args, st)
	for p, n := range e.imported {
		w.imports[p] = n
	}
	w.problems = append(w.problems, e.trouble...)
	var text string
	for i, end := range ends {
		s, ok := constText(end.vals[0])
		if os.Getenv("DBG") != "" && len(ends) > 1 {
			fmt.Println("  PATH", w.name, end.st.atoms, dumpVal(end.vals[0]))
		}
		if !ok || i > 0 && s != text {
			w.problems = append(w.problems, fmt.Sprintf("the expression of %s is not one known text on every path: %v", goPath, dumpVal(end.vals[0])))
			return ""
		}
		text = s
	}
	if len(ends) == 0 {
		w.problems = append(w.problems, "no expression is yielded for "+goPath)
	}
	return text
}

func dumpVal(v val) string {
	if v == nil {
		return "nothing"
	}
	return v.key()
}

// typeCheck builds the witness program of one field and type-checks it.
func (w *witness) typeCheck(l *Loaded, own, other *types.Package) {
	w.errs = map[string][]string{}
	if w.write == "" || w.read == "" {
		return
	}
	var b strings.Builder
	b.WriteString("package model\n")
	body := "func write(v Row) any { return " + w.write + "\n}\nfunc read(v *Row) any { return " + w.read + "\n}\n"
	// imports that nothing uses are dropped when the file is formatted
	used := map[string]bool{}
	if f, err := parser.ParseFile(token.NewFileSet(), "model.go", "package model\n"+body, 0); err == nil {
		for _, id := range f.Unresolved {
			used[id.Name] = true
		}
	}
	var ps []string
	for p := range w.imports {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	for _, p := range ps {
		if p != own.Path() && used[w.imports[p]] {
			fmt.Fprintf(&b, "import %s %q\n", w.imports[p], p)
		}
	}
	b.WriteString(body)
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "model.go", b.String(), 0)
	if err != nil {
		w.errs["write"] = []string{err.Error()}
		return
	}
	// a package of its own, with the declared types and the model
	pkg := types.NewPackage(own.Path(), own.Name())
	for _, n := range own.Scope().Names() {
		pkg.Scope().Insert(own.Scope().Lookup(n))
	}
	row := types.NewTypeName(token.NoPos, pkg, "Row", nil)
	types.NewNamed(row, types.NewStruct([]*types.Var{types.NewField(token.NoPos, own, "F", w.t, false)}, nil), nil)
	pkg.Scope().Insert(row)
	funcAt := func(p token.Pos) string {
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && d.Pos() <= p && p <= d.End() {
				return fd.Name.Name
			}
		}
		return "import"
	}
	w.info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Instances: map[*ast.Ident]types.Instance{}}
	cfg := types.Config{
		Importer: importerFunc(func(p string) (*types.Package, error) {
			if p == other.Path() {
				return other, nil
			}
			if tp := l.anyPkg(p); tp != nil {
				return tp, nil
			}
			return nil, fmt.Errorf("package %s is not found", p)
		}),
		Error: func(err error) {
			te := err.(types.Error)
			if strings.Contains(te.Msg, "imported and not used") {
				return
			}
			at := funcAt(te.Pos)
			w.errs[at] = append(w.errs[at], te.Msg)
		},
	}
	ck := types.NewChecker(&cfg, fset, pkg, w.info)
	ck.Files([]*ast.File{f})
	for _, d := range f.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok {
			x := fd.Body.List[0].(*ast.ReturnStmt).Results[0]
			tv := w.info.Types[x]
			if fd.Name.Name == "write" {
				w.wType, w.wExpr = tv.Type, x
			} else {
				w.rType, w.rExpr = tv.Type, x
			}
		}
	}
}

// dynTypes are the types a value of an interface type can hold; nil stands for
// the nil value.
func (l *Loaded) dynTypes(v ssa.Value, depth int) (out []types.Type, known bool) {
	known = true
	seen := map[ssa.Value]bool{}
	var visit func(v ssa.Value)
	results := func(c *ssa.Call, idx int) {
		cal := origin(callee(c))
		if cal == nil || cal.Blocks == nil || depth > 5 {
			known = false
			return
		}
		for _, b := range cal.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && idx < len(r.Results) {
				ts, k := l.dynTypes(r.Results[idx], depth+1)
				out = append(out, ts...)
				known = known && k
			}
		}
	}
	visit = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.MakeInterface:
			out = append(out, x.X.Type())
		case *ssa.ChangeInterface:
			visit(x.X)
		case *ssa.Phi:
			for _, e := range x.Edges {
				visit(e)
			}
		case *ssa.Const:
			out = append(out, nil)
		case *ssa.Call:
			results(x, 0)
		case *ssa.Extract:
			if c, ok := x.Tuple.(*ssa.Call); ok {
				results(c, x.Index)
			} else {
				known = false
			}
		case *ssa.UnOp:
			ss := cellStores(x.X)
			known = known && len(ss) > 0
			for _, s := range ss {
				if s == nil {
					known = false
				} else {
					visit(s)
				}
			}
		default:
			known = false
		}
	}
	visit(v)
	return
}

// yields are the types a function's first result can hold.
func (l *Loaded) yields(fn *ssa.Function) (out []types.Type, known bool) {
	known = true
	for _, b := range fn.Blocks {
		r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || len(r.Results) == 0 {
			continue
		}
		if t := r.Results[0].Type(); !types.IsInterface(t) {
			out = append(out, t)
			continue
		}
		ts, k := l.dynTypes(r.Results[0], 0)
		out, known = append(out, ts...), known && k
	}
	return out, known && len(out) > 0
}

// namedOf is the declared type behind a type or a pointer to it.
func namedOf(t types.Type) *types.Named {
	if t == nil {
		return nil
	}
	t = types.Unalias(t)
	if p, ok := t.(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	n, _ := t.(*types.Named)
	return n
}

// holders are the types behind an expression of a witness: what a call of a
// constructor yields, or the expression's own type.
func (w *witness) holders(l *Loaded, x ast.Expr, t types.Type) (out []types.Type, known bool) {
	if t == nil {
		return nil, false
	}
	if !types.IsInterface(t) {
		return []types.Type{t}, true
	}
	c, ok := ast.Unparen(x).(*ast.CallExpr)
	if !ok {
		return nil, false
	}
	fun := ast.Unparen(c.Fun)
	switch f := fun.(type) {
	case *ast.IndexExpr:
		fun = f.X
	case *ast.IndexListExpr:
		fun = f.X
	}
	if s, ok := fun.(*ast.SelectorExpr); ok {
		fun = s.Sel
	}
	id, ok := fun.(*ast.Ident)
	if !ok {
		return nil, false
	}
	fo, ok := w.info.Uses[id].(*types.Func)
	if !ok || fo.Pkg() == nil {
		return nil, false
	}
	fn := l.function(fo.Pkg().Path(), fo.Name())
	if fn == nil {
		return nil, false
	}
	return l.yields(fn)
}

// driverKind is the kind of value database/sql hands to the driver for a value
// of this type: "" when there is none.
func driverKind(t types.Type) string {
	if namedIs(t, "time", "Time") {
		return "time.Time"
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0 && u.Kind() != types.Uintptr:
			return "int64"
		case u.Info()&types.IsFloat != 0:
			return "float64"
		case u.Info()&types.IsBoolean != 0:
			return "bool"
		case u.Info()&types.IsString != 0:
			return "string"
		}
	case *types.Slice:
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			return "[]byte"
		}
	}
	return ""
}

// fills tells whether database/sql itself can put a value of a kind into a
// variable of a type.
func fills(t types.Type, kind string) bool {
	if p, ok := types.Unalias(t).(*types.Pointer); ok {
		t = p.Elem()
	}
	have := driverKind(t)
	switch {
	case have == "":
		return false
	case have == kind:
		return true
	case kind == "string" || kind == "[]byte":
		return have != "time.Time"
	case have == "string" || have == "[]byte":
		return true
	case kind == "int64":
		return have == "float64" || have == "bool"
	}
	return false
}

// losses are the conversions of an expression which do not keep every value.
func (w *witness) losses(x ast.Expr) (out []string, n int) {
	ast.Inspect(x, func(nd ast.Node) bool {
		c, ok := nd.(*ast.CallExpr)
		if !ok || len(c.Args) != 1 || !w.info.Types[c.Fun].IsType() {
			return true
		}
		to, ok1 := w.info.Types[c].Type.Underlying().(*types.Basic)
		from, ok2 := w.info.Types[c.Args[0]].Type.Underlying().(*types.Basic)
		if !ok1 || !ok2 {
			return true
		}
		n++
		if !keepsAll(from, to) {
			out = append(out, fmt.Sprintf("%s to %s", from, to))
		}
		return true
	})
	return
}

func keepsAll(from, to *types.Basic) bool {
	class := func(b *types.Basic) (kind string, bits int64) {
		bits = 8 * types.SizesFor("gc", "amd64").Sizeof(b)
		switch {
		case b.Info()&types.IsUnsigned != 0:
			return "uint", bits
		case b.Info()&types.IsInteger != 0:
			return "int", bits
		case b.Info()&types.IsFloat != 0:
			return "float", bits
		}
		return b.Name(), bits
	}
	fk, fb := class(from)
	tk, tb := class(to)
	switch {
	case fk == tk:
		return tb >= fb
	case fk == "uint" && tk == "int":
		return tb > fb
	case (fk == "uint" || fk == "int") && tk == "float":
		return tb == 64 && fb <= 32 || tb == 32 && fb <= 16
	}
	return false
}

// agreement decides what the read side makes of what the write side yields.
func (w *witness) agreement(c *Ctx, accepted map[string]map[string]bool, pos token.Pos) {
	l := c.L
	name := w.dialect + " " + w.name
	if w.wType == nil || w.rType == nil || len(w.errs) > 0 {
		return
	}
	losses, _ := w.losses(w.wExpr)
	c.Check(len(losses) == 0, "preserved", w.dialect+" "+w.key, pos, "%s keeps every value of %s%s", w.write, w.name, because(losses))
	// what is written
	valuer := l.driverValuer()
	var kinds []string
	var makers, foreign []*types.Named
	ws, ok := w.holders(l, w.wExpr, w.wType)
	var why []string
	if !ok {
		why = append(why, "the value written is not known")
	}
	for _, t := range ws {
		n := namedOf(t)
		if t != nil && n != nil && (types.Implements(t, valuer) || hasValue(n)) && !namedIs(n, "time", "Time") {
			if n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
				foreign = append(foreign, n)
				continue
			}
			makers = append(makers, n)
			fn := l.function(n.Obj().Pkg().Path(), n.Obj().Name()+".Value")
			if fn == nil {
				why = append(why, "the Value method of "+n.Obj().Name()+" is not found")
				continue
			}
			ts, known := l.yields(fn)
			if !known {
				why = append(why, "what "+n.Obj().Name()+".Value yields is not known")
			}
			for _, vt := range ts {
				if vt == nil {
					continue
				}
				if k := kindOfType(vt); k != "" {
					kinds = append(kinds, k)
				} else {
					why = append(why, n.Obj().Name()+".Value yields "+vt.String()+", which no driver takes")
				}
			}
			continue
		}
		if t == nil {
			continue
		}
		k := driverKind(t)
		if k == "" {
			why = append(why, "no driver takes "+t.String())
			continue
		}
		kinds = append(kinds, k)
	}
	c.Check(len(why) == 0, "driver value", name, pos, "%s yields %v%s", w.write, kinds, because(why))
	// what is read
	rs, ok := w.holders(l, w.rExpr, w.rType)
	why = nil
	if !ok {
		why = append(why, "the scanner is not known")
	}
	var readers []*types.Named
	for _, t := range rs {
		if t == nil {
			continue
		}
		n := namedOf(t)
		if n != nil && n.Obj().Pkg() != nil {
			if acc := accepted[n.Obj().Pkg().Path()+"."+n.Obj().Name()]; acc != nil {
				readers = append(readers, n)
				if len(foreign) > 0 && !(acc["string"] && acc["[]byte"] && acc["int64"] && acc["float64"] && acc["bool"] && acc["time.Time"]) {
					why = append(why, fmt.Sprintf("%s does not hand on to the Scan method of %s", n.Obj().Name(), foreign[0].Obj().Name()))
				}
				for _, k := range kinds {
					if !acc[k] && !(k == "string" && acc["[]byte"]) && !(k == "[]byte" && acc["string"]) {
						why = append(why, fmt.Sprintf("%s does not take the %s which is written", n.Obj().Name(), k))
					}
				}
				continue
			}
		}
		p, isPtr := types.Unalias(t).(*types.Pointer)
		if !isPtr {
			why = append(why, t.String()+" is no place to read into")
			continue
		}
		if n != nil && w.key == "own methods" && types.NewMethodSet(t).Lookup(n.Obj().Pkg(), "Scan") != nil {
			continue
		}
		if len(makers) > 0 || len(foreign) > 0 {
			why = append(why, "the text of "+append(makers, foreign...)[0].Obj().Name()+" is read as it is")
		}
		for _, k := range kinds {
			if !fills(p.Elem(), k) {
				why = append(why, fmt.Sprintf("a %s cannot be read into %s", k, t))
			}
		}
	}
	c.Check(len(why) == 0, "accepts", name, pos, "%s is read with %s%s", w.write, w.read, because(why))
	// a text with a form of its own is read by the reader of that form
	why = nil
	for _, m := range makers {
		for _, r := range readers {
			if !samePair(m, r) {
				why = append(why, fmt.Sprintf("%s writes what %s does not read", m.Obj().Name(), r.Obj().Name()))
			}
		}
	}
	for _, r := range readers {
		if len(foreign) > 0 {
			break
		}
		if len(makers) == 0 && strings.HasSuffix(r.Obj().Pkg().Path(), "/encoding") == false {
			// an array of bytes or characters is text; everything else of these packages has brackets
			why = append(why, "a plain value is read as the list "+r.Obj().Name())
		}
		if len(makers) == 0 && strings.HasPrefix(r.Obj().Name(), "json") {
			why = append(why, "a plain value is read as JSON")
		}
	}
	c.Check(len(why) == 0, "pairing", name, pos, "%s and %s use one form%s", w.write, w.read, because(why))
}

// samePair tells whether a writer and a reader belong together: the list types
// of one package share their form, the others are named for each other.
func samePair(w, r *types.Named) bool {
	if w.Obj() == r.Obj() {
		return true
	}
	if w.Obj().Pkg() != r.Obj().Pkg() {
		return false
	}
	if strings.HasSuffix(w.Obj().Pkg().Path(), "/encoding") || strings.HasSuffix(w.Obj().Pkg().Path(), "/types") {
		stem := func(s string) string {
			for _, x := range []string{"Valuer", "Scanner", "Marshaler", "Unmarshaler", "Value"} {
				s = strings.TrimSuffix(s, x)
			}
			return strings.ToLower(s)
		}
		return stem(w.Obj().Name()) == stem(r.Obj().Name())
	}
	return true
}

func hasValue(n *types.Named) bool {
	for i := 0; i < n.NumMethods(); i++ {
		if n.Method(i).Name() == "Value" {
			return true
		}
	}
	return false
}

func (l *Loaded) driverValuer() *types.Interface {
	if p := l.anyPkg("database/sql/driver"); p != nil {
		if o := p.Scope().Lookup("Valuer"); o != nil {
			return o.Type().Underlying().(*types.Interface)
		}
	}
	return types.NewInterfaceType(nil, nil)
}

func checkP07(c *Ctx) {
	accepted := map[string]map[string]bool{}
	for _, m := range scanMethods(c.L) {
		n := namedOf(m.Signature.Recv().Type())
		if n == nil {
			continue
		}
		ok := map[string]bool{}
		for _, o := range newScanAnalysis(c.L).run(m) {
			if o.err == "nil" && o.stored != stNone {
				ok[o.kind] = true
			}
		}
		accepted[n.Obj().Pkg().Path()+"."+n.Obj().Name()] = ok
		c.Analysed(fname(m))
	}
	for _, dn := range []string{"mysql", "postgres", "sqlite"} {
		ws, own, other, problems := witnesses(c, dn, nil)
		pos := token.NoPos
		if f := columnTable(c.L, dn).d; f != nil {
			pos = f.fd.Pos()
		}
		c.Check(len(problems) == 0, "table", dn, pos, "the expressions are known%s", because(problems))
		for _, w := range ws {
			w.typeCheck(c.L, own, other)
			if os.Getenv("DBG") != "" {
				fmt.Println("  IMPORTS", w.imports)
				fmt.Printf("%s %-24s W %s  [%v]\n      R %s [%v]\n   %v %v\n", dn, w.name, w.write, w.wType, w.read, w.rType, w.errs, w.problems)
			}
			c.Check(len(w.problems) == 0, "known", dn+" "+w.name, pos, "the expressions of a field of this type are known%s", because(w.problems))
			for _, side := range []string{"write", "read", "import"} {
				es := w.errs[side]
				c.Check(len(es) == 0, "compiles", dn+" "+side+" "+w.name, pos, "%s / %s%s", w.write, w.read, because(es))
			}
			w.agreement(c, accepted, pos)
		}
	}
	c.Min("compiles", 2000)
	c.Min("accepts", 600)
	c.Min("pairing", 600)
	c.Min("preserved", 600)
}
