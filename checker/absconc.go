package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"path"
	"path/filepath"
	"regexp"
	"strings"
)

// Partial evaluation: the interpreter with known inputs. Texts, maps with known
// keys and values of go/types are folded; everything else stays symbolic.

// vGo is a known value of go/types: a types.Type, an object or a package.
type vGo struct{ x any }

func (v *vGo) key() string { return fmt.Sprintf("go:%T:%p", v.x, v.x) }

// dynName: the name of the go/types type a value has.
func (v *vGo) dynName() string {
	s := fmt.Sprintf("%T", v.x)
	return s[strings.LastIndexByte(s, '.')+1:]
}

func (v *vGo) is(t types.Type) bool {
	if n, ok := derefNamed(t); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "go/types" {
		if types.IsInterface(n) {
			_, isType := v.x.(types.Type)
			_, isObj := v.x.(types.Object)
			return n.Obj().Name() == "Type" && isType || n.Obj().Name() == "Object" && isObj
		}
		return n.Obj().Name() == v.dynName()
	}
	if i, ok := t.Underlying().(*types.Interface); ok {
		return i.NumMethods() == 0 || i.NumMethods() == 1 && i.Method(0).Name() == "String"
	}
	return false
}

// concEngine makes an interpreter which folds what is known. imported records
// the packages the code asks for; own is the package the code is generated in.
type concEngine struct {
	*absEngine
	l        *Loaded
	own      string
	imported map[string]string // path -> name
	trouble  []string
	globals  map[string]any // package-level variables: regexps, interfaces
}

func newConc(l *Loaded) *concEngine {
	ce := &concEngine{absEngine: newAbs(l), l: l, imported: map[string]string{}, globals: map[string]any{}}
	ce.peel, ce.conc = true, true
	ce.external = ce.fold
	ce.globalHook = func(name string) val {
		if s, ok := ce.global(name).(string); ok {
			return vStr{lit(s)}
		}
		return nil
	}
	return ce
}

func (ce *concEngine) problem(f string, a ...any) {
	s := fmt.Sprintf(f, a...)
	for _, p := range ce.trouble {
		if p == s {
			return
		}
	}
	ce.trouble = append(ce.trouble, s)
}

var foldSS = map[string]func(a, b string) val{
	"strings.HasPrefix":   func(a, b string) val { return vBool(strings.HasPrefix(a, b)) },
	"strings.HasSuffix":   func(a, b string) val { return vBool(strings.HasSuffix(a, b)) },
	"strings.Contains":    func(a, b string) val { return vBool(strings.Contains(a, b)) },
	"strings.ContainsAny": func(a, b string) val { return vBool(strings.ContainsAny(a, b)) },
	"strings.EqualFold":   func(a, b string) val { return vBool(strings.EqualFold(a, b)) },
	"strings.Index":       func(a, b string) val { return vInt{pc(int64(strings.Index(a, b)))} },
	"strings.LastIndex":   func(a, b string) val { return vInt{pc(int64(strings.LastIndex(a, b)))} },
	"strings.IndexAny":    func(a, b string) val { return vInt{pc(int64(strings.IndexAny(a, b)))} },
	"strings.Count":       func(a, b string) val { return vInt{pc(int64(strings.Count(a, b)))} },
	"strings.TrimPrefix":  func(a, b string) val { return vStr{lit(strings.TrimPrefix(a, b))} },
	"strings.TrimSuffix":  func(a, b string) val { return vStr{lit(strings.TrimSuffix(a, b))} },
	"strings.TrimLeft":    func(a, b string) val { return vStr{lit(strings.TrimLeft(a, b))} },
	"strings.TrimRight":   func(a, b string) val { return vStr{lit(strings.TrimRight(a, b))} },
	"strings.Trim":        func(a, b string) val { return vStr{lit(strings.Trim(a, b))} },
	"strings.Split":       func(a, b string) val { return textList(strings.Split(a, b)) },
}

var foldS = map[string]func(a string) val{
	"strings.ToLower":       func(a string) val { return vStr{lit(strings.ToLower(a))} },
	"strings.ToUpper":       func(a string) val { return vStr{lit(strings.ToUpper(a))} },
	"strings.TrimSpace":     func(a string) val { return vStr{lit(strings.TrimSpace(a))} },
	"strings.Fields":        func(a string) val { return textList(strings.Fields(a)) },
	"path/filepath.Base":    func(a string) val { return vStr{lit(filepath.Base(a))} },
	"path.Base":             func(a string) val { return vStr{lit(path.Base(a))} },
	"regexp.QuoteMeta":      func(a string) val { return vStr{lit(regexp.QuoteMeta(a))} },
	"path/filepath.Ext":     func(a string) val { return vStr{lit(filepath.Ext(a))} },
	"path/filepath.ToSlash": func(a string) val { return vStr{lit(filepath.ToSlash(a))} },
}

func textList(in []string) val {
	if in == nil {
		return vNil{}
	}
	l := &vList{typ: types.NewSlice(types.Typ[types.String])}
	for _, s := range in {
		l.segs = append(l.segs, seg{kind: segOne, v: vStr{lit(s)}})
	}
	return l
}

// global evaluates a package-level variable that holds a regular expression or
// an interface of go/types, from its only assignment.
func (ce *concEngine) global(name string) any {
	if v, ok := ce.globals[name]; ok {
		return v
	}
	ce.globals[name] = nil
	for _, p := range ce.l.pkgs {
		if !strings.HasPrefix(p.PkgPath, modPath) {
			continue
		}
		for _, f := range p.Syntax {
			var caseOf []ast.Node
			ast.Inspect(f, func(n ast.Node) bool {
				if n == nil {
					caseOf = caseOf[:len(caseOf)-1]
					return true
				}
				caseOf = append(caseOf, n)
				var lhs, rhs []ast.Expr
				switch n := n.(type) {
				case *ast.ValueSpec:
					for _, id := range n.Names {
						lhs = append(lhs, id)
					}
					rhs = n.Values
				case *ast.AssignStmt:
					lhs, rhs = n.Lhs, n.Rhs
				}
				if len(lhs) != len(rhs) {
					return true
				}
				for i := range lhs {
					id, ok := lhs[i].(*ast.Ident)
					if !ok {
						continue
					}
					o := p.TypesInfo.ObjectOf(id)
					if o == nil || o.Pkg() == nil || o.Parent() != o.Pkg().Scope() || o.Pkg().Name()+"."+o.Name() != strings.TrimPrefix(name, "global:") {
						continue
					}
					ce.globals[name] = ce.globalValue(p.TypesInfo, rhs[i], caseOf)
				}
				return true
			})
		}
	}
	return ce.globals[name]
}

func (ce *concEngine) globalValue(info *types.Info, x ast.Expr, up []ast.Node) any {
	text := func(x ast.Expr) (string, bool) {
		tv := info.Types[x]
		if tv.Value == nil || tv.Value.Kind() != constant.String {
			return "", false
		}
		return constant.StringVal(tv.Value), true
	}
	var got any
	if s, ok := text(x); ok {
		return s
	}
	ast.Inspect(x, func(n ast.Node) bool {
		call, ok := n.(*ast.CallExpr)
		if !ok || len(call.Args) != 1 {
			return true
		}
		se, ok := ast.Unparen(call.Fun).(*ast.SelectorExpr)
		if !ok {
			return true
		}
		s, isText := text(call.Args[0])
		switch {
		case se.Sel.Name == "MustCompile" && isText:
			got, _ = regexp.Compile(s)
			return false
		case se.Sel.Name == "Lookup" && isText:
			// an interface of a package named by the case around it
			pkg := ""
			for i := len(up) - 1; i >= 0 && pkg == ""; i-- {
				if cc, ok := up[i].(*ast.CaseClause); ok && len(cc.List) == 1 {
					pkg, _ = text(cc.List[0])
				}
			}
			if pkg == "" {
				pkg = seqPath
			}
			if tp := ce.l.anyPkg(pkg); tp != nil {
				if o := tp.Scope().Lookup(s); o != nil {
					switch {
					case isStringType(info.TypeOf(x)):
						got = o.Type().String()
					default:
						got = o.Type().Underlying()
					}
				}
			}
			return false
		}
		return true
	})
	return got
}

// anyPkg finds a package among everything the program imports.
func (l *Loaded) anyPkg(p string) *types.Package {
	if q := l.pkgs[p]; q != nil {
		return q.Types
	}
	seen := map[*types.Package]bool{}
	var find func(t *types.Package) *types.Package
	find = func(t *types.Package) *types.Package {
		if t == nil || seen[t] {
			return nil
		}
		seen[t] = true
		if t.Path() == p {
			return t
		}
		for _, i := range t.Imports() {
			if r := find(i); r != nil {
				return r
			}
		}
		return nil
	}
	for _, q := range l.pkgs {
		if r := find(q.Types); r != nil {
			return r
		}
	}
	return nil
}

// goArg: the go/types value behind an argument.
func (ce *concEngine) goArg(st *state, v val) any {
	v = ce.plain(st, v)
	switch v := v.(type) {
	case *vGo:
		return v.x
	case *sym:
		if strings.HasPrefix(v.op, "global:") {
			return ce.global(v.op)
		}
	}
	return nil
}

// fold evaluates calls whose operands are known.
func (ce *concEngine) fold(e *absEngine, c *ctx, x *ast.CallExpr, fn *vFunc, args []val, st *state, k func(*state, []val)) bool {
	one := func(v val) bool { k(st, []val{v}); return true }
	str := func(i int) (string, bool) {
		if i >= len(args) {
			return "", false
		}
		return constText(args[i])
	}
	num := func(i int) (int64, bool) {
		if i >= len(args) {
			return 0, false
		}
		p, ok := asPoly(args[i])
		if !ok {
			return 0, false
		}
		return p.constant()
	}
	last := lastName(fn.name)
	a, okA := str(0)
	b, okB := str(1)
	if f := foldSS[fn.name]; f != nil && okA && okB && len(args) == 2 {
		return one(f(a, b))
	}
	if f := foldS[fn.name]; f != nil && okA && len(args) == 1 {
		return one(f(a))
	}
	switch fn.name {
	case "strings.Replace", "strings.ReplaceAll":
		s, ok := str(2)
		n := int64(-1)
		if fn.name == "strings.Replace" {
			var okN bool
			n, okN = num(3)
			ok = ok && okN
		}
		if okA && okB && ok {
			return one(vStr{lit(strings.Replace(a, b, s, int(n)))})
		}
	case "strings.Cut":
		if okA && okB {
			p, q, ok := strings.Cut(a, b)
			k(st, []val{vStr{lit(p)}, vStr{lit(q)}, vBool(ok)})
			return true
		}
	case "strings.CutSuffix", "strings.CutPrefix":
		if okA && okB {
			r, ok := strings.CutSuffix(a, b)
			if fn.name == "strings.CutPrefix" {
				r, ok = strings.CutPrefix(a, b)
			}
			k(st, []val{vStr{lit(r)}, vBool(ok)})
			return true
		}
	case "strings.LastIndexByte", "strings.IndexByte", "strings.IndexRune":
		if n, ok := num(1); okA && ok {
			if fn.name == "strings.LastIndexByte" {
				return one(vInt{pc(int64(strings.LastIndexByte(a, byte(n))))})
			}
			return one(vInt{pc(int64(strings.IndexRune(a, rune(n))))})
		}
	case "go/types.MissingMethod":
		t, ok1 := ce.goArg(st, args[0]).(types.Type)
		i, ok2 := ce.goArg(st, args[1]).(*types.Interface)
		static, ok3 := args[2].(vBool)
		if ok1 && ok2 && ok3 {
			m, wrong := types.MissingMethod(t, i, bool(static))
			var mv val = vNil{}
			if m != nil {
				mv = &vGo{m}
			}
			k(st, []val{mv, vBool(wrong)})
			return true
		}
	case "go/types.Implements":
		t, ok1 := ce.goArg(st, args[0]).(types.Type)
		i, ok2 := ce.goArg(st, args[1]).(*types.Interface)
		if ok1 && ok2 {
			return one(vBool(types.Implements(t, i)))
		}
	case "go/types.Identical":
		t, ok1 := ce.goArg(st, args[0]).(types.Type)
		u, ok2 := ce.goArg(st, args[1]).(types.Type)
		if ok1 && ok2 {
			return one(vBool(types.Identical(t, u)))
		}
	case "go/types.Unalias":
		if t, ok := ce.goArg(st, args[0]).(types.Type); ok {
			return one(&vGo{types.Unalias(t)})
		}
	case "go/types.IsInterface":
		if t, ok := ce.goArg(st, args[0]).(types.Type); ok {
			return one(vBool(types.IsInterface(t)))
		}
	case "go/types.NewPointer":
		if t, ok := ce.goArg(st, args[0]).(types.Type); ok {
			return one(&vGo{types.NewPointer(t)})
		}
	case "go/types.NewPackage":
		if okA && okB {
			return one(&vGo{types.NewPackage(a, b)})
		}
	case "(" + genPath + ".Package).Import":
		// its contract: the package under the name it is imported by, nothing
		// for the package the code is generated in
		if p, ok := ce.goArg(st, args[0]).(*types.Package); ok {
			if p.Path() == ce.own {
				k(st, []val{vNil{}, vBool(false)})
				return true
			}
			name := p.Name()
			if real := ce.l.anyPkg(p.Path()); real != nil {
				name = real.Name()
			}
			ce.imported[p.Path()] = name
			k(st, []val{&vGo{types.NewPackage(p.Path(), name)}, vBool(true)})
			return true
		}
	case "text/template.New":
		return one(mkSym("tmpl", nil))
	case "text/template.Must":
		return one(args[0])
	case "(text/template.Template).Funcs":
		return one(mkSym("tmpl.Funcs", nil, fn.recv, args[0]))
	case "(text/template.Template).Option":
		return one(fn.recv)
	case "(text/template.Template).Parse":
		k(st, []val{mkSym("tmpl.Parse", nil, fn.recv, args[0]), vNil{}})
		return true
	case "(text/template.Template).Execute":
		ce.expand(c, x, fn.recv, args[0], args[1], st, k)
		return true
	case "reflect.TypeOf", "reflect.ValueOf", "runtime.FuncForPC":
		return one(mkSym(fn.name, nil, args...))
	}
	if s, ok := fn.recv.(*sym); ok {
		switch {
		case strings.HasPrefix(fn.name, "(regexp.Regexp)."):
			re, _ := ce.global(s.op).(*regexp.Regexp)
			if re == nil || !okA {
				break
			}
			switch last {
			case "FindStringSubmatch":
				return one(textList(re.FindStringSubmatch(a)))
			case "MatchString":
				return one(vBool(re.MatchString(a)))
			case "FindString":
				return one(vStr{lit(re.FindString(a))})
			case "ReplaceAllString":
				if okB {
					return one(vStr{lit(re.ReplaceAllString(a, b))})
				}
			case "ReplaceAllStringFunc":
				if f, ok := args[1].(*vFunc); ok {
					locs := re.FindAllStringIndex(a, -1)
					var rec func(i, at int, d string, st *state)
					rec = func(i, at int, d string, st *state) {
						if i == len(locs) {
							k(st, []val{vStr{lit(d + a[at:])}})
							return
						}
						e.apply(c, nil, f, []val{vStr{lit(a[locs[i][0]:locs[i][1]])}}, st, func(st *state, vs []val) {
							t, _ := constText(vs[0])
							rec(i+1, locs[i][1], d+a[at:locs[i][0]]+t, st)
						})
					}
					rec(0, 0, "", st)
					return true
				}
			}
		case strings.HasPrefix(s.op, "reflect."), strings.HasPrefix(s.op, "runtime."), strings.HasPrefix(s.op, "(reflect."):
			return ce.reflected(s, last, fn, st, one)
		}
	}
	if g, ok := fn.recv.(*vGo); ok {
		return ce.goMethod(g, last, args, st, k)
	}
	return false
}

// reflected: names of functions and types found by reflection.
func (ce *concEngine) reflected(s *sym, last string, fn *vFunc, st *state, one func(val) bool) bool {
	var of val = s
	for {
		t, ok := of.(*sym)
		if !ok || len(t.args) == 0 {
			break
		}
		of = t.args[0]
	}
	if p, ok := of.(vPtr); ok {
		of = ce.load(st, p)
	}
	switch last {
	case "Pointer", "UnsafePointer":
		return one(mkSym("reflect."+last, nil, s))
	case "Name", "PkgPath", "String":
		switch v := of.(type) {
		case *vFunc:
			if last != "Name" || v.name == "" {
				break
			}
			n := v.name
			if v.decl != nil && v.decl.fd.Type.TypeParams != nil {
				n += "[...]"
			}
			return one(vStr{lit(n)})
		}
		if n, ok := types.Unalias(typeOfVal(of)).(*types.Named); ok && n.Obj().Pkg() != nil {
			if last == "PkgPath" {
				return one(vStr{lit(n.Obj().Pkg().Path())})
			}
			s := types.TypeString(n, func(*types.Package) string { return "" })
			if last == "String" {
				s = n.Obj().Pkg().Name() + "." + s
			}
			return one(vStr{lit(s)})
		}
	}
	return false
}

// goMethod: a method of a known go/types value.
func (ce *concEngine) goMethod(g *vGo, name string, args []val, st *state, k func(*state, []val)) bool {
	one := func(v val) bool { k(st, []val{v}); return true }
	text := func(s string) bool { return one(vStr{lit(s)}) }
	num := func(n int64) bool { return one(vInt{pc(n)}) }
	goT := func(t types.Type) bool {
		if t == nil {
			return one(vNil{})
		}
		return one(&vGo{t})
	}
	switch x := g.x.(type) {
	case types.Type:
		switch name {
		case "String":
			return text(x.String())
		case "Underlying":
			return goT(x.Underlying())
		case "Elem":
			if el, ok := x.(interface{ Elem() types.Type }); ok {
				return goT(el.Elem())
			}
		case "Len":
			switch x := x.(type) {
			case *types.Array:
				return num(x.Len())
			case *types.Tuple:
				return num(int64(x.Len()))
			}
		case "Kind":
			if b, ok := x.(*types.Basic); ok {
				return num(int64(b.Kind()))
			}
		case "Info":
			if b, ok := x.(*types.Basic); ok {
				return num(int64(b.Info()))
			}
		case "Name":
			if b, ok := x.(*types.Basic); ok {
				return text(b.Name())
			}
		case "Rhs":
			if al, ok := x.(*types.Alias); ok {
				return goT(al.Rhs())
			}
		case "Obj":
			if n, ok := x.(interface{ Obj() *types.TypeName }); ok {
				return one(&vGo{n.Obj()})
			}
		case "NumMethods":
			if n, ok := x.(interface{ NumMethods() int }); ok {
				return num(int64(n.NumMethods()))
			}
		case "TypeArgs":
		}
	case types.Object:
		switch name {
		case "Name":
			return text(x.Name())
		case "Pkg":
			if x.Pkg() == nil {
				return one(vNil{})
			}
			return one(&vGo{x.Pkg()})
		case "Type":
			return goT(x.Type())
		}
	case *types.Package:
		switch name {
		case "Name":
			return text(x.Name())
		case "Path":
			return text(x.Path())
		case "SetName":
			if s, ok := constText(args[0]); ok {
				x.SetName(s)
				k(st, nil)
				return true
			}
		}
	}
	return false
}

var tmplHole = regexp.MustCompile(`\{\{\s*(\.|\w+)\s*\}\}`)

// expand is the execution of a template whose text is known, with functions
// of the program in its holes.
func (ce *concEngine) expand(c *ctx, x *ast.CallExpr, tmpl, w, data val, st *state, k func(*state, []val)) {
	var text string
	var found bool
	var maps []*vMap
	for v := tmpl; ; {
		s, ok := v.(*sym)
		if !ok || len(s.args) == 0 {
			break
		}
		switch s.op {
		case "tmpl.Parse":
			text, found = constText(s.args[1])
		case "tmpl.Funcs":
			if r, ok := s.args[1].(vMapRef); ok {
				if m, ok := st.heap[r.l].(*vMap); ok {
					maps = append(maps, m)
				}
			}
		}
		v = s.args[0]
	}
	if !found {
		ce.problem("a template whose text is not known")
		k(st, []val{vNil{}})
		return
	}
	b, okB := st.builderAt(w)
	if !okB {
		ce.problem("a template written to an unknown place")
		k(st, []val{vNil{}})
		return
	}
	locs := tmplHole.FindAllStringSubmatchIndex(text, -1)
	rest := tmplHole.ReplaceAllString(text, "")
	if strings.Contains(rest, "{{") {
		ce.problem("template %q is not understood", text)
	}
	var rec func(i, at int, st *state)
	rec = func(i, at int, st *state) {
		if i == len(locs) {
			ce.write(c, x, b, lit(text[at:]), st)
			k(st, []val{vNil{}})
			return
		}
		lc := locs[i]
		ce.write(c, x, b, lit(text[at:lc[0]]), st)
		name := text[lc[2]:lc[3]]
		if name == "." {
			ce.write(c, x, b, toDoc(data), st)
			rec(i+1, lc[1], st)
			return
		}
		for _, m := range maps {
			if f, ok := ce.mapGet(m, vStr{lit(name)}, nil).(*vFunc); ok {
				ce.apply(c, nil, f, nil, st, func(st *state, vs []val) {
					ce.write(c, x, b, toDoc(vs[0]), st)
					rec(i+1, lc[1], st)
				})
				return
			}
		}
		ce.problem("template %q uses %s, which is not defined there", text, name)
		rec(i+1, lc[1], st)
	}
	rec(0, 0, st)
}

// knownKey decides whether a map with known keys has a key.
func knownKey(m *vMap, k val) (has, ok bool) {
	t, isText := constText(k)
	if !isText {
		return false, false
	}
	for _, s := range m.segs {
		en, isEntry := s.v.(vEntry)
		if s.kind != segOne || !isEntry {
			return false, false
		}
		u, isText := constText(en.k)
		if !isText {
			return false, false
		}
		if u == t {
			has = true
		}
	}
	return has, true
}

// evalFunc runs a declared function or method with known arguments and collects
// what it returns.
func (ce *concEngine) evalFunc(d *declSite, recv val, args []val, st *state) (ends []bodyEnd) {
	var ro types.Object
	if d.fd.Recv != nil && len(d.fd.Recv.List[0].Names) > 0 {
		ro = d.pkg.TypesInfo.Defs[d.fd.Recv.List[0].Names[0]]
	}
	ce.enter(&frame{pkg: d.pkg, name: d.fd.Name.Name}, d.fd.Type, ro, recv, d.fd.Body, args, st, func(st *state, vs []val) {
		ends = append(ends, bodyEnd{"return", st.clone(), vs})
	})
	return
}

var _ = token.NoPos
