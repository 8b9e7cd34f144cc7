package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"slices"
	"sort"
	"strconv"
	"strings"
)

// The database helpers are analysed as expansions of their templates. This
// file shows that the expansion the generator makes at run time is the one
// analysed: the functions it gives to the templates return, for each dialect,
// what the expansion used, and the file it writes is the executed template
// below a header, a package clause and the reserved imports.

type tplRun struct {
	dialect dialectConsts
	fn      string
	pos     token.Pos
	// the parameters which name the template and the package
	nameParam, pkgParam string
	problems            []string
	bad                 map[string][]string // template function -> what is wrong
	seen                map[string]int      // template function -> paths on which it was right
	docs                map[string][]string // finished file -> what is wrong with it
}

func (r *tplRun) fail(name, format string, a ...any) {
	r.bad[name] = append(r.bad[name], fmt.Sprintf(format, a...))
}

// tplEntry is the innermost function which parses, executes and formats a
// template of the generator.
func tplEntry(l *Loaded) *declSite {
	need := []string{"(text/template.Template).Execute", "(text/template.Template).Funcs", "golang.org/x/tools/imports.Process", "embed.FS"}
	calleesOf := map[*types.Func][]*types.Func{}
	direct := map[*types.Func]map[string]bool{}
	for o, d := range l.declOf {
		f, ok := o.(*types.Func)
		if !ok || d.pkg.PkgPath != genPath || d.fd.Body == nil {
			continue
		}
		direct[f] = map[string]bool{}
		ast.Inspect(d.fd.Body, func(n ast.Node) bool {
			x, ok := n.(*ast.Ident)
			if !ok {
				return true
			}
			if v, ok := d.pkg.TypesInfo.Uses[x].(*types.Var); ok && namedIs(v.Type(), "embed", "FS") {
				direct[f]["embed.FS"] = true
			}
			if g, ok := d.pkg.TypesInfo.Uses[x].(*types.Func); ok {
				direct[f][externalName(g)] = true
				calleesOf[f] = append(calleesOf[f], g.Origin())
			}
			return true
		})
	}
	all := func(f *types.Func) bool {
		got := map[string]bool{}
		seen := map[*types.Func]bool{}
		var walk func(*types.Func)
		walk = func(g *types.Func) {
			if seen[g] {
				return
			}
			seen[g] = true
			for n := range direct[g] {
				got[n] = true
			}
			for _, h := range calleesOf[g] {
				walk(h)
			}
		}
		walk(f)
		for _, n := range need {
			if !got[n] {
				return false
			}
		}
		return true
	}
	var best []*types.Func
	for f := range direct {
		if !all(f) {
			continue
		}
		inner := false
		for _, g := range calleesOf[f] {
			if g != f && direct[g] != nil && all(g) {
				inner = true
			}
		}
		if !inner {
			best = append(best, f)
		}
	}
	if os.Getenv("DBG") != "" {
		fmt.Println("BEST", best, len(direct))
	}
	if len(best) != 1 {
		return nil
	}
	d := l.declOf[best[0]]
	return &d
}

// externalName writes a function the way the interpreter names it.
func externalName(g *types.Func) string {
	g = g.Origin()
	if g.Pkg() == nil {
		return g.Name()
	}
	sig := g.Type().(*types.Signature)
	if sig.Recv() != nil {
		t := sig.Recv().Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := t.(*types.Named); ok {
			return "(" + g.Pkg().Path() + "." + n.Obj().Name() + ")." + g.Name()
		}
	}
	return g.Pkg().Path() + "." + g.Name()
}

func runTemplate(l *Loaded, dc dialectConsts) *tplRun {
	r := &tplRun{dialect: dc, bad: map[string][]string{}, seen: map[string]int{}, docs: map[string][]string{}}
	d := tplEntry(l)
	if d == nil {
		r.problems = append(r.problems, "the function which renders a template is not found")
		return r
	}
	r.fn, r.pos = d.fd.Name.Name, d.fd.Pos()
	ng := l.genCtor()
	dt := dialectType(l, dc.Name)
	if ng == nil || dt == nil {
		r.problems = append(r.problems, "the constructor of the generator or dialect "+dc.Name+" is not found")
		return r
	}
	e := newAbs(l)
	e.peel = true
	e.assume = func(a string) (bool, bool) {
		switch a {
		case "nil:execErr", "nil:parseErr": // no text is used after a failure (P16)
			return false, true
		}
		return false, false
	}
	r.nameParam, r.pkgParam = tplParams(l, d)
	e.opaque = func(fn *vFunc) bool {
		p := fn.decl.pkg.PkgPath
		return p != genPath && !strings.HasPrefix(p, diaPath) && p != poolPath || fn.decl.fd.Name.Name == "Import" || fn.decl.fd.Name.Name == "ColumnDataTypes"
	}
	type imported struct{ recv, pkg val }
	var imps []imported
	inFunc := false
	e.external = func(e *absEngine, c *ctx, x *ast.CallExpr, fn *vFunc, args []val, st *state, k func(*state, []val)) bool {
		switch fn.name {
		case "text/template.New":
			k(st, []val{mkSym("template", nil, e.plain(st, args[0]))})
			return true
		case "(text/template.Template).Funcs":
			if e.explore == 0 {
				r.funcs(e, c, args[0], st, &inFunc, func() []val {
					var out []val
					for _, i := range imps {
						out = append(out, i.pkg)
					}
					imps = nil
					return out
				})
			}
			k(st, []val{mkSym("withFuncs", nil, fn.recv)})
			return true
		case "(text/template.Template).ParseFS", "(text/template.Template).ParseFiles", "(text/template.Template).Parse":
			k(st.clone(), []val{mkSym("parsed", nil, append([]val{fn.recv}, e.plainAll(st, args)...)...), vNil{}})
			k(st, []val{vNil{}, mkErr("parseErr")})
			return true
		case "(text/template.Template).Execute", "(text/template.Template).ExecuteTemplate":
			if b, ok := st.builderAt(args[0]); ok {
				e.write(c, x, b, doc{{kind: pHole, v: mkSym("body", types.Typ[types.String], fn.recv)}}, st)
				// the template may have reserved imports
				for at, v := range st.heap {
					if s, ok := v.(*vStruct); ok && namedIs(s.typ, genPath, "Package") {
						n := &vStruct{base: s.base, typ: s.typ, f: map[string]val{}}
						for f, v := range s.f {
							n.f[f] = v
						}
						sty, _ := s.typ.Underlying().(*types.Struct)
						for i := 0; sty != nil && i < sty.NumFields(); i++ {
							f, t := sty.Field(i).Name(), sty.Field(i).Type()
							if sl, ok := t.(*types.Slice); ok && namedIs(sl.Elem(), "go/types", "Package") {
								n.f[f] = mkSym("imports", t)
							}
						}
						st.heap[at] = n
					}
				}
				k(st.clone(), []val{vNil{}})
				k(st, []val{mkErr("execErr")})
				return true
			}
		case "golang.org/x/tools/imports.Process":
			if e.explore == 0 {
				r.finished(e, toDoc(args[1]), st)
			}
			k(st, e.freshResults(c, x, "formatted"))
			return true
		case "io.Copy":
			if len(args) == 2 && e.moveText(c, x, args[0], args[1], st) {
				k(st, []val{mkSym("copied", types.Typ[types.Int64]), vNil{}})
				return true
			}
		case "go/types.NewPackage":
			k(st, []val{mkSym("package", nil, args[0], args[1])})
			return true
		}
		if fn.decl != nil && inFunc && fn.decl.fd.Name.Name == "Import" && len(args) == 1 {
			imps = append(imps, imported{fn.recv, e.plain(st, args[0])})
		}
		return false
	}
	st := &state{heap: map[loc]val{}, atoms: map[string]bool{}}
	params := map[string]types.Type{}
	args, _ := paramVals(e, ng.pkg.TypesInfo, ng.fd.Type, "p:", st, params, nil)
	sig := ng.pkg.TypesInfo.Defs[ng.fd.Name].Type().(*types.Signature)
	for i := range args {
		t := sig.Params().At(i).Type()
		switch {
		case namedIs(t, genPath, "Config"):
			ct := t.(*types.Pointer).Elem()
			args[i] = e.alloc(st, &vStruct{base: mkSym("config", ct), typ: ct, f: map[string]val{"Driver": vStr{lit(dc.Name)}}})
		case namedIs(t, diaPath, "Dialect"):
			args[i] = e.alloc(st, &vStruct{typ: dt, f: map[string]val{}})
		}
	}
	seen := map[string]bool{}
	e.enter(&frame{pkg: ng.pkg, name: ng.fd.Name.Name}, ng.fd.Type, nil, nil, ng.fd.Body, args, st, func(st *state, vs []val) {
		if len(vs) == 0 {
			return
		}
		g, ok := vs[0].(vPtr)
		if !ok {
			return
		}
		if _, isNil := vs[len(vs)-1].(vNil); len(vs) > 1 && !isNil {
			return
		}
		if gk := e.load(st, g).key(); seen[gk] {
			return
		} else {
			seen[gk] = true
		}
		a2, _ := paramVals(e, d.pkg.TypesInfo, d.fd.Type, "p:", st, params, nil)
		dsig := d.pkg.TypesInfo.Defs[d.fd.Name].Type().(*types.Signature)
		for i := range a2 {
			if namedIs(dsig.Params().At(i).Type(), genPath, "Generator") {
				a2[i] = g
			}
		}
		var recv val
		var recvObj types.Object
		if d.fd.Recv != nil {
			recv = g
			if len(d.fd.Recv.List[0].Names) > 0 {
				recvObj = d.pkg.TypesInfo.Defs[d.fd.Recv.List[0].Names[0]]
			}
		}
		e.enter(&frame{pkg: d.pkg, name: d.fd.Name.Name}, d.fd.Type, recvObj, recv, d.fd.Body, a2, st, func(*state, []val) {})
	})
	r.problems = append(r.problems, e.problems...)
	if e.steps > e.limit {
		r.problems = append(r.problems, "analysis limit reached")
	}
	return r
}

func textIs(d doc, want string) bool {
	s, ok := d.constString()
	return ok && s == want
}

func sortedKeys[T any](m map[string]T) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func (e *absEngine) plainAll(st *state, in []val) (out []val) {
	for _, v := range in {
		out = append(out, e.plain(st, v))
	}
	return
}

// funcs applies each function given to a template and compares its result with
// the one the expansion used.
func (r *tplRun) funcs(e *absEngine, c *ctx, m val, st *state, inFunc *bool, imports func() []val) {
	if os.Getenv("DBG") != "" {
		fmt.Println("FUNCS", m.key())
	}
	var mm *vMap
	switch m := m.(type) {
	case *vMap:
		mm = m
	case vMapRef:
		mm, _ = st.heap[m.l].(*vMap)
	}
	if mm == nil {
		r.fail("functions", "the functions given to the template are not determined: %s", short(keyOf(m)))
		return
	}
	got := map[string]bool{}
	for _, s := range mm.segs {
		en, ok := s.v.(vEntry)
		if s.kind != segOne || !ok {
			r.fail("functions", "a function given to the template is not determined")
			continue
		}
		name, _ := toDoc(en.k).constString()
		got[name] = true
		str := func(v val) doc { return toDoc(v) }
		call := func(args []val, ok func(st *state, v val) string) {
			n := 0
			*inFunc = true
			e.apply(c, nil, en.v, args, st.clone(), func(st *state, vs []val) {
				n++
				if len(vs) == 0 {
					r.fail(name, "%s returns nothing", name)
					return
				}
				if p := ok(st, vs[0]); p != "" {
					r.fail(name, "%s", p)
				}
			})
			*inFunc = false
			if n == 0 {
				r.fail(name, "%s returns on no path", name)
			}
		}
		r.seen[name]++
		switch name {
		case "driver":
			call(nil, func(st *state, v val) string {
				if s := str(v); len(s) != 1 || !textIs(s, r.dialect.Name) {
					return "driver is " + short(s.key()) + " instead of " + r.dialect.Name
				}
				return ""
			})
		case "varRune":
			call(nil, func(st *state, v val) string {
				if s := str(v); !textIs(s, string(r.dialect.VarRune)) {
					return "varRune is " + short(s.key()) + " instead of " + string(r.dialect.VarRune)
				}
				return ""
			})
		case "isStaticVar":
			call(nil, func(st *state, v val) string {
				if b, ok := v.(vBool); !ok || bool(b) == r.dialect.Numbered {
					return "isStaticVar is " + short(keyOf(v))
				}
				return ""
			})
		case "quote":
			call([]val{mkSym("p:text", types.Typ[types.String])}, func(st *state, v val) string {
				d := str(v)
				if len(d) == 3 && d[0].kind == pLit && d[2].kind == pLit && d[0].s == d[2].s && d[1].kind == pHole && keyOf(d[1].v) == "p:text" {
					q := d[0].s
					if (q == `"` || q == "`") && q != string(r.dialect.QuoteRune) {
						return ""
					}
				}
				if s, ok := plainHole(v).(*sym); ok && s.op == "call:strconv.Quote" && keyOf(s.args[0]) == "p:text" {
					return ""
				}
				return "quote(text) is " + short(d.key()) + ", which is not a Go string that may hold quoted identifiers"
			})
		case "quoteVar":
			for _, n := range []poly{pc(1), ps("n")} {
				want := doc{{kind: pLit, s: string(r.dialect.VarRune)}}
				if r.dialect.Numbered {
					if k, ok := n.constant(); ok {
						want = lit(r.dialect.quoteVar(int(k)))
					} else {
						want = append(want, piece{kind: pNum, p: n})
					}
				}
				call([]val{vInt{n}}, func(st *state, v val) string {
					if d := str(v); d.key() != want.key() {
						return fmt.Sprintf("quoteVar(%s) is %s instead of %s", n, short(d.key()), want.key())
					}
					return ""
				})
			}
		case "reserveImport":
			for _, alias := range []bool{false, true} {
				path := mkSym("p:path", types.Typ[types.String])
				al := &vList{typ: types.NewSlice(types.Typ[types.String])}
				name2 := `call:path/filepath.Base(p:path)`
				if alias {
					al.segs = []seg{{kind: segOne, v: mkSym("p:alias", types.Typ[types.String])}}
					name2 = "p:alias"
				}
				call([]val{path, al}, func(st *state, v val) string {
					is := imports()
					if s := str(v); len(s) > 0 {
						return "reserveImport writes " + short(s.key())
					}
					if len(is) != 1 {
						return fmt.Sprintf("reserveImport imports %d packages", len(is))
					}
					if s, ok := is[0].(*sym); !ok || s.op != "package" || keyOf(plainHole(s.args[0])) != "p:path" || keyOf(plainHole(s.args[1])) != name2 && keyOf(plainHole(s.args[1])) != strings.Replace(name2, "path/filepath", "path", 1) {
						return "reserveImport imports " + short(keyOf(is[0]))
					}
					return ""
				})
			}
		}
	}
	for _, n := range []string{"driver", "quote", "quoteVar", "isStaticVar", "varRune", "reserveImport"} {
		if !got[n] {
			r.fail(n, "%s is not given to the template", n)
		}
	}
}

// finished checks the text of a file made from a template.
func (r *tplRun) finished(e *absEngine, d doc, st *state) {
	k := d.key()
	if _, ok := r.docs[k]; ok {
		return
	}
	if os.Getenv("DBG") != "" {
		fmt.Println("DOC", k, "\nATOMS", st.atoms)
	}
	var bad []string
	fail := func(format string, a ...any) { bad = append(bad, fmt.Sprintf(format, a...)) }
	toks := noLines(goTokens(d))
	defer func() { r.docs[k] = bad }()
	word := func(v string) bool {
		return len(toks) > 0 && toks[0].kind == 'w' && len(toks[0].d) == 1 && toks[0].d[0].kind == pHole && toks[0].d[0].v.key() == v
	}
	if len(toks) < 2 || !toks[0].isWord("package") {
		fail("the file does not begin with a package clause")
		return
	}
	toks = toks[1:]
	if !word("p:" + r.pkgParam) {
		fail("the package is not named after the package name that was asked for")
		return
	}
	toks = toks[1:]
	imported := false
	for len(toks) > 0 && toks[0].isWord("import") {
		var part []gtok
		if in, rest, ok := enclosed(toks[1:], "(", ")"); ok {
			part, toks = in, rest
		} else {
			fail("the imports are not enclosed in parentheses")
			return
		}
		for _, t := range part {
			if t.kind != 'l' || t.lp == nil || t.lp.partial || t.lp.rangeKey != "imports" && !strings.Contains(t.lp.to.String(), "len(imports)") {
				fail("the import list holds %s", short(t.key()))
				continue
			}
			imported = true
			for i, p := range t.paths {
				var cond pathCond
				if i < len(t.lp.conds) {
					cond = t.lp.conds[i]
				}
				if b := importEntry(p, t.lp.idx, cond); b != "" {
					fail("%s", b)
				}
			}
		}
	}
	if empty, known := st.atoms["zero:len(imports)"]; !imported && !(known && empty) {
		fail("the reserved imports are not written")
	}
	if len(toks) != 1 || toks[0].kind != 'w' || len(toks[0].d) != 1 || toks[0].d[0].kind != pHole {
		fail("the file holds more or less than the executed template: %s", short(gkey(toks)))
		return
	}
	b, ok := toks[0].d[0].v.(*sym)
	if !ok || b.op != "body" || len(b.args) != 1 {
		fail("the file does not hold the executed template: %s", short(gkey(toks)))
		return
	}
	t, ok := b.args[0].(*sym)
	if !ok || t.op != "parsed" || len(t.args) < 2 {
		fail("the template that is executed was not parsed: %s", short(keyOf(b.args[0])))
		return
	}
	fn, ok := t.args[0].(*sym)
	if !ok || fn.op != "withFuncs" {
		fail("the template is executed without its functions")
		return
	}
	text := keyOf(t)
	if !strings.Contains(text, "p:"+r.nameParam) {
		fail("the template parsed is not the one asked for: %s", short(text))
	}
	if n, ok := fn.args[0].(*sym); !ok || n.op != "template" || !strings.Contains(keyOf(n), "p:"+r.nameParam) {
		fail("the template executed is not the one parsed: %s", short(keyOf(fn.args[0])))
	}
}

// importEntry checks one entry of an import list.
func importEntry(p []gtok, idx string, cond pathCond) string {
	p = noLines(p)
	el := "elem(imports," + idx + ")"
	var words []val
	for _, t := range p {
		if t.kind == 's' && len(t.d) == 1 && t.d[0].kind == pHole {
			words = append(words, mkSym("call:strconv.Quote", nil, t.d[0].v))
			continue
		}
		if t.kind != 'w' {
			return "an import is written as " + short(gkey(p))
		}
		for _, d := range t.d {
			if d.kind != pHole {
				return "an import is written as " + short(gkey(p))
			}
			words = append(words, d.v)
		}
	}
	path, name := "call:strconv.Quote(m:Path("+el+"))", "m:Name("+el+")"
	switch {
	case len(words) == 2 && keyOf(words[0]) == name && keyOf(words[1]) == path:
		return ""
	case len(words) == 1 && keyOf(words[0]) == path:
		for _, c := range cond {
			if c.pos && strings.HasPrefix(c.atom, "eq(") && strings.Contains(c.atom, name) && strings.Contains(c.atom, "Base(m:Path("+el+"))") {
				return ""
			}
		}
		return "a package is imported without its name although that may differ from the last element of its path"
	}
	return "an import is written as " + short(gkey(p))
}

// templateContract shows that the helpers analysed are the helpers generated.
// With names, only these functions are examined.
func templateContract(c *Ctx, only ...string) {
	for _, dc := range specDialects {
		r := runTemplate(c.L, dc)
		for _, p := range uniq(r.problems) {
			c.Bad("template-functions", dc.Name+".interpretable", r.pos, "%s", p)
		}
		names := map[string]bool{"driver": true, "quote": true, "quoteVar": true, "isStaticVar": true, "varRune": true, "reserveImport": true}
		for n := range r.bad {
			names[n] = true
		}
		for n := range names {
			if len(only) > 0 && !slices.Contains(only, n) && n != "functions" {
				delete(names, n)
			}
		}
		for _, n := range sortedKeys(names) {
			if b := uniq(r.bad[n]); len(b) > 0 {
				c.Bad("template-functions", dc.Name+"."+n, r.pos, "%s", short(strings.Join(b, "; ")))
			} else if r.seen[n] > 0 {
				c.OK("template-functions", dc.Name+"."+n, "returns what the analysed expansion used")
			} else if len(r.problems) == 0 {
				c.Bad("template-functions", dc.Name+"."+n, r.pos, "%s is never given to a template", n)
			}
		}
		if len(only) > 0 {
			continue
		}
		var bad []string
		for _, k := range sortedKeys(r.docs) {
			bad = append(bad, r.docs[k]...)
		}
		if len(r.docs) == 0 && len(r.problems) == 0 {
			bad = append(bad, "no finished text was found")
		}
		c.Check(len(bad) == 0, "template-file", dc.Name, r.pos, "%s", okOr(short(strings.Join(uniq(bad), "; ")), "the file is the executed template below its package clause and imports"))
		// the name a dialect is registered under selects it
		c.Check(registeredAs(c.L, dc.Name), "dialect-name", dc.Name, token.NoPos, "the dialect is registered under the name the templates know")
	}
	if len(only) > 0 {
		c.Min("template-functions", 3*len(only))
		return
	}
	c.Min("template-functions", 18)
	c.Min("template-file", 3)
}

func okOr(bad, ok string) string {
	if bad != "" {
		return bad
	}
	return ok
}

// registeredAs: the package of a dialect registers a value of its own type
// under the dialect's name.
func registeredAs(l *Loaded, dialect string) bool {
	p := l.pkgs[dialectPkg(dialect)]
	dt := dialectType(l, dialect)
	if p == nil || dt == nil {
		return false
	}
	ok := false
	for _, f := range p.Syntax {
		ast.Inspect(f, func(n ast.Node) bool {
			x, is := n.(*ast.CallExpr)
			if !is || len(x.Args) != 2 {
				return true
			}
			var id *ast.Ident
			switch fn := ast.Unparen(x.Fun).(type) {
			case *ast.Ident:
				id = fn
			case *ast.SelectorExpr:
				id = fn.Sel
			}
			if id == nil {
				return true
			}
			if g, is := p.TypesInfo.Uses[id].(*types.Func); !is || g.Pkg() == nil || g.Pkg().Path() != diaPath {
				return true
			}
			tv := p.TypesInfo.Types[x.Args[0]]
			t := p.TypesInfo.TypeOf(x.Args[1])
			if pt, is := t.(*types.Pointer); is {
				t = pt.Elem()
			}
			if tv.Value != nil && tv.Value.Kind() == constant.String && constant.StringVal(tv.Value) == dialect && types.Identical(t, dt) {
				ok = true
			}
			return true
		})
	}
	return ok
}

func checkP18(c *Ctx) {
	// the expansions
	tdir := filepath.Join(repoDir, "cmd/sqlgen/codegen/templates")
	ents, _ := os.ReadDir(tdir)
	files := map[string]bool{}
	for _, e := range ents {
		files[e.Name()] = true
	}
	for _, dc := range specDialects {
		p := c.L.pkgs[helperPkgPath(dc.Name)]
		if p == nil {
			c.Bad("compiles", dc.Name, token.NoPos, "the helpers do not expand")
			continue
		}
		for _, f := range p.Syntax {
			name := filepath.Base(c.L.fset.Position(f.Pos()).Filename)
			c.Analysed(dc.Name + "/" + name)
			var errs []string
			for _, e := range p.Errors {
				if strings.Contains(e.Pos, name) {
					errs = append(errs, e.Msg)
				}
			}
			c.Check(len(errs) == 0, "compiles", dc.Name+"."+name, f.Pos(), "%s", okOr(short(strings.Join(errs, "; ")), fmt.Sprintf("%d declarations type-check", len(f.Decls))))
			// goimports must not have had to guess an import
			declared := reservedImports(filepath.Join(tdir, name+".tpl"))
			for _, im := range f.Imports {
				path, _ := strconv.Unquote(im.Path.Value)
				std := !strings.Contains(strings.Split(path, "/")[0], ".")
				c.Check(declared[path] || std, "imports", dc.Name+"."+name+" "+path, im.Pos(), "the import is declared by the template or part of the standard library")
			}
		}
		c.Check(len(p.Syntax) == len(files), "compiles", dc.Name+".files", token.NoPos, "%d of %d templates expand", len(p.Syntax), len(files))
	}
	c.Min("compiles", 9)
	c.Min("imports", 12)
	templateContract(c)
	templateNames(c, files)
	runtimeTypes(c)
	generatedMethods(c)
}

var reserveRef = regexp.MustCompile("reserveImport\\s+[\"`]([^\"`]+)[\"`]")

func reservedImports(file string) map[string]bool {
	out := map[string]bool{}
	b, _ := os.ReadFile(file)
	for _, m := range reserveRef.FindAllSubmatch(b, -1) {
		out[string(m[1])] = true
	}
	return out
}

// templateNames: the templates the generator asks for exist and are embedded.
func templateNames(c *Ctx, files map[string]bool) {
	d := tplEntry(c.L)
	if d == nil {
		return
	}
	obj := d.pkg.TypesInfo.Defs[d.fd.Name]
	asked := map[string]bool{}
	for _, f := range c.L.pkgs[genPath].Syntax {
		ast.Inspect(f, func(n ast.Node) bool {
			x, ok := n.(*ast.CallExpr)
			if !ok {
				return true
			}
			var id *ast.Ident
			switch fn := ast.Unparen(x.Fun).(type) {
			case *ast.Ident:
				id = fn
			case *ast.SelectorExpr:
				id = fn.Sel
			}
			if id == nil || d.pkg.TypesInfo.Uses[id] != obj {
				return true
			}
			for _, a := range x.Args {
				if tv := d.pkg.TypesInfo.Types[a]; tv.Value != nil && tv.Value.Kind() == constant.String {
					if s := constant.StringVal(tv.Value); strings.HasSuffix(s, ".tpl") {
						asked[s] = true
						c.Check(files[s], "template-names", s, a.Pos(), "the template exists")
					}
				}
			}
			return true
		})
	}
	embedded := map[string]bool{}
	for _, f := range c.L.pkgs[genPath].EmbedFiles {
		embedded[filepath.Base(f)] = true
	}
	for _, f := range sortedKeys(files) {
		c.Check(embedded[f], "template-names", f+" embedded", token.NoPos, "the template is part of the generator")
		if len(asked) > 0 {
			c.Check(asked[f], "template-names", f+" used", d.fd.Pos(), "the template is rendered")
		}
	}
	c.Min("template-names", 4)
}

// runtimeTypes compares the declarations embedded in the generator with those
// of the runtime library.
func runtimeTypes(c *Ctx) {
	sp := c.L.pkgs[seqPath]
	if sp == nil {
		c.Bad("runtime-types", "sequel", token.NoPos, "the runtime library is not loaded")
		return
	}
	var file string
	for _, f := range c.L.pkgs[genPath].EmbedFiles {
		if b := filepath.Base(f); strings.HasSuffix(b, ".go.tpl") && filepath.Base(filepath.Dir(f)) != "templates" {
			file = f
		}
	}
	src, err := os.ReadFile(file)
	if err != nil {
		c.Bad("runtime-types", "embedded", token.NoPos, "the embedded declarations are not found")
		return
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, file, src, parser.SkipObjectResolution)
	if err != nil {
		c.Bad("runtime-types", "embedded", token.NoPos, "%v", err)
		return
	}
	// the standard packages are shared with the loaded program so that their
	// types are the same ones
	conf := types.Config{Importer: importerFunc(func(path string) (*types.Package, error) {
		for _, im := range sp.Types.Imports() {
			if im.Path() == path {
				return im, nil
			}
		}
		return nil, fmt.Errorf("package %s is not imported by the runtime library", path)
	})}
	pkg, err := conf.Check("sequel", fset, []*ast.File{f}, nil)
	if err != nil {
		c.Bad("runtime-types", "embedded", token.NoPos, "the embedded declarations do not type-check: %v", err)
		return
	}
	q := func(p *types.Package) string {
		if p == pkg || p == sp.Types {
			return ""
		}
		return p.Path()
	}
	for _, n := range pkg.Scope().Names() {
		o := pkg.Scope().Lookup(n)
		ro := sp.Types.Scope().Lookup(n)
		if ro == nil {
			c.Bad("runtime-types", n, token.NoPos, "the generator knows %s, which the runtime library does not have", n)
			continue
		}
		a, b := describeType(o, q), describeType(ro, q)
		c.Check(a == b, "runtime-types", n, ro.Pos(), "generator: %s; runtime: %s", short(a), short(b))
	}
	// names looked up at start
	for _, f := range c.L.pkgs[genPath].Syntax {
		ast.Inspect(f, func(n ast.Node) bool {
			x, ok := n.(*ast.CallExpr)
			if !ok || len(x.Args) != 1 {
				return true
			}
			sel, ok := x.Fun.(*ast.SelectorExpr)
			if !ok || sel.Sel.Name != "Lookup" {
				return true
			}
			tv := c.L.pkgs[genPath].TypesInfo.Types[x.Args[0]]
			if tv.Value == nil || tv.Value.Kind() != constant.String {
				return true
			}
			inner, ok := ast.Unparen(sel.X).(*ast.CallExpr)
			if !ok {
				return true
			}
			if s, ok := inner.Fun.(*ast.SelectorExpr); ok {
				if id, ok := ast.Unparen(s.X).(*ast.Ident); ok && namedIs(c.L.pkgs[genPath].TypesInfo.TypeOf(id), "go/types", "Package") {
					name := constant.StringVal(tv.Value)
					c.Check(pkg.Scope().Lookup(name) != nil, "runtime-lookup", name, x.Pos(), "the declaration the generator looks up exists")
				}
			}
			return true
		})
	}
	c.Min("runtime-types", 25)
}

type importerFunc func(string) (*types.Package, error)

func (f importerFunc) Import(p string) (*types.Package, error) { return f(p) }

func describeType(o types.Object, q types.Qualifier) string {
	tn, ok := o.(*types.TypeName)
	if !ok {
		return types.ObjectString(o, q)
	}
	s := ""
	if n, ok := tn.Type().(*types.Named); ok && n.TypeParams() != nil {
		for i := 0; i < n.TypeParams().Len(); i++ {
			s += types.TypeString(n.TypeParams().At(i).Constraint(), q) + ","
		}
	}
	u := tn.Type().Underlying()
	if it, ok := u.(*types.Interface); ok {
		var ms []string
		for i := 0; i < it.NumMethods(); i++ {
			ms = append(ms, it.Method(i).Name()+strings.TrimPrefix(types.TypeString(it.Method(i).Type(), q), "func"))
		}
		for i := 0; i < it.NumEmbeddeds(); i++ {
			if _, ok := it.EmbeddedType(i).Underlying().(*types.Interface); !ok {
				ms = append(ms, types.TypeString(it.EmbeddedType(i), q))
			}
		}
		sort.Strings(ms)
		return s + "interface{" + strings.Join(ms, ";") + "}"
	}
	return s + types.TypeString(u, q)
}

// generatedMethods: a method the generator writes under the name of a method
// of a runtime interface has its signature.
func generatedMethods(c *Ctx) {
	sp := c.L.pkgs[seqPath]
	want := map[string]map[string]string{}
	for _, n := range sp.Types.Scope().Names() {
		it, ok := sp.Types.Scope().Lookup(n).Type().Underlying().(*types.Interface)
		if !ok {
			continue
		}
		for i := 0; i < it.NumMethods(); i++ {
			m := it.Method(i)
			if want[m.Name()] == nil {
				want[m.Name()] = map[string]string{}
			}
			want[m.Name()][sigText(m.Type().(*types.Signature))] = n
		}
	}
	seen := map[string]int{}
	for _, f := range generated(c) {
		for _, fn := range f.funcs {
			w := want[fn.name]
			if w == nil || len(fn.recv) == 0 {
				continue
			}
			got := genSig(fn)
			if _, ok := w[got]; ok {
				seen[fn.name]++
				c.OK("methods", f.g.dialect+"."+fn.name, "%s", got)
			} else {
				c.Bad("methods", f.g.dialect+"."+fn.name, genPos(c), "%s is generated with the signature %s instead of %s", fn.name, short(got), strings.Join(sortedKeys(w), " or "))
			}
		}
	}
	for _, n := range []string{"Columns", "Values", "Addrs", "InsertPlaceholders", "PK", "CompositeKey", "HasPK", "IsAutoIncr", "FindOneByPKStmt", "UpdateOneByPKStmt", "InsertOneStmt", "InsertColumns"} {
		c.Check(seen[n] > 0, "methods", n+" exists", genPos(c), "%s is generated on %d paths", n, seen[n])
	}
	c.Min("methods", 200)
}

func sigText(s *types.Signature) string {
	q := func(p *types.Package) string { return p.Name() }
	list := func(t *types.Tuple) string {
		var out []string
		for i := 0; i < t.Len(); i++ {
			out = append(out, typeText(types.TypeString(t.At(i).Type(), q)))
		}
		return strings.Join(out, ",")
	}
	return "(" + list(s.Params()) + ")(" + list(s.Results()) + ")"
}

func typeText(s string) string {
	return strings.ReplaceAll(strings.ReplaceAll(s, "interface{}", "any"), " ", "")
}

// genSig writes the signature of a generated function.
func genSig(f *gfunc) string {
	text := func(in []gtok) string {
		s := ""
		for i, t := range in {
			if t.kind == 'w' && i > 0 && in[i-1].kind == 'w' {
				s += " "
			}
			if t.kind == 'w' {
				w, ok := t.d.constString()
				if !ok {
					w = t.d.key()
				}
				s += w
			} else {
				s += t.s
			}
		}
		return s
	}
	list := func(in []gtok) string {
		parts := splitTop(in, ",")
		types := make([]string, len(parts))
		named := false
		for _, p := range parts {
			if len(p) > 1 && p[0].kind == 'w' && (p[1].kind == 'w' || p[1].isPunct("[") || p[1].isPunct("*")) {
				named = true
			}
		}
		last := ""
		for i := len(parts) - 1; i >= 0; i-- {
			p := parts[i]
			if named {
				if len(p) > 1 {
					last = text(p[1:])
				}
				types[i] = typeText(last)
				continue
			}
			types[i] = typeText(text(p))
		}
		return strings.Join(types, ",")
	}
	res := f.results
	if in, _, ok := enclosed(res, "(", ")"); ok {
		res = in
	}
	return "(" + list(f.params) + ")(" + list(res) + ")"
}

func mkErr(n string) val { return mkSym(n, types.Universe.Lookup("error").Type()) }

func init() {
	register("P18", "The helper templates are expanded once per dialect and type-checked as Go packages; the function which renders them is interpreted to show that the run-time expansion is the one analysed and that the written file is exactly that text below its package clause and the reserved imports; the declarations embedded in the generator are type-checked and compared with the runtime library, and generated methods with the interfaces they are named after.", checkP18)
}

// tplParams finds which parameter of the rendering function names the template
// and which the package, from the arguments of its callers.
func tplParams(l *Loaded, d *declSite) (name, pkg string) {
	obj := d.pkg.TypesInfo.Defs[d.fd.Name]
	var names []string
	for _, f := range d.fd.Type.Params.List {
		for _, n := range f.Names {
			names = append(names, n.Name)
		}
	}
	for _, f := range d.pkg.Syntax {
		ast.Inspect(f, func(n ast.Node) bool {
			x, ok := n.(*ast.CallExpr)
			if !ok {
				return true
			}
			var id *ast.Ident
			switch fn := ast.Unparen(x.Fun).(type) {
			case *ast.Ident:
				id = fn
			case *ast.SelectorExpr:
				id = fn.Sel
			}
			if id == nil || d.pkg.TypesInfo.Uses[id] != obj {
				return true
			}
			for i, a := range x.Args {
				if i >= len(names) {
					break
				}
				if tv := d.pkg.TypesInfo.Types[a]; tv.Value != nil && tv.Value.Kind() == constant.String && strings.HasSuffix(constant.StringVal(tv.Value), ".tpl") {
					name = names[i]
				}
				if s, ok := ast.Unparen(a).(*ast.SelectorExpr); ok && s.Sel.Name == "Package" {
					pkg = names[i]
				}
			}
			return true
		})
	}
	return
}
