package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"reflect"
	"sort"
	"strings"
)

// P15: what a configuration value becomes between the file or the caller and
// the generator, decided by interpreting the loading and merging functions once
// per option with that option set to an arbitrary value.

func init() {
	register("P15", "For every option of codegen.Config (enumerated from its type), the functions which default, load and merge a configuration, "+
		"the commands which call them, and the generator's constructor are interpreted over abstract values: with the option set to an arbitrary non-zero value "+
		"(alone, together with each other option, and with all of them) the configuration handed to the generator holds exactly that value, and the other options keep theirs; "+
		"with nothing set every option has its documented default. Custom column types, the naming convention and the yaml keys are followed the same way, "+
		"and every option has to be read by the generator.", checkP15)
}

// cfgLeaf is one option: a path of fields below Config.
type cfgLeaf struct {
	path []string
	typ  types.Type
	keys []string // yaml keys along the path
}

func (f cfgLeaf) String() string { return strings.Join(f.path, ".") }

func (f cfgLeaf) kind() string {
	switch u := f.typ.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return "string"
		case u.Info()&types.IsBoolean != 0:
			return "bool"
		}
	case *types.Pointer:
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
			return "*bool"
		}
	case *types.Slice:
		if isStringType(u.Elem()) {
			return "[]string"
		}
	case *types.Map:
		return "map"
	}
	return ""
}

func configLeaves(t types.Type, path, keys []string) []cfgLeaf {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	var out []cfgLeaf
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		key, _, _ := strings.Cut(reflect.StructTag(st.Tag(i)).Get("yaml"), ",")
		p := append(append([]string{}, path...), f.Name())
		k := append(append([]string{}, keys...), key)
		ft := f.Type()
		inner := ft
		if pt, ok := ft.Underlying().(*types.Pointer); ok {
			inner = pt.Elem()
		}
		if _, ok := inner.Underlying().(*types.Struct); ok {
			out = append(out, configLeaves(inner, p, k)...)
			continue
		}
		out = append(out, cfgLeaf{p, ft, k})
	}
	return out
}

type cfgRun struct {
	c      *Ctx
	l      *Loaded
	typ    *types.Named
	leaves []cfgLeaf
	alt    bool // which of two values an option that can be on or off is set to
}

// documented defaults; options not listed are off, empty or absent.
var cfgDefaults = map[string]string{
	"Source": "[./**/*]", "Driver": "mysql", "NamingConvention": "snake_case", "Tag": "sql", "Strict": "true",
	"Exec.Filename": "generated.go", "Getter.Prefix": "Column",
	"Database.Package": "db", "Database.Dir": "db", "Database.Filename": "db.go",
	"Database.Operator.Package": "db", "Database.Operator.Dir": "db", "Database.Operator.Filename": "operator.go",
	"DataTypes": "{}",
}

// documented yaml keys
var cfgKeys = map[string]string{
	"Source": "src", "Driver": "driver", "NamingConvention": "naming_convention", "Tag": "struct_tag", "QuoteIdentifier": "quote_identifier",
	"ReadOnly": "read_only", "Strict": "strict", "Exec.SkipEmpty": "exec.skip_empty", "Exec.Filename": "exec.filename", "Getter.Prefix": "getter.prefix",
	"Database.Package": "database.package", "Database.Dir": "database.dir", "Database.Filename": "database.filename",
	"Database.Operator.Package": "database.operator.package", "Database.Operator.Dir": "database.operator.dir", "Database.Operator.Filename": "database.operator.filename",
	"OmitGetters": "omit_getters", "SourceMap": "source_map", "SkipHeader": "skip_header", "SkipModTidy": "skip_mod_tidy", "DataTypes": "data_types",
	"Migration.DSN": "migration.dsn", "Migration.Package": "migration.package", "Migration.Dir": "migration.dir", "Migration.Filename": "migration.filename",
}

// a value a user may set for an option; alt chooses a second one.
func (r *cfgRun) setting(e *absEngine, st *state, f cfgLeaf, who string) (val, string) {
	name := who + "." + f.String()
	switch f.kind() {
	case "string":
		v := mkSym(name, f.typ)
		return v, v.k
	case "bool":
		return vBool(true), "true"
	case "*bool":
		// normally the user turns it off; in the second round the user turns on
		// what the file turned off
		on := r.alt && who == "user"
		return e.alloc(st, vBool(on)), fmt.Sprint(on)
	case "[]string":
		v := mkSym(name+"[0]", f.typ.Underlying().(*types.Slice).Elem())
		return &vList{typ: f.typ, segs: []seg{{kind: segOne, v: v}}}, "[" + v.k + "]"
	case "map":
		// one entry of its own, and one which everybody who sets it has
		v := mkSym(name+"[k]", f.typ.Underlying().(*types.Map).Elem())
		w := mkSym(name+"[common]", f.typ.Underlying().(*types.Map).Elem())
		m := e.alloc(st, &vMap{segs: []seg{{kind: segOne, v: vEntry{vStr{lit(name + ".k")}, v}}, {kind: segOne, v: vEntry{vStr{lit("common")}, w}}}})
		return vMapRef{m.l}, mergeMaps("{"+name+".k:"+v.k+"}", "{common:"+w.k+"}")
	}
	v := mkSym(name, f.typ)
	return v, v.k
}

// config builds a configuration in which exactly the given options are set.
func (r *cfgRun) config(e *absEngine, st *state, set map[string]bool, who string) (vPtr, map[string]string) {
	want := map[string]string{}
	var build func(t types.Type, path []string) val
	build = func(t types.Type, path []string) val {
		str := t.Underlying().(*types.Struct)
		s := &vStruct{typ: t, f: map[string]val{}}
		for i := 0; i < str.NumFields(); i++ {
			f := str.Field(i)
			p := append(append([]string{}, path...), f.Name())
			name := strings.Join(p, ".")
			inner := f.Type()
			pt, isPtr := inner.Underlying().(*types.Pointer)
			if isPtr {
				inner = pt.Elem()
			}
			if _, ok := inner.Underlying().(*types.Struct); ok {
				any := false
				for k := range set {
					any = any || strings.HasPrefix(k, name+".")
				}
				switch {
				case isPtr && !any:
					s.f[f.Name()] = vNil{}
				case isPtr:
					s.f[f.Name()] = e.alloc(st, build(inner, p))
				default:
					s.f[f.Name()] = build(inner, p)
				}
				continue
			}
			if set[name] {
				lf := cfgLeaf{path: p, typ: f.Type()}
				s.f[f.Name()], want[name] = r.setting(e, st, lf, who)
			} else {
				s.f[f.Name()] = e.zero(f.Type())
			}
		}
		return s
	}
	return e.alloc(st, build(r.typ, nil)), want
}

// show spells the value of an option.
func (r *cfgRun) show(e *absEngine, st *state, v val) string {
	switch x := v.(type) {
	case vPtr:
		return r.show(e, st, e.load(st, x))
	case vNil:
		return ""
	case vStr:
		if s, ok := x.d.constString(); ok {
			return s
		}
		if len(x.d) == 1 && x.d[0].kind == pHole {
			return x.d[0].v.key()
		}
	case vBool:
		return fmt.Sprint(bool(x))
	case *vList:
		if len(x.segs) == 0 {
			return ""
		}
		var p []string
		for _, s := range x.segs {
			if s.kind != segOne {
				return "?" + x.key()
			}
			p = append(p, r.show(e, st, s.v))
		}
		return "[" + strings.Join(p, " ") + "]"
	case vMapRef:
		m, ok := st.heap[x.l].(*vMap)
		if !ok {
			return "?" + x.key()
		}
		ent := map[string]string{}
		for _, s := range m.segs {
			en, ok := s.v.(vEntry)
			if !ok || s.kind != segOne {
				return "?" + m.key()
			}
			ent[r.show(e, st, en.k)] = r.show(e, st, en.v)
		}
		var p []string
		for k, v := range ent {
			p = append(p, k+":"+v)
		}
		sort.Strings(p)
		return "{" + strings.Join(p, " ") + "}"
	}
	return v.key()
}

// options reads every option of a configuration.
func (r *cfgRun) options(e *absEngine, st *state, cfg val) map[string]string {
	out := map[string]string{}
	for _, f := range r.leaves {
		v, ok := cfg, true
		for _, n := range f.path {
			if _, isNil := v.(vNil); isNil {
				ok = false
				break
			}
			if p, isP := v.(vPtr); isP {
				v = e.load(st, p)
			}
			v = e.field(st, v, n, nil)
		}
		if !ok {
			out[f.String()] = ""
			continue
		}
		s := r.show(e, st, v)
		if f.kind() == "bool" && s == "false" {
			s = ""
		}
		if f.kind() == "map" && s == "" {
			s = "{}"
		}
		out[f.String()] = s
	}
	return out
}

func (r *cfgRun) engine() *absEngine {
	e := newAbs(r.l)
	e.limit = 400000
	e.peel = true
	e.assume = func(a string) (bool, bool) {
		// every set option is a non-zero value, different from the constants it
		// is compared with
		switch {
		case strings.HasPrefix(a, "empty:"), strings.HasPrefix(a, "zero:len("), strings.HasPrefix(a, "nil:"):
			return false, true
		}
		return false, false
	}
	e.opaque = func(fn *vFunc) bool { return !strings.HasPrefix(fn.decl.pkg.PkgPath, modPath+"/cmd/") }
	return e
}

// maps.Copy and friends
func mapsCall(e *absEngine, fn *vFunc, args []val, st *state, k func(*state, []val)) bool {
	entries := func(v val) ([]seg, bool) {
		if r, ok := v.(vMapRef); ok {
			if m, ok := st.heap[r.l].(*vMap); ok {
				return m.segs, true
			}
		}
		_, isNil := v.(vNil)
		return nil, isNil
	}
	switch fn.name {
	case "maps.Copy", "golang.org/x/exp/maps.Copy":
		src, ok := entries(args[1])
		dst, isRef := args[0].(vMapRef)
		if !ok || !isRef {
			return false
		}
		old, _ := entries(args[0])
		st.heap[dst.l] = &vMap{append(append([]seg{}, old...), src...)}
		k(st, nil)
		return true
	case "maps.Clone", "golang.org/x/exp/maps.Clone":
		src, ok := entries(args[0])
		if !ok {
			return false
		}
		if _, isNil := args[0].(vNil); isNil {
			k(st, []val{args[0]})
			return true
		}
		k(st, []val{vMapRef{e.alloc(st, &vMap{append([]seg{}, src...)}).l}})
		return true
	}
	return false
}

func (r *cfgRun) method(name string) (*declSite, *types.Func) {
	for o, d := range r.l.declOf {
		f, ok := o.(*types.Func)
		if !ok || d.pkg.PkgPath != genPath || f.Name() != name {
			continue
		}
		sig := f.Type().(*types.Signature)
		if sig.Recv() != nil && namedIs(sig.Recv().Type(), genPath, "Config") {
			dd := d
			return &dd, f
		}
	}
	return nil, nil
}

func (r *cfgRun) fn(name string) (*declSite, *types.Func) {
	for o, d := range r.l.declOf {
		f, ok := o.(*types.Func)
		if ok && d.pkg.PkgPath == genPath && f.Name() == name && f.Type().(*types.Signature).Recv() == nil {
			dd := d
			return &dd, f
		}
	}
	return nil, nil
}

// call interprets a function.
func (r *cfgRun) call(e *absEngine, d *declSite, recv val, args []val, st *state, k func(*state, []val)) {
	var ro types.Object
	if d.fd.Recv != nil && len(d.fd.Recv.List[0].Names) > 0 {
		ro = d.pkg.TypesInfo.Defs[d.fd.Recv.List[0].Names[0]]
	}
	e.enter(&frame{pkg: d.pkg, name: d.fd.Name.Name}, d.fd.Type, ro, recv, d.fd.Body, args, st, k)
}

func (r *cfgRun) newState() *state { return &state{heap: map[loc]val{}, atoms: map[string]bool{}} }

// diff compares the options of a result with what they should be.
func (r *cfgRun) diff(got, want map[string]string) string {
	var out []string
	for _, f := range r.leaves {
		n := f.String()
		if got[n] != want[n] {
			out = append(out, fmt.Sprintf("%s is %s instead of %s", n, orNothing(got[n]), orNothing(want[n])))
		}
	}
	if len(out) > 3 {
		out = append(out[:3], fmt.Sprintf("and %d more", len(out)-3))
	}
	return strings.Join(out, "; ")
}

func orNothing(s string) string {
	if s == "" {
		return "nothing"
	}
	return fmt.Sprintf("%q", s)
}

func allSet(ls []cfgLeaf) map[string]bool {
	m := map[string]bool{}
	for _, f := range ls {
		m[f.String()] = true
	}
	return m
}

// merged says what merging user settings over a base gives. dbs is the default
// of options inside a section the user set only in part: the base's value or
// the documented default are both acceptable.
func (r *cfgRun) acceptable(got, base, want map[string]string, set map[string]bool) string {
	var out []string
	for _, f := range r.leaves {
		n := f.String()
		g := got[n]
		switch {
		case set[n]:
			w := want[n]
			if f.kind() == "map" && base[n] != "{}" && base[n] != "" {
				// both sets of entries
				w = mergeMaps(base[n], w)
			}
			if g != w {
				out = append(out, fmt.Sprintf("%s is %s although it is set to %s", n, orNothing(g), orNothing(w)))
			}
		case g == base[n], g == r.byDefault(n, got):
		case f.kind() == "bool" && g == "":
			// an explicit "off" cannot be told from an option left out
		case strings.HasPrefix(n, "Migration.") && !touches(set, "Migration.") && base["Migration.Dir"] == "" && g == "":
		case strings.HasPrefix(n, "Migration."):
			if g != migrationDefault(n) {
				out = append(out, fmt.Sprintf("%s is %s although it is not set", n, orNothing(g)))
			}
		default:
			out = append(out, fmt.Sprintf("%s is %s although it is not set (it was %s)", n, orNothing(g), orNothing(base[n])))
		}
	}
	if len(out) > 3 {
		out = append(out[:3], fmt.Sprintf("and %d more", len(out)-3))
	}
	return strings.Join(out, "; ")
}

func touches(set map[string]bool, prefix string) bool {
	for k := range set {
		if strings.HasPrefix(k, prefix) {
			return true
		}
	}
	return false
}

func migrationDefault(n string) string {
	switch n {
	case "Migration.Dir", "Migration.Package":
		return "migrate"
	case "Migration.Filename":
		return "migrate.go"
	}
	return ""
}

// byDefault is the documented default of an option, given the others: the
// operators live with the database helpers.
func (r *cfgRun) byDefault(n string, got map[string]string) string {
	switch n {
	case "Database.Operator.Dir":
		return got["Database.Dir"]
	case "Database.Operator.Package":
		return got["Database.Package"]
	}
	return cfgDefaults[n]
}

func mergeMaps(a, b string) string {
	a, b = strings.Trim(a, "{}"), strings.Trim(b, "{}")
	ent := map[string]string{}
	for _, s := range append(strings.Fields(a), strings.Fields(b)...) {
		k, v, _ := strings.Cut(s, ":")
		ent[k] = v // the second map wins
	}
	var p []string
	for k, v := range ent {
		p = append(p, k+":"+v)
	}
	sort.Strings(p)
	return "{" + strings.Join(p, " ") + "}"
}

func checkP15(c *Ctx) {
	l := c.L
	r := &cfgRun{c: c, l: l}
	p := l.pkgs[genPath]
	if p == nil || p.Types.Scope().Lookup("Config") == nil {
		c.Bad("anchor", "codegen.Config", token.NoPos, "the configuration type is not found")
		return
	}
	r.typ, _ = p.Types.Scope().Lookup("Config").Type().(*types.Named)
	r.leaves = configLeaves(r.typ, nil, nil)
	pos := p.Types.Scope().Lookup("Config").Pos()
	seen := map[string]string{}
	for _, f := range r.leaves {
		n := f.String()
		k := strings.Join(f.keys, ".")
		if f.kind() == "" {
			c.Bad("option", n, pos, "the option has type %s, which is not understood", f.typ)
			continue
		}
		if w, ok := cfgKeys[n]; ok {
			c.Check(k == w, "key", n, pos, "the option is read from the yaml key %q (documented: %q)", k, w)
		} else {
			last := f.keys[len(f.keys)-1]
			c.Check(last != "-", "key", n, pos, "the option is read from the yaml key %q", k)
		}
		c.Check(seen[k] == "", "key-unique", n, pos, "no other option has the yaml key %q %s", k, seen[k])
		seen[k] = n
	}
	for n := range cfgKeys {
		found := false
		for _, f := range r.leaves {
			found = found || f.String() == n
		}
		c.Check(found, "documented", n, pos, "the documented option exists")
	}
	r.defaults(pos)
	r.merging(pos)
	r.loading(pos)
	r.generate(pos)
	r.commands()
	r.dataTypes()
	r.naming()
	r.usage(pos)
	c.Min("merge", 20)
	c.Min("merge-pair", 200)
	c.Min("load", 20)
	c.Min("generate", 20)
	c.Min("command", 2)
	c.Min("default", 20)
	c.Min("data-type", 4)
	c.Min("naming", 3)
	c.Min("used", 15)
	for _, f := range r.leaves {
		c.Analysed("option " + f.String())
	}
}

// base builds the defaults.
func (r *cfgRun) base() map[string]string {
	m := map[string]string{}
	for _, f := range r.leaves {
		m[f.String()] = cfgDefaults[f.String()]
	}
	return m
}

func (r *cfgRun) problemsOf(e *absEngine, rule, construct string, pos token.Pos) {
	for _, p := range e.problems {
		r.c.Bad(rule, construct, pos, "%s", p)
	}
	if e.steps > e.limit {
		r.c.Bad(rule, construct, pos, "analysis limit reached")
	}
}

func (r *cfgRun) defaults(pos token.Pos) {
	d, _ := r.method("Init")
	if d == nil {
		r.c.Bad("default", "Config.Init", pos, "the function which sets the defaults is not found")
		return
	}
	e := r.engine()
	e.external = func(e *absEngine, c *ctx, x *ast.CallExpr, fn *vFunc, args []val, st *state, k func(*state, []val)) bool {
		return mapsCall(e, fn, args, st, k)
	}
	st := r.newState()
	cfg := e.alloc(st, e.zero(r.typ))
	n := 0
	r.call(e, d, cfg, nil, st, func(st *state, _ []val) {
		n++
		got := r.options(e, st, cfg)
		for _, f := range r.leaves {
			name := f.String()
			r.c.Check(got[name] == cfgDefaults[name], "default", "Init:"+name, d.fd.Pos(), "the default is %s (documented: %s)", orNothing(got[name]), orNothing(cfgDefaults[name]))
		}
	})
	r.problemsOf(e, "default", "Config.Init", d.fd.Pos())
	r.c.Check(n > 0, "default", "Config.Init", d.fd.Pos(), "the defaults are understood")
}

func (r *cfgRun) subsets() (out []map[string]bool, names []string) {
	out = append(out, map[string]bool{})
	names = append(names, "nothing")
	for _, f := range r.leaves {
		out = append(out, map[string]bool{f.String(): true})
		names = append(names, f.String())
	}
	out = append(out, allSet(r.leaves))
	names = append(names, "everything")
	return
}

// merging: Merge over a base in which nothing, or everything, is set.
func (r *cfgRun) merging(pos token.Pos) {
	d, _ := r.method("Merge")
	if d == nil {
		r.c.Bad("merge", "Config.Merge", pos, "the function which merges configurations is not found")
		return
	}
	try := func(rule, name string, baseSet, set map[string]bool, baseDefault bool) {
		e := r.engine()
		e.external = func(e *absEngine, c *ctx, x *ast.CallExpr, fn *vFunc, args []val, st *state, k func(*state, []val)) bool {
			return mapsCall(e, fn, args, st, k)
		}
		st := r.newState()
		base, _ := r.config(e, st, baseSet, "file")
		run := func(st *state) {
			user, want := r.config(e, st, set, "user")
			bo := r.options(e, st, base)
			n := 0
			r.call(e, d, base, []val{user}, st, func(st *state, vs []val) {
				n++
				got := map[string]string{}
				if len(vs) > 0 {
					got = r.options(e, st, vs[0])
				}
				m := r.acceptable(got, bo, want, set)
				r.c.Check(m == "", rule, name, d.fd.Pos(), "merging: %s", orOK(m))
			})
			r.c.Check(n > 0, rule, name, d.fd.Pos(), "merging is understood")
		}
		if baseDefault {
			if di, _ := r.method("Init"); di != nil {
				r.call(e, di, base, nil, st, func(st *state, _ []val) { run(st) })
			}
		} else {
			run(st)
		}
		r.problemsOf(e, rule, name, d.fd.Pos())
	}
	sets, names := r.subsets()
	for i, s := range sets {
		try("merge", names[i]+" set", map[string]bool{}, s, true)
		try("merge", names[i]+" set over a full configuration", allSet(r.leaves), s, false)
		r.alt = true
		try("merge", names[i]+" set over a full configuration, turned on", allSet(r.leaves), s, false)
		r.alt = false
		try("merge", names[i]+" set over an empty configuration", map[string]bool{}, s, false)
	}
	for i, f := range r.leaves {
		for _, g := range r.leaves[i+1:] {
			try("merge-pair", f.String()+" and "+g.String(), map[string]bool{}, map[string]bool{f.String(): true, g.String(): true}, true)
		}
	}
}

func orOK(m string) string {
	if m == "" {
		return "every option set is kept and the others keep their value"
	}
	return m
}

// loader hooks: decoding stores the options found in the file and leaves the others
func (r *cfgRun) decodes(e *absEngine, set map[string]bool, decoded *int) func(e *absEngine, c *ctx, x *ast.CallExpr, fn *vFunc, args []val, st *state, k func(*state, []val)) bool {
	return func(e *absEngine, c *ctx, x *ast.CallExpr, fn *vFunc, args []val, st *state, k func(*state, []val)) bool {
		if mapsCall(e, fn, args, st, k) {
			return true
		}
		last := lastName(fn.name)
		if fn.decl == nil && (last == "Decode" || last == "Unmarshal" || last == "DecodeContext" || last == "UnmarshalWithOptions") && strings.Contains(fn.name, "yaml") {
			for _, a := range args {
				p, ok := a.(vPtr)
				if !ok {
					continue
				}
				cur, ok := e.load(st, p).(*vStruct)
				if !ok || cur.typ == nil || !types.Identical(cur.typ, r.typ) {
					continue
				}
				*decoded++
				user, _ := r.config(e, st, set, "file")
				r.overlay(e, st, p, user, set)
				k(st, []val{vNil{}})
				return true
			}
		}
		switch {
		case fn.name == "os.Stat":
			b := st.clone()
			k(st, []val{mkSym("info", nil), vNil{}})
			k(b, []val{vNil{}, mkSym("staterr", nil)})
			return true
		case fn.decl == nil:
			if res := e.resultTypes(c, x); len(res) > 0 && isErrorType(res[len(res)-1]) {
				// an external call which succeeds
				out := e.freshResults(c, x, last)
				if len(out) == len(res) {
					out[len(out)-1] = vNil{}
					k(st, out)
					return true
				}
			}
		}
		return false
	}
}

// overlay stores the set options of src into dst.
func (r *cfgRun) overlay(e *absEngine, st *state, dst, src val, set map[string]bool) {
	for _, f := range r.leaves {
		if !set[f.String()] {
			continue
		}
		d, s := dst.(vPtr), src
		for i, n := range f.path {
			if p, ok := s.(vPtr); ok {
				s = e.load(st, p)
			}
			s = e.field(st, s, n, nil)
			if i == len(f.path)-1 {
				e.store(st, d.sub([]string{n}), s)
				break
			}
			next := e.load(st, d.sub([]string{n}))
			switch x := next.(type) {
			case vPtr:
				d = x
			case vNil:
				sp := s.(vPtr)
				np := e.alloc(st, e.zero(e.load(st, sp).(*vStruct).typ))
				e.store(st, d.sub([]string{n}), np)
				d = np
			default:
				d = d.sub([]string{n})
			}
		}
	}
}

func (r *cfgRun) loading(pos token.Pos) {
	sets, names := r.subsets()
	for _, fn := range []string{"LoadConfigFrom", "DefaultConfig"} {
		d, _ := r.fn(fn)
		if d == nil {
			r.c.Bad("load", fn, pos, "the function which loads a configuration is not found")
			continue
		}
		for i, s := range sets {
			e := r.engine()
			decoded, n := 0, 0
			e.external = r.decodes(e, s, &decoded)
			st := r.newState()
			var args []val
			if fn == "LoadConfigFrom" {
				args = []val{mkSym("p:src", types.Typ[types.String])}
			}
			r.call(e, d, nil, args, st, func(st *state, vs []val) {
				if len(vs) == 0 {
					return
				}
				if _, isNil := vs[0].(vNil); isNil {
					return
				}
				n++
				got := r.options(e, st, vs[0])
				_, want := r.config(e, st, s, "file")
				base := r.base()
				if m := r.acceptable(got, base, want, s); m != "" {
					// without a configuration file, the defaults
					if m2 := r.diff(got, base); m2 != "" || fn == "LoadConfigFrom" {
						r.c.Bad("load", fn+":"+names[i], d.fd.Pos(), "loading a file with %s set: %s", names[i], m)
						return
					}
				}
				r.c.OK("load", fn+":"+names[i], "a loaded option keeps its value")
			})
			r.problemsOf(e, "load", fn, d.fd.Pos())
			r.c.Check(n > 0 && decoded > 0, "load", fn, d.fd.Pos(), "the file is decoded into the configuration which is returned")
		}
	}
}

// generate: what Generate hands to the generator.
func (r *cfgRun) generate(pos token.Pos) {
	d, obj := r.fn("Generate")
	ctor := r.l.genCtor()
	if d == nil || ctor == nil {
		r.c.Bad("generate", "Generate", pos, "the generator's entry points are not found")
		return
	}
	at := -1
	cs := ctor.pkg.TypesInfo.Defs[ctor.fd.Name].Type().(*types.Signature)
	for i := 0; i < cs.Params().Len(); i++ {
		if namedIs(cs.Params().At(i).Type(), genPath, "Config") {
			at = i
		}
	}
	pi := -1
	sig := obj.Type().(*types.Signature)
	for i := 0; i < sig.Params().Len(); i++ {
		if namedIs(sig.Params().At(i).Type(), genPath, "Config") {
			pi = i
		}
	}
	if at < 0 || pi < 0 {
		r.c.Bad("generate", "Generate", d.fd.Pos(), "the configuration is not handed to the generator")
		return
	}
	sets, names := r.subsets()
	for i, s := range sets {
		e := r.engine()
		base := r.engine()
		_ = base
		n := 0
		var file vPtr
		e.external = func(e *absEngine, c *ctx, x *ast.CallExpr, fn *vFunc, args []val, st *state, k func(*state, []val)) bool {
			if mapsCall(e, fn, args, st, k) {
				return true
			}
			last := lastName(fn.name)
			switch {
			case fn.decl != nil && fn.decl.fd == ctor.fd:
				n++
				got := r.options(e, st, args[at])
				_, want := r.config(e, st, s, "user")
				bo := r.base()
				m := r.acceptable(got, bo, want, s)
				r.c.Check(m == "", "generate", names[i]+" set by the caller", d.fd.Pos(), "the generator's configuration: %s", orOK(m))
				return true
			case fn.name == genPath+".DefaultConfig":
				file, _ = r.config(e, st, map[string]bool{}, "none")
				di, _ := r.method("Init")
				r.call(e, di, file, nil, st, func(st *state, _ []val) { k(st, []val{file}) })
				return true
			case fn.name == "("+genPath+".Config).RenameFunc":
				return false
			case strings.HasPrefix(fn.name, diaPath+"."):
				res := e.resultTypes(c, x)
				out := e.freshResults(c, x, last)
				for i := range res {
					if b, ok := res[i].Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
						out[i] = vBool(true)
					}
				}
				k(st, out)
				return true
			case fn.decl == nil:
				if res := e.resultTypes(c, x); len(res) > 0 && isErrorType(res[len(res)-1]) {
					out := e.freshResults(c, x, last)
					out[len(out)-1] = vNil{}
					k(st, out)
					return true
				}
			}
			return false
		}
		st := r.newState()
		args := make([]val, sig.Params().Len())
		for j := range args {
			args[j] = mkSym("p:"+sig.Params().At(j).Name(), sig.Params().At(j).Type())
		}
		args[pi], _ = r.config(e, st, s, "user")
		r.call(e, d, nil, args, st, func(*state, []val) {})
		r.problemsOf(e, "generate", "Generate", d.fd.Pos())
		r.c.Check(n > 0, "generate", "Generate", d.fd.Pos(), "the configuration handed to the generator is understood")
	}
	// after the merge, no setting is read from the caller's value
	if len(d.fd.Type.Params.List) == 0 {
		return
	}
	po := sig.Params().At(pi)
	ast.Inspect(d.fd.Body, func(n ast.Node) bool {
		se, ok := n.(*ast.SelectorExpr)
		if !ok {
			return true
		}
		id, ok := ast.Unparen(se.X).(*ast.Ident)
		if !ok || d.pkg.TypesInfo.Uses[id] != po {
			return true
		}
		if s := d.pkg.TypesInfo.Selections[se]; s != nil && s.Kind() == types.FieldVal {
			r.c.Bad("generate", "unmerged "+se.Sel.Name, se.Pos(), "the setting %s is read from the caller's configuration instead of the merged one", se.Sel.Name)
		}
		return true
	})
}

// commands: which configuration each command generates with.
func (r *cfgRun) commands() {
	cliPath := modPath + "/cmd/sqlgen"
	p := r.l.pkgs[cliPath]
	if p == nil {
		r.c.Bad("command", cliPath, token.NoPos, "the command is not found")
		return
	}
	for _, file := range p.Syntax {
		ast.Inspect(file, func(n ast.Node) bool {
			var ft *ast.FuncType
			var body *ast.BlockStmt
			name := ""
			switch x := n.(type) {
			case *ast.FuncLit:
				ft, body, name = x.Type, x.Body, "command function"
			case *ast.FuncDecl:
				if x.Body == nil {
					return true
				}
				ft, body, name = x.Type, x.Body, x.Name.Name
			default:
				return true
			}
			direct := false
			ast.Inspect(body, func(m ast.Node) bool {
				if call, ok := m.(*ast.CallExpr); ok {
					if o := calledObj(p.TypesInfo, call); o != nil && o.Pkg() != nil && o.Pkg().Path() == genPath && o.Name() == "Generate" {
						direct = true
					}
				}
				return true
			})
			if !direct || ft.Params == nil {
				return true
			}
			r.command(p.TypesInfo, name, ft, body, n.Pos())
			return false
		})
	}
}

func (r *cfgRun) command(info *types.Info, name string, ft *ast.FuncType, body *ast.BlockStmt, pos token.Pos) {
	p := r.l.pkgs[modPath+"/cmd/sqlgen"]
	e := r.engine()
	e.assume = nil
	n := 0
	var loaded []string
	who := map[string]map[string]string{}
	construct := "generate"
	e.external = func(e *absEngine, c *ctx, x *ast.CallExpr, fn *vFunc, args []val, st *state, k func(*state, []val)) bool {
		mk := func(id string) vPtr {
			cfg, want := r.config(e, st, allSet(r.leaves), id)
			who[id] = want
			loaded = append(loaded, id)
			return cfg
		}
		switch fn.name {
		case genPath + ".DefaultConfig":
			k(st, []val{mk("default")})
			return true
		case genPath + ".LoadConfigFrom":
			id := "loaded(" + r.show(e, st, args[0]) + ")"
			b := st.clone()
			st.atoms["loads"] = true
			k(st, []val{mk(id), vNil{}})
			b.atoms["nil:loaderr"] = false
			k(b, []val{vNil{}, mkSym("loaderr", nil)})
			return true
		case genPath + ".Generate":
			n++
			got := r.options(e, st, args[0])
			// the option given on the command line wins
			id := ""
			for w := range who {
				if got["Driver"] == who[w]["Driver"] {
					id = w
				}
			}
			want := map[string]string{}
			for k, v := range who[id] {
				want[k] = v
			}
			argsName := ""
			for _, f := range ft.Params.List {
				if isListOfString(info.TypeOf(f.Type)) && len(f.Names) > 0 {
					argsName = f.Names[0].Name
				}
			}
			src := got["Source"]
			if src != want["Source"] && argsName != "" && strings.Contains(src, "p:"+argsName) {
				// the source given as argument
				if src == "[elem(p:"+argsName+",0)]" || src == "["+mkSym("elem", types.Typ[types.String], mkSym("p:"+argsName, nil), vInt{poly{}}).k+"]" {
					want["Source"] = src
					construct = "generate [source]"
				}
			}
			m := r.diff(got, want)
			cfgFlag := ""
			for a, v := range st.atoms {
				if strings.HasPrefix(a, "empty:") && strings.Contains(a, "config") {
					cfgFlag = a
					if v && strings.HasPrefix(id, "loaded(") {
						m = "a file is loaded although none was named"
					}
					if !v && !strings.HasPrefix(id, "loaded(") {
						m = "the named configuration file is not used"
					}
				}
			}
			if strings.HasPrefix(id, "loaded(") && !strings.Contains(id, "config") {
				m = "the loaded file is not the named one"
			}
			_ = cfgFlag
			r.c.Check(m == "", "command", construct+" with "+id+" configuration", pos, "the command generates with the configuration it loaded: %s", orOK(m))
			k(st, []val{mkSym("generr", nil)})
			return true
		}
		return false
	}
	st := r.newState()
	tps := map[string]types.Type{}
	args, _ := paramVals(e, info, ft, "p:", st, tps, nil)
	e.enter(&frame{pkg: p, name: name}, ft, nil, nil, body, args, st, func(*state, []val) {})
	r.problemsOf(e, "command", name, pos)
	r.c.Check(n > 0, "command", name+" runs the generator", pos, "the command's configuration is understood")
}

func isListOfString(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isStringType(s.Elem())
}

// dataTypes: custom column types reach the generator field by field.
func (r *cfgRun) dataTypes() {
	d := r.l.genCtor()
	var dtf *cfgLeaf
	for i := range r.leaves {
		if r.leaves[i].String() == "DataTypes" {
			dtf = &r.leaves[i]
		}
	}
	if d == nil || dtf == nil {
		r.c.Bad("data-type", "newGenerator", token.NoPos, "the constructor of the generator or the custom types are not found")
		return
	}
	mt, ok := dtf.typ.Underlying().(*types.Map)
	if !ok {
		r.c.Bad("data-type", "DataTypes", d.fd.Pos(), "the custom column types are no map")
		return
	}
	et := mt.Elem()
	if pt, ok := et.Underlying().(*types.Pointer); ok {
		et = pt.Elem()
	}
	est, ok := et.Underlying().(*types.Struct)
	if !ok {
		r.c.Bad("data-type", "DataTypes", d.fd.Pos(), "a custom column type is no struct")
		return
	}
	e := r.engine()
	e.external = func(e *absEngine, c *ctx, x *ast.CallExpr, fn *vFunc, args []val, st *state, k func(*state, []val)) bool {
		if mapsCall(e, fn, args, st, k) {
			return true
		}
		switch lastName(fn.name) {
		case "QuoteRune":
			k(st, []val{vInt{pc('`')}})
			return true
		}
		return false
	}
	st := r.newState()
	sig := d.pkg.TypesInfo.Defs[d.fd.Name].Type().(*types.Signature)
	args := make([]val, sig.Params().Len())
	var cfgp vPtr
	for i := range args {
		t := sig.Params().At(i).Type()
		args[i] = mkSym("p:"+sig.Params().At(i).Name(), t)
		if namedIs(t, genPath, "Config") {
			cfgp, _ = r.config(e, st, map[string]bool{}, "user")
			decl := &vStruct{typ: et, f: map[string]val{}}
			for j := 0; j < est.NumFields(); j++ {
				f := est.Field(j)
				decl.f[f.Name()] = mkSym("custom."+f.Name(), f.Type())
			}
			m := e.alloc(st, &vMap{segs: []seg{{kind: segOne, v: vEntry{vStr{lit("T")}, e.alloc(st, decl)}}}})
			e.store(st, cfgp.sub([]string{"DataTypes"}), vMapRef{m.l})
			args[i] = cfgp
		}
	}
	n := 0
	r.call(e, d, nil, args, st, func(st *state, vs []val) {
		if len(vs) == 0 {
			return
		}
		g, ok := vs[0].(vPtr)
		if !ok {
			return
		}
		n++
		gs, ok := e.load(st, g).(*vStruct)
		if !ok {
			r.c.Bad("data-type", "newGenerator", d.fd.Pos(), "the generator is not understood")
			return
		}
		keeps := false
		var custom val
		for _, v := range gs.f {
			if p, ok := v.(vPtr); ok && p == cfgp {
				keeps = true
			}
			if m, ok := v.(vMapRef); ok {
				if mv, ok := st.heap[m.l].(*vMap); ok {
					if got := e.mapGet(mv, vStr{lit("T")}, nil); got != nil {
						if _, isSym := got.(*sym); !isSym {
							custom = got
						}
					}
				}
			}
		}
		r.c.Check(keeps, "data-type", "configuration", d.fd.Pos(), "the generator keeps the configuration it was given")
		if custom == nil {
			r.c.Bad("data-type", "custom types", d.fd.Pos(), "a custom column type does not reach the generator under its name")
			return
		}
		for j := 0; j < est.NumFields(); j++ {
			name := est.Field(j).Name()
			want := "custom." + name
			v := e.field(st, custom, name, nil)
			if f, ok := v.(*vFunc); ok {
				got := "?"
				if f.lit != nil {
					e.enter(&frame{parent: f.fr, pkg: f.pkg, name: f.name}, f.lit.Type, nil, nil, f.lit.Body, []val{mkSym("column", nil)}, st, func(st *state, rs []val) {
						if len(rs) > 0 {
							got = r.show(e, st, rs[0])
						}
					})
				}
				r.c.Check(got == want, "data-type", name, d.fd.Pos(), "the custom %s becomes %s", name, got)
				continue
			}
			got := r.show(e, st, v)
			r.c.Check(got == want, "data-type", name, d.fd.Pos(), "the custom %s becomes %s", name, got)
		}
	})
	r.problemsOf(e, "data-type", "newGenerator", d.fd.Pos())
	r.c.Check(n > 0, "data-type", "newGenerator", d.fd.Pos(), "the constructor of the generator is understood")
}

// naming: each naming convention selects the function of that name.
func (r *cfgRun) naming() {
	d, _ := r.method("RenameFunc")
	if d == nil {
		r.c.Bad("naming", "RenameFunc", token.NoPos, "the naming function is not found")
		return
	}
	for conv, fn := range map[string]string{"snake_case": "ToSnakeCase", "camelCase": "ToCamelCase", "PascalCase": "ToPascalCase"} {
		e := r.engine()
		st := r.newState()
		cfg := &vStruct{typ: r.typ, f: map[string]val{"NamingConvention": vStr{lit(conv)}}}
		var recv val = cfg
		if _, ok := d.pkg.TypesInfo.Defs[d.fd.Name].Type().(*types.Signature).Recv().Type().(*types.Pointer); ok {
			recv = e.alloc(st, cfg)
		}
		n := 0
		r.call(e, d, recv, nil, st, func(st *state, vs []val) {
			n++
			got := "nothing"
			if len(vs) > 0 {
				if f, ok := vs[0].(*vFunc); ok {
					got = lastName(f.name)
					if f.lit != nil {
						got = "a function literal"
						// a literal which only calls the conversion
						ast.Inspect(f.lit.Body, func(n ast.Node) bool {
							if call, ok := n.(*ast.CallExpr); ok {
								if o := calledObj(d.pkg.TypesInfo, call); o != nil {
									got = o.Name()
								}
							}
							return true
						})
					}
				}
			}
			r.c.Check(got == fn, "naming", conv, d.fd.Pos(), "the convention %s names columns with %s", conv, got)
		})
		r.c.Check(n > 0, "naming", conv, d.fd.Pos(), "the naming function is understood")
	}
}

// usage: every option is read somewhere outside the functions which only load,
// default and merge it.
func (r *cfgRun) usage(pos token.Pos) {
	vars := map[*types.Var]string{}
	var collect func(t types.Type, path []string)
	collect = func(t types.Type, path []string) {
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			t = pt.Elem()
		}
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			return
		}
		for i := 0; i < st.NumFields(); i++ {
			p := append(append([]string{}, path...), st.Field(i).Name())
			vars[st.Field(i)] = strings.Join(p, ".")
			collect(st.Field(i).Type(), p)
		}
	}
	collect(r.typ, nil)
	used := map[string]bool{}
	for o, d := range r.l.declOf {
		f, ok := o.(*types.Func)
		if !ok || d.fd.Body == nil || !strings.HasPrefix(d.pkg.PkgPath, modPath+"/cmd/sqlgen/codegen") {
			continue
		}
		sig := f.Type().(*types.Signature)
		if sig.Recv() != nil && namedIs(sig.Recv().Type(), genPath, "Config") && f.Name() != "RenameFunc" {
			if sig.Results().Len() == 0 || namedIs(sig.Results().At(0).Type(), genPath, "Config") {
				continue // defaults and merging
			}
		}
		assigned := map[ast.Expr]bool{}
		ast.Inspect(d.fd.Body, func(n ast.Node) bool {
			if a, ok := n.(*ast.AssignStmt); ok && a.Tok == token.ASSIGN {
				for _, x := range a.Lhs {
					assigned[ast.Unparen(x)] = true
				}
			}
			return true
		})
		ast.Inspect(d.fd.Body, func(n ast.Node) bool {
			if se, ok := n.(*ast.SelectorExpr); ok && !assigned[se] {
				if v, ok := d.pkg.TypesInfo.Uses[se.Sel].(*types.Var); ok {
					used[vars[v]] = true
				}
			}
			return true
		})
	}
	for _, f := range r.leaves {
		n := f.String()
		if f.path[0] == "Migration" {
			n = "Migration" // one feature
		}
		ok := used[f.String()]
		if n == "Migration" {
			ok = used["Migration.DSN"] || used["Migration.Dir"]
		}
		r.c.Check(ok, "used", n, pos, "the generator reads the option")
	}
}
