package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"regexp/syntax"
	"sort"
	"strings"
)

// This file holds the rules for the parser that turns structs into tables.

// trimsKept makes strings.TrimSpace visible in values.
func trimsKept(e *absEngine) {
	e.external = func(e *absEngine, c *ctx, call *ast.CallExpr, fn *vFunc, args []val, st *state, k func(*state, []val)) bool {
		switch fn.name {
		case "strings.TrimSpace":
			k(st, []val{mkSym("call:strings.TrimSpace", types.Typ[types.String], args[0])})
			return true
		}
		if fn.recv != nil && lastName(fn.name) == "MatchString" && len(args) == 1 {
			k(st, []val{mkSym("call:MatchString", types.Typ[types.Bool], fn.recv, args[0])})
			return true
		}
		return false
	}
}

// colEnd is one way the column loop handles a field.
type colEnd struct {
	bodyEnd
	app   *vStruct // the column appended
	keys  []seg    // columns appended to the keys
	auto  string   // what the auto-increment key becomes
	table *vStruct
	bad   []string
}

type colRun struct {
	*bodyRun
	F       string // the field
	G       string // the value of its tag
	table   vPtr
	colEnds []*colEnd
}

var colRunsOf = map[*Loaded][]*colRun{}

// columnRuns interprets the handling of one field while columns are collected.
func columnRuns(c *Ctx) []*colRun {
	if r, ok := colRunsOf[c.L]; ok {
		return r
	}
	var out []*colRun
	ds, ls := loopsReaching(c.L, compPath, literalOf(compPath, "Column"))
	for i := range ds {
		c.Analysed(ds[i].fd.Name.Name + " (columns)")
		e := newAbs(c.L)
		e.peel = true
		trimsKept(e)
		st := &state{heap: map[loc]val{}, atoms: map[string]bool{}}
		cr := &colRun{F: "F"}
		tables := 0
		cr.bodyRun = runBody(e, ds[i], ls[i], st, func(o *types.Var, elem bool) val {
			if elem {
				return mkSym("F", o.Type())
			}
			if namedIs(o.Type(), compPath, "Table") {
				n, _ := derefNamed(o.Type())
				tables++
				cr.table = e.alloc(st, &vStruct{base: mkSym("TABLE", n), typ: n, f: map[string]val{}})
				return cr.table
			}
			if _, ok := o.Type().Underlying().(*types.Map); ok {
				return vMapRef{e.alloc(st, &vMap{segs: []seg{{kind: segCarried, id: "var:" + o.Name()}}}).l}
			}
			return nil
		})
		if len(cr.problems) > 0 {
			c.Bad("interpretable", "columns", ls[i].Pos(), "%s", short(strings.Join(uniq(cr.problems), "; ")))
		}
		if tables != 1 || len(cr.ends) == 0 {
			c.Bad("interpretable", "columns", ls[i].Pos(), "the loop that collects the columns of a table is not understood")
			continue
		}
		c.OK("interpretable", "columns", "%d ways to handle a field", len(cr.ends))
		for _, en := range cr.ends {
			if impossible(en.st) {
				continue
			}
			ce := &colEnd{bodyEnd: en}
			if t, ok := e.load(en.st, cr.table).(*vStruct); ok {
				ce.table = t
				ce.read(e)
				if ce.app != nil {
					if g := keyOf(e.field(en.st, ce.app, "goField", nil)); cr.F == "F" && g != "F" && strings.HasPrefix(g, "elem(") {
						cr.F = g
					}
				}
			} else {
				ce.bad = append(ce.bad, "the table is lost")
			}
			cr.colEnds = append(cr.colEnds, ce)
		}
		cr.G = "m:Get(.tag(" + cr.F + "),.Tag(var:cfg))"
		for _, ce := range cr.colEnds {
			for a := range ce.st.atoms {
				if i := strings.Index(a, "m:Get(.tag("+cr.F+"),"); i >= 0 {
					cr.G = balanced(a[i:])
				}
			}
		}
		out = append(out, cr)
	}
	if len(out) == 0 {
		c.Bad("interpretable", "columns", token.NoPos, "no loop collects columns")
	}
	colRunsOf[c.L] = out
	return out
}

// balanced cuts a key after its closing parenthesis.
func balanced(s string) string {
	d := 0
	for i, r := range s {
		switch r {
		case '(':
			d++
		case ')':
			if d--; d == 0 {
				return s[:i+1]
			}
		}
	}
	return s
}

// impossible: splitting a text always gives a part.
func impossible(st *state) bool {
	for a, v := range st.atoms {
		if v && strings.HasPrefix(a, "zero:len(call:strings.Split") {
			return true
		}
		if in, ok := strings.CutPrefix(a, "nil:"); ok && v {
			// nodes of the syntax tree are not typed nil pointers
			for b, w := range st.atoms {
				if w && strings.HasPrefix(b, "is("+in+",") {
					return true
				}
			}
		}
	}
	return false
}

func (ce *colEnd) read(e *absEngine) {
	old := mkSym(".Columns", nil, mkSym("TABLE", nil)).k
	if v, ok := ce.table.f["Columns"]; ok {
		add, ok := appended(e, v, old)
		if !ok {
			ce.bad = append(ce.bad, "the columns become "+short(keyOf(v)))
		}
		if len(add) > 1 {
			ce.bad = append(ce.bad, "several columns are added for one field")
		}
		if len(add) == 1 {
			if p, ok := add[0].v.(vPtr); ok && add[0].kind == segOne {
				ce.app, _ = e.load(ce.st, p).(*vStruct)
			}
			if ce.app == nil {
				ce.bad = append(ce.bad, "the column added is not determined")
			}
		}
	}
	if v, ok := ce.table.f["Keys"]; ok {
		add, ok := appended(e, v, mkSym(".Keys", nil, mkSym("TABLE", nil)).k)
		if !ok {
			ce.bad = append(ce.bad, "the keys become "+short(keyOf(v)))
		}
		ce.keys = add
	}
	if v, ok := ce.table.f["autoIncrKey"]; ok {
		ce.auto = keyOf(v)
	}
}

// appended: the list is an old list followed by new elements.
func appended(e *absEngine, v val, old string) ([]seg, bool) {
	segs := e.toSegs(nil, v)
	if len(segs) == 0 {
		return nil, false
	}
	h := segs[0]
	if h.kind != segAll || h.v.key() != old || len(h.from) != 0 || h.to.String() != "len("+old+")" {
		return nil, false
	}
	return segs[1:], true
}

// isTagName: the text is the trimmed name in the tag.
func (cr *colRun) isTagName(k string) (ok, trimmed bool) {
	for {
		if in, is := strings.CutPrefix(k, "call:strings.Trim"); is {
			if j := strings.Index(in, "("); j >= 0 {
				k, trimmed = strings.TrimSuffix(in[j+1:], ")"), true
				continue
			}
		}
		break
	}
	if in, is := strings.CutPrefix(k, "«"); is {
		k = strings.TrimSuffix(in, "»")
	}
	switch k {
	case "elem(call:strings.Split(" + cr.G + ",«\",\"»),0)", "call:strings.Cut#0(" + cr.G + ",«\",\"»)":
		return true, trimmed
	}
	return strings.HasPrefix(k, "elem(call:strings.SplitN("+cr.G+",«\",\"»,") && strings.HasSuffix(k, ",0)"), trimmed
}

// side finds the other side of an equality.
func eqSides(atom string) (a, b string, ok bool) {
	in, ok := strings.CutPrefix(atom, "eq(")
	if !ok || !strings.HasSuffix(in, ")") {
		return "", "", false
	}
	in = in[:len(in)-1]
	d, q := 0, false
	for i := 0; i < len(in); i++ {
		switch ch := in[i]; {
		case ch == '"' && (i == 0 || in[i-1] != '\\'):
			q = !q
		case q:
		case ch == '(' || ch == '[' || ch == '{':
			d++
		case ch == ')' || ch == ']' || ch == '}':
			d--
		case ch == ',' && d == 0:
			return in[:i], in[i+1:], true
		}
	}
	return "", "", false
}

// fieldFacts are the facts about the field on one path.
type fieldFacts struct {
	exported, embedded, dash, table, dup, named map[bool]bool
	dupKey                                      string
	opts                                        map[string]map[bool]bool
	match                                       map[string]bool // names that match the pattern
	bad                                         []string
}

func (cr *colRun) facts(ce *colEnd) *fieldFacts {
	ff := &fieldFacts{opts: map[string]map[bool]bool{}, match: map[string]bool{}}
	set := func(m *map[bool]bool, v bool) {
		if *m == nil {
			*m = map[bool]bool{}
		}
		(*m)[v] = true
	}
	for a, v := range ce.st.atoms {
		switch {
		case a == ".exported("+cr.F+")", a == "true:.exported("+cr.F+")":
			set(&ff.exported, v)
		case a == ".embedded("+cr.F+")", a == "true:.embedded("+cr.F+")":
			set(&ff.embedded, v)
		case a == "empty:"+cr.G:
			if v {
				set(&ff.dash, false)
				set(&ff.named, false)
			}
		case strings.HasPrefix(a, "empty:"):
			if ok, _ := cr.isTagName(strings.TrimPrefix(a, "empty:")); ok {
				set(&ff.named, !v)
			}
		case strings.Contains(a, "MatchString"):
			// match(pattern,name)
			if v {
				ff.match[a] = true
			}
		case strings.HasPrefix(a, "in(«\""):
			rest := a[len("in(«\""):]
			opt, list, _ := strings.Cut(rest, "\"»,")
			if !cr.isOptions(strings.TrimSuffix(list, ")")) {
				ff.bad = append(ff.bad, "the option "+opt+" is looked up in "+short(list))
			}
			m := ff.opts[opt]
			set(&m, v)
			ff.opts[opt] = m
		case strings.HasPrefix(a, "mapget(map[carried:var:"):
			if i := strings.Index(a, "],"); i >= 0 {
				set(&ff.dup, v)
				ff.dupKey = strings.TrimSuffix(a[i+2:], ")")
			}
		case strings.HasPrefix(a, "in(") && strings.Contains(a, "[carried:var:"):
			i := strings.LastIndex(a, ",[carried:var:")
			set(&ff.dup, v)
			ff.dupKey = a[3:i]
		case strings.Contains(a, "tableTypeName") || strings.Contains(a, "typeOfTable") || strings.Contains(a, "TableName"):
			if strings.Contains(a, ".t("+cr.F+")") {
				set(&ff.table, v)
			}
		default:
			x, y, ok := eqSides(a)
			if !ok {
				continue
			}
			for _, p := range [][2]string{{x, y}, {y, x}} {
				if p[1] != "«\"-\"»" {
					continue
				}
				if ok, trimmed := cr.isTagName(p[0]); ok {
					set(&ff.dash, v)
					_ = trimmed
				} else if p[0] == cr.G && v {
					set(&ff.dash, v)
				}
			}
		}
	}
	return ff
}

// isOptions: the list holds the trimmed options after the name in the tag.
func (cr *colRun) isOptions(k string) bool {
	split := "call:strings.Split(" + cr.G + ",«\",\"»)"
	rest := "call:strings.Cut#1(" + cr.G + ",«\",\"»)"
	// without a tag there are no options
	if k == "[]" || k == "map[]" {
		return true
	}
	if !strings.Contains(k, split) && !strings.Contains(k, rest) {
		return false
	}
	// nothing else is a source of options
	other := strings.NewReplacer(split, "", rest, "").Replace(k)
	if strings.Contains(other, "var:") || strings.Contains(other, "carried:") || strings.Contains(other, "m:Get(") {
		return false
	}
	if !strings.Contains(k, "Trim") {
		return false
	}
	// only empty options are dropped
	for _, m := range regexp.MustCompile(`(?:[{;])([^{};]*)->\[\]`).FindAllStringSubmatch(k, -1) {
		if !strings.HasPrefix(m[1], "empty:") {
			return false
		}
	}
	if strings.Contains(k, split) && !strings.Contains(k, rest) {
		// the first part is the name
		if regexp.MustCompile(`for [^=]+=0\.\.len\(call:strings\.Split\(`).MatchString(k) {
			// an index shifted by one
			idx := regexp.MustCompile(`for ([^=]+)=0\.\.`).FindStringSubmatch(k)
			if len(idx) > 0 && strings.Contains(k, "elem("+split+","+idx[1]+")") {
				return false
			}
			return strings.Contains(k, "1+")
		}
		return strings.Contains(k, "=1..len("+split+")") || strings.Contains(k, "1+")
	}
	return true
}

func yes(m map[bool]bool) bool { return m[true] && !m[false] }
func no(m map[bool]bool) bool  { return m[false] && !m[true] }

func (cr *colRun) where(c *Ctx) token.Pos { return cr.loop.Pos() }

func (cr *colRun) describe(ce *colEnd) string {
	var n []string
	for a, v := range ce.st.atoms {
		a = strings.ReplaceAll(a, cr.G, "TAG")
		if !v {
			a = "!" + a
		}
		n = append(n, a)
	}
	sort.Strings(n)
	return short(strings.Join(n, " & "))
}

// columnPos: the position stored in a column is its index in the table.
func columnPos(c *Ctx) {
	for _, cr := range columnRuns(c) {
		n := 0
		for _, ce := range cr.colEnds {
			if ce.kind == "return" || ce.app == nil {
				continue
			}
			n++
			e := cr.e
			p, ok := asPoly(e.field(ce.st, ce.app, "Pos", nil))
			at := mkSym(".Columns", nil, mkSym("TABLE", nil)).k
			var bad []string
			switch {
			case !ok:
				bad = append(bad, "the position of a column is not determined")
			case p.eq(ps("len(" + at + ")")):
			default:
				// a counter that grows by one with every column
				found := false
				for o, v := range cr.vars {
					q, isInt := asPoly(v)
					if !isInt || !p.eq(q) {
						continue
					}
					found = true
					for _, ce2 := range cr.colEnds {
						if ce2.kind == "return" {
							continue
						}
						w, ok := asPoly(cr.at(ce2.bodyEnd, o))
						d, isC := w.sub(q).constant()
						want := int64(0)
						if ce2.app != nil {
							want = 1
						}
						if !ok || !isC || d != want {
							bad = append(bad, fmt.Sprintf("the position advances by %s where %d column is added", w.sub(q).String(), want))
						}
					}
					if msg := cr.startsFresh(c, o); msg != "" {
						bad = append(bad, msg)
					}
				}
				if !found {
					bad = append(bad, "a column gets the position "+p.String())
				}
			}
			if len(bad) > 0 {
				c.Bad("column-position", "Pos", cr.where(c), "%s", short(strings.Join(uniq(bad), "; ")))
			} else {
				c.OK("column-position", "Pos", "the index of the column in its table")
			}
		}
	}
	c.Min("column-position", 1)
}

// startsFresh: the variable is zero when the first field of a struct is handled.
func (cr *colRun) startsFresh(c *Ctx, o types.Object) string {
	for _, sr := range structRuns(c) {
		for _, en := range sr.entries {
			if v, ok := en.vals[o]; ok {
				if p, is := asPoly(v); is && len(p) == 0 {
					return ""
				}
				return o.Name() + " is " + short(keyOf(v)) + " before the first field of a struct"
			}
		}
	}
	return "the start of " + o.Name() + " is not known"
}

// ---- names from tags (P12)

func checkTagNames(c *Ctx) {
	patterns := map[string]bool{}
	for _, cr := range columnRuns(c) {
		for _, ce := range cr.colEnds {
			if ce.kind == "return" {
				continue
			}
			ff := cr.facts(ce)
			use := func(what string, v val) {
				k := unquoteKey(keyOf(v))
				if cr.isRename(k) {
					// the name of the field is a Go identifier
					c.OK("tag-name", what, "the renamed field name")
					return
				}
				if ok, _ := cr.isTagName(k); ok {
					// matched on this path
					for m := range ff.match {
						if i := strings.Index(m, "("); i >= 0 && strings.Contains(m, k) {
							g := regexp.MustCompile(`global:compiler\.(\w+)`).FindStringSubmatch(m)
							if g != nil {
								patterns[g[1]] = true
								c.OK("tag-name", what, "matches %s", g[1])
								return
							}
						}
					}
					c.Bad("tag-name", what, cr.where(c), "a name from a tag is used without having matched the pattern of names (%s)", cr.describe(ce))
					return
				}
				c.Bad("tag-name", what, cr.where(c), "the %s name becomes %s", what, short(k))
			}
			if ce.app != nil {
				use("column", cr.e.field(ce.st, ce.app, "Name", nil))
			}
			if ce.table != nil {
				if v, ok := ce.table.f["Name"]; ok {
					use("table", v)
				}
			}
		}
	}
	for name := range patterns {
		msg := patternOK(c, name)
		c.Check(msg == "", "pattern", name, token.NoPos, "accepts plain identifiers only%s", prefixed(": ", ifNot(msg == "", msg)))
	}
}

func unquoteKey(k string) string {
	if in, ok := strings.CutPrefix(k, "«"); ok && strings.HasSuffix(in, "»") && !strings.Contains(in, "\"") {
		return strings.TrimSuffix(in, "»")
	}
	return k
}

// isRename: the renamed Go name of the field.
func (cr *colRun) isRename(k string) bool {
	return k == "call(.RenameFunc(var:cfg),.name("+cr.F+"))" || k == ".name("+cr.F+")"
}

// patternOK checks that a regular expression accepts plain identifiers only.
func patternOK(c *Ctx, name string) string {
	p := c.L.pkgs[compPath]
	if p == nil {
		return "the package is not loaded"
	}
	src, ok := "", false
	for _, f := range p.Syntax {
		for _, d := range f.Decls {
			gd, isGen := d.(*ast.GenDecl)
			if !isGen {
				continue
			}
			for _, s := range gd.Specs {
				vs, isVal := s.(*ast.ValueSpec)
				if !isVal {
					continue
				}
				for i, n := range vs.Names {
					if n.Name != name || i >= len(vs.Values) {
						continue
					}
					if call, isCall := vs.Values[i].(*ast.CallExpr); isCall && len(call.Args) == 1 {
						if tv := p.TypesInfo.Types[call.Args[0]]; tv.Value != nil {
							src, ok = constant.StringVal(tv.Value), true
						}
					}
				}
			}
		}
	}
	if !ok {
		return "the pattern is not a constant"
	}
	re, err := syntax.Parse(src, syntax.Perl)
	if err != nil {
		return err.Error()
	}
	re = re.Simplify()
	parts := []*syntax.Regexp{re}
	if re.Op == syntax.OpConcat {
		parts = re.Sub
	}
	if parts[0].Op != syntax.OpBeginText || parts[len(parts)-1].Op != syntax.OpEndText || parts[len(parts)-1].Flags&syntax.WasDollar != 0 && parts[len(parts)-1].Op != syntax.OpEndText {
		return fmt.Sprintf("%q is not anchored at both ends", src)
	}
	var only func(r *syntax.Regexp) string
	only = func(r *syntax.Regexp) string {
		switch r.Op {
		case syntax.OpLiteral:
			for _, x := range r.Rune {
				if !identRune(x) {
					return fmt.Sprintf("%q accepts %q", src, x)
				}
			}
		case syntax.OpCharClass:
			for i := 0; i+1 < len(r.Rune); i += 2 {
				if r.Rune[i+1]-r.Rune[i] > 200 {
					return fmt.Sprintf("%q accepts %q-%q", src, r.Rune[i], r.Rune[i+1])
				}
				for x := r.Rune[i]; x <= r.Rune[i+1]; x++ {
					if !identRune(x) {
						return fmt.Sprintf("%q accepts %q", src, x)
					}
				}
			}
		case syntax.OpStar, syntax.OpPlus, syntax.OpQuest, syntax.OpRepeat, syntax.OpCapture, syntax.OpConcat, syntax.OpAlternate:
			for _, s := range r.Sub {
				if m := only(s); m != "" {
					return m
				}
			}
		case syntax.OpEmptyMatch:
		default:
			return fmt.Sprintf("%q accepts more than letters, digits and underscores", src)
		}
		return ""
	}
	for _, s := range parts[1 : len(parts)-1] {
		if m := only(s); m != "" {
			return m
		}
	}
	return ""
}

// identRune: letters, digits and underscores; the case-folded Kelvin and long s
// signs are letters as well.
func identRune(r rune) bool {
	return r == '_' || r >= '0' && r <= '9' || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r == '\u017f' || r == '\u212a'
}

// ---- structs (P19)

type loopEntry struct {
	loop ast.Stmt
	what string
	vals map[types.Object]val // the variables the loop changes, as it starts
	st   *state
}

type structRun struct {
	*bodyRun
	entries []loopEntry
	pkg     vPtr
}

var structRunsOf = map[*Loaded][]*structRun{}

// structRuns interprets the handling of one struct, with the loops over its
// fields replaced by their effect.
func structRuns(c *Ctx) []*structRun {
	if r, ok := structRunsOf[c.L]; ok {
		return r
	}
	var out []*structRun
	ds, ls := loopsReaching(c.L, compPath, literalOf(compPath, "Table"))
	for i := range ds {
		c.Analysed(ds[i].fd.Name.Name + " (structs)")
		e := newAbs(c.L)
		e.peel = true
		sr := &structRun{}
		isCol, isField := literalOf(compPath, "Column"), literalOf(compPath, "structField")
		e.skip = func(cx *ctx, s ast.Stmt, st *state) bool {
			var b *ast.BlockStmt
			switch s := s.(type) {
			case *ast.ForStmt:
				b = s.Body
			case *ast.RangeStmt:
				b = s.Body
			}
			d := &declSite{pkg: cx.fr.pkg}
			what := ""
			switch {
			case reaches(c.L, d, b, isCol, 3, map[types.Object]bool{}):
				what = "columns"
			case reaches(c.L, d, b, isField, 3, map[types.Object]bool{}):
				what = "fields"
			default:
				return false
			}
			en := loopEntry{loop: s, what: what, vals: map[types.Object]val{}, st: st.clone()}
			for _, o := range changed(cx.info(), s) {
				if p, ok := e.lookup(cx, st, o); ok {
					v := e.load(st, p)
					if r, ok := v.(vMapRef); ok {
						v = st.heap[r.l]
					}
					en.vals[o] = v
				}
			}
			if e.explore == 0 {
				sr.entries = append(sr.entries, en)
			}
			havocLoop(e, cx, s, st)
			return true
		}
		st := &state{heap: map[loc]val{}, atoms: map[string]bool{}}
		sr.bodyRun = runBody(e, ds[i], ls[i], st, func(o *types.Var, elem bool) val {
			if namedIs(o.Type(), compPath, "Package") {
				n, _ := derefNamed(o.Type())
				sr.pkg = e.alloc(st, &vStruct{base: mkSym("PKG", n), typ: n, f: map[string]val{}})
				return sr.pkg
			}
			if elem {
				return mkSym("S", o.Type())
			}
			if _, ok := o.Type().Underlying().(*types.Map); ok {
				return vMapRef{e.alloc(st, mkSym("var:"+o.Name(), o.Type())).l}
			}
			return nil
		})
		if len(sr.problems) > 0 {
			c.Bad("interpretable", "structs", ls[i].Pos(), "%s", short(strings.Join(uniq(sr.problems), "; ")))
		}
		out = append(out, sr)
	}
	structRunsOf[c.L] = out
	return out
}

// changed lists the variables a statement assigns, and the maps it writes.
func changed(info *types.Info, n ast.Node) (out []types.Object) {
	seen := map[types.Object]bool{}
	add := func(x ast.Expr) {
		for {
			if i, ok := ast.Unparen(x).(*ast.IndexExpr); ok {
				x = i.X
				continue
			}
			break
		}
		if id, ok := ast.Unparen(x).(*ast.Ident); ok {
			if o := info.Uses[id]; o != nil && !seen[o] && (o.Pos() < n.Pos() || o.Pos() >= n.End()) {
				seen[o] = true
				out = append(out, o)
			}
		}
	}
	ast.Inspect(n, func(n ast.Node) bool {
		switch s := n.(type) {
		case *ast.AssignStmt:
			for _, x := range s.Lhs {
				add(x)
			}
		case *ast.IncDecStmt:
			add(s.X)
		}
		return true
	})
	return
}
