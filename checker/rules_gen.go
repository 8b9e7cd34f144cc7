package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strings"
	"sync"
)

func init() {
	const how = "abstract interpretation of the model generator (every path of generateModels and everything it calls) on a table with symbolic lists of columns, keys and insertable columns, for every dialect and both quoting settings; the abstract text of the generated file is parsed as Go with symbolic parts: "
	register("P09", how+"every method returning a statement with its arguments is read back: its text is tokenised as SQL, and its placeholders are matched one by one, over lists of unknown length, with the bound expressions; each must stand next to the column whose value is bound to it and numbered placeholders must run 1,2,3", checkP09)
	register("P10", how+"the lists returned by Columns, Addrs, Values, InsertColumns, InsertPlaceholders, SQLColumns, PK and CompositeKey, the selected columns of statements, and every getter and column accessor are matched position by position", checkP10)
	register("P11", how+"the columns of every list and statement are compared with the table's own column sets, and the functions computing these sets are interpreted to show which columns they leave out; where clauses must compare the whole key", checkP11)
	register("P12", how+"every name in a statement must have passed through the dialect's quoting and every exposed name follows the setting; the quoting functions are interpreted, and the parser is checked to use a tag's name only when it matched an anchored identifier pattern", checkP12)
}

type genFile struct {
	g      genDoc
	e      *absEngine
	viaPtr bool
	funcs  []*gfunc
	by     map[string][]*gfunc
}

type genConf struct {
	dialect        string
	quoted, viaPtr bool
}

func genConfs() []genConf {
	return []genConf{
		{"mysql", true, false}, {"mysql", false, true},
		{"postgres", true, true}, {"postgres", false, false},
		{"sqlite", true, false},
	}
}

var genOnce sync.Once
var genRuns []*genRun
var genFiles []*genFile

func generated(c *Ctx) []*genFile {
	genOnce.Do(func() {
		confs := genConfs()
		genRuns = make([]*genRun, len(confs))
		var wg sync.WaitGroup
		for i, k := range confs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				genRuns[i] = runGenerator(c.L, k.dialect, k.quoted, k.viaPtr)
			}()
		}
		wg.Wait()
		for i, r := range genRuns {
			seen := map[string]bool{}
			for _, g := range r.docs {
				f := &genFile{g: g, e: r.e[g.dialect], viaPtr: confs[i].viaPtr, by: map[string][]*gfunc{}}
				findFuncs(goTokens(g.doc), nil, nil, &f.funcs)
				for _, fn := range f.funcs {
					fn.name = methodNameOf(c.L, fn.nameDoc)
					f.by[fn.name] = append(f.by[fn.name], fn)
				}
				k := f.facts() + g.doc.key()
				if !seen[k] {
					seen[k] = true
					genFiles = append(genFiles, f)
				}
			}
		}
	})
	confs := genConfs()
	for i, r := range genRuns {
		k := confs[i]
		what := fmt.Sprintf("%s quoted=%t pointers=%t", k.dialect, k.quoted, k.viaPtr)
		c.Analysed(fmt.Sprintf("%s (%s): %d generated files", r.fn, what, len(r.docs)))
		if len(r.problems) > 0 {
			c.Bad("interpretable", what, r.pos, "the generator cannot be followed: %s", short(strings.Join(uniq(r.problems), "; ")))
		} else {
			c.Check(len(r.docs) > 0, "interpretable", what, r.pos, "%d generated files on %d steps", len(r.docs), r.steps)
		}
	}
	return genFiles
}

// facts: what is known about the table of this file.
func (f *genFile) facts() string {
	var n []string
	for a, v := range f.g.st.atoms {
		if strings.Contains(a, "(T)") && !strings.Contains(a, "#") {
			n = append(n, fmt.Sprintf("%s=%t", a, v))
		}
	}
	sort.Strings(n)
	return strings.Join(n, " ")
}

func (f *genFile) String() string {
	return fmt.Sprintf("%s quoted=%t pointers=%t %s", f.g.dialect, f.g.quoted, f.viaPtr, f.facts())
}

// methodNameOf resolves names taken from interfaces of the runtime.
func methodNameOf(l *Loaded, d doc) string {
	if s, ok := d.constString(); ok {
		return s
	}
	if len(d) == 1 && d[0].kind == pHole {
		if m := globalRef.FindStringSubmatch(d[0].v.key()); m != nil {
			if it := sequelIface(l, m[1]); it != nil && it.NumMethods() == 1 {
				return it.Method(0).Name()
			}
		}
	}
	n := 0
	out := ""
	for _, p := range d {
		switch p.kind {
		case pLit:
			out += p.s
		case pHole:
			n++
			if _, ok := fieldOf(p.v, "GoName"); ok {
				out += "<GoName>"
			} else {
				out += "<" + p.v.key() + ">"
			}
		default:
			out += "<?>"
		}
	}
	return out
}

var globalRef = regexp.MustCompile(`global:codegen\.(\w+)`)

// sequelIface is the interface of the runtime which a variable of the generator
// holds, read from its assignment.
func sequelIface(l *Loaded, v string) *types.Interface {
	p := l.pkgs[genPath]
	if p == nil {
		return nil
	}
	name := ""
	for _, f := range p.Syntax {
		ast.Inspect(f, func(n ast.Node) bool {
			a, ok := n.(*ast.AssignStmt)
			if !ok || len(a.Lhs) != len(a.Rhs) {
				return true
			}
			for i := range a.Lhs {
				if id, ok := a.Lhs[i].(*ast.Ident); ok && id.Name == v {
					ast.Inspect(a.Rhs[i], func(m ast.Node) bool {
						if ce, ok := m.(*ast.CallExpr); ok && len(ce.Args) == 1 {
							if tv := p.TypesInfo.Types[ce.Args[0]]; tv.Value != nil && name == "" {
								name = strings.Trim(tv.Value.ExactString(), `"`)
							}
						}
						return true
					})
				}
			}
			return true
		})
	}
	sp := l.pkgs[seqPath]
	if name == "" || sp == nil || sp.Types.Scope().Lookup(name) == nil {
		return nil
	}
	it, _ := sp.Types.Scope().Lookup(name).Type().Underlying().(*types.Interface)
	return it
}

// returns lists the values of every return statement.
func (f *gfunc) returns() [][][]gtok {
	var out [][][]gtok
	in := f.body
	for i := 0; i < len(in); i++ {
		if !in[i].isWord("return") {
			continue
		}
		j := i + 1
		d := 0
		for j < len(in) {
			if in[j].isPunct("{") || in[j].isPunct("(") {
				d++
			}
			if in[j].isPunct("}") || in[j].isPunct(")") {
				d--
				if d < 0 {
					break
				}
			}
			if d == 0 && in[j].isWord("return") {
				break
			}
			j++
		}
		out = append(out, splitTop(in[i+1:j], ","))
		i = j - 1
	}
	return out
}

// sliceLit returns the elements of a slice literal []T{...}.
func sliceLit(in []gtok) ([]seg, bool) {
	if len(in) < 5 || !in[0].isPunct("[") || !in[1].isPunct("]") || in[2].kind != 'w' {
		return nil, false
	}
	inner, rest, ok := enclosed(in[3:], "{", "}")
	if !ok || len(rest) != 0 {
		return nil, false
	}
	return elements(inner), true
}

// only is the function of that name, when there is exactly one.
func (f *genFile) only(name string) *gfunc {
	if l := f.by[name]; len(l) == 1 && l[0].lp == nil {
		return l[0]
	}
	return nil
}

// list is the literal a function returns.
func (f *genFile) list(name string) ([]seg, bool) {
	fn := f.only(name)
	if fn == nil {
		return nil, false
	}
	r := fn.returns()
	if len(r) != 1 || len(r[0]) != 1 {
		return nil, false
	}
	if l, ok := sliceLit(r[0][0]); ok {
		return l, true
	}
	// another list of the same model
	if m, ok := methodCall(r[0][0]); ok && m != name {
		return f.list(m)
	}
	return nil, false
}

// methodCall: v.Name()
func methodCall(in []gtok) (string, bool) {
	if len(in) == 3 && in[0].kind == 'w' && in[1].isPunct("(") && in[2].isPunct(")") {
		if s, ok := in[0].d.constString(); ok && strings.HasPrefix(s, "v.") {
			return s[2:], true
		}
	}
	return "", false
}

// zero: the number is zero on this path.
func (f *genFile) zero(p poly) bool {
	if n, ok := p.constant(); ok {
		return n == 0
	}
	yes, no := false, false
	st := f.g.st.clone()
	n := len(st.atoms)
	f.e.compare(p, token.EQL, st, func(s *state) { yes = yes || len(s.atoms) >= n }, func(s *state) { no = true })
	return yes && !no
}

// pairs matches two lists position by position.
func (f *genFile) pairs(a, b []seg, what string, pair func(x, y val) string) []string {
	sc := &stmtCheck{e: f.e, st: f.g.st}
	x, y := f.known(sc.argItems(f.flat(a))), f.known(sc.argItems(f.flat(b)))
	if len(sc.problems) == 0 {
		sc.match(x, y, 0, func(p, q item) {
			if msg := pair(p.v, q.v); msg != "" {
				sc.bad("%s", msg)
			}
		})
	}
	var out []string
	for _, p := range uniq(sc.problems) {
		out = append(out, what+": "+p)
	}
	return out
}

// known makes use of the lengths decided on this path: a list known to hold one
// element is that element, and a selection of the columns as long as the column
// list is the column list.
func (f *genFile) known(in []item) []item {
	cols := mkSym(".Columns", nil, mkSym("T", nil))
	nCols := ps("len(" + cols.k + ")")
	out := append([]item{}, in...)
	for i, x := range out {
		if x.one || x.partial {
			continue
		}
		if _, isC := x.size().constant(); !isC {
			for k := int64(0); k < 2; k++ {
				if f.zero(x.size().sub(pc(k))) {
					x.to = x.from.add(pc(k))
				}
			}
		}
		var sel *sym
		for _, l := range []string{"m:InsertColumns", "m:ColumnsWithoutPK"} {
			if s := mkSym(l, nil, mkSym("T", nil)); x.to.eq(ps("len("+s.k+")")) && f.zero(x.to.sub(nCols)) {
				sel = s
			}
		}
		if sel != nil {
			x.to = nCols
			var rec func(v val) val
			rec = func(v val) val {
				s, ok := v.(*sym)
				if !ok {
					return v
				}
				if s.op == "elem" && len(s.args) == 2 && s.args[0].key() == sel.k {
					return mkSym("elem", s.typ, cols, s.args[1])
				}
				args := make([]val, len(s.args))
				for i := range args {
					args[i] = rec(s.args[i])
				}
				return mkSym(s.op, s.typ, args...)
			}
			var all func(in []item) []item
			all = func(in []item) []item {
				q := append([]item{}, in...)
				for i := range q {
					if q[i].v != nil {
						q[i].v = rec(q[i].v)
					}
					if q[i].col != nil {
						q[i].col = rec(q[i].col)
					}
					ps := make([][]item, len(q[i].paths))
					for j := range ps {
						ps[j] = all(q[i].paths[j])
					}
					q[i].paths = ps
				}
				return q
			}
			ps := make([][]item, len(x.paths))
			for j := range ps {
				ps[j] = all(x.paths[j])
			}
			x.paths = ps
		}
		out[i] = x
	}
	return out
}

// flat splits loops over a list made of several parts into loops over the parts.
func (f *genFile) flat(in []seg) []seg {
	var out []seg
	for _, s := range in {
		if s.kind != segLoop || s.lp.partial {
			out = append(out, s)
			continue
		}
		var l *vList
		mixed := false
		var find func(v val)
		find = func(v val) {
			x, ok := v.(*sym)
			if !ok {
				return
			}
			if x.op == "elem" && len(x.args) == 2 {
				if y, ok := x.args[0].(*vList); ok {
					if l != nil && l.key() != y.key() {
						mixed = true
					}
					l = y
				}
			}
			for _, a := range x.args {
				find(a)
			}
		}
		for _, p := range s.paths {
			for _, q := range p {
				if q.kind == segOne {
					find(q.v)
				}
			}
		}
		if l == nil || mixed || !s.lp.to.eq(f.e.segsLen(f.g.st, l.segs)) {
			out = append(out, s)
			continue
		}
		off := poly{}
		var parts []seg
		ok := true
		for i, part := range l.segs {
			n := f.e.segLen(f.g.st, part)
			from := off
			if i == 0 {
				from = s.lp.from
				if c, is := from.constant(); !is || c > 1 || c == 1 && f.g.st.atoms["zero:"+n.String()] != false {
					ok = false
				} else if _, known := f.g.st.atoms["zero:"+n.String()]; c == 1 && !known {
					if k, is := n.constant(); !is || k < 1 {
						ok = false
					}
				}
			}
			lp := *s.lp
			lp.from, lp.to = from, off.add(n)
			var elem func(i poly) val
			switch part.kind {
			case segOne:
				elem = func(poly) val { return part.v }
			case segAll:
				o := off
				elem = func(i poly) val { return f.e.elem(part.v, part.from.add(i.sub(o)), nil) }
			default:
				ok = false
			}
			if !ok {
				break
			}
			var rec func(v val) val
			rec = func(v val) val {
				x, is := v.(*sym)
				if !is {
					return v
				}
				if x.op == "elem" && len(x.args) == 2 {
					if y, isL := x.args[0].(*vList); isL && y.key() == l.key() {
						if p, isP := asPoly(x.args[1]); isP {
							return elem(p)
						}
					}
				}
				args := make([]val, len(x.args))
				for i := range args {
					args[i] = rec(x.args[i])
				}
				return mkSym(x.op, x.typ, args...)
			}
			q := seg{kind: segLoop, lp: &lp}
			for _, p := range s.paths {
				var r []seg
				for _, y := range p {
					if y.kind == segOne {
						y.v = rec(y.v)
					}
					r = append(r, y)
				}
				q.paths = append(q.paths, r)
			}
			parts = append(parts, q)
			off = off.add(n)
		}
		if !ok {
			out = append(out, s)
			continue
		}
		out = append(out, parts...)
	}
	return out
}

// colOf is the column an element stands for, and how.
func colOf(v val) (kind string, c val) {
	s, ok := v.(*sym)
	if !ok || len(s.args) == 0 {
		return "", nil
	}
	switch s.op {
	case "name", "val", "addr", "pos":
		return s.op, s.args[0]
	case "posnum":
		t, _ := s.args[0].(vStr).d.constString()
		return "pos", mkSym(strings.TrimSuffix(strings.TrimPrefix(t, ".Pos("), ")"), nil)
	}
	return "", nil
}

// same: both elements stand for the same column, in the given ways.
func same(kx, ky string) func(x, y val) string {
	return func(x, y val) string {
		a, c := colOf(x)
		b, d := colOf(y)
		if a != kx || b != ky {
			return fmt.Sprintf("%s beside %s", keyOf(x), keyOf(y))
		}
		if c.key() != d.key() {
			return fmt.Sprintf("%s of %s beside %s of %s", a, c.key(), b, d.key())
		}
		return ""
	}
}

func tableList(name string) []seg {
	l := mkSym(name, nil, mkSym("T", nil))
	return []seg{{kind: segAll, v: l, from: poly{}, to: ps("len(" + l.k + ")")}}
}

// as wraps the elements of a list of columns.
func (f *genFile) as(op string, list []seg) []seg {
	var out []seg
	for i, s := range list {
		switch s.kind {
		case segAll:
			lp := &loopInfo{idx: fmt.Sprintf("i$t%s%d", op, i), from: s.from, to: s.to, conds: []pathCond{nil}}
			out = append(out, seg{kind: segLoop, lp: lp, paths: [][]seg{{{kind: segOne, v: mkSym(op, nil, mkSym("elem", nil, s.v, vInt{ps(lp.idx)}))}}}})
		case segOne:
			s.v = mkSym(op, nil, s.v)
			out = append(out, s)
		}
	}
	return out
}

// ---- statements

type genStmt struct {
	fn    *gfunc
	sql   doc
	args  []seg
	known bool // the arguments are determined
}

// statements lists the methods returning (string, []any).
func (f *genFile) statements() []*genStmt {
	var out []*genStmt
	for _, fn := range f.funcs {
		if gkey(fn.results) != "( string , [ ] any )" {
			continue
		}
		for _, r := range fn.returns() {
			s := &genStmt{fn: fn}
			if len(r) == 2 {
				s.sql = goText(r[0], nil)
				if l, ok := sliceLit(r[1]); ok {
					s.args, s.known = l, true
				} else if m, ok := methodCall(r[1]); ok {
					s.args, s.known = f.list(m)
				}
			}
			out = append(out, s)
		}
	}
	return out
}

// columnIdent: the identifier of a statement is the quoted name of a column.
func columnIdent(v val) (val, bool) {
	if v == nil {
		return nil, false
	}
	c, _, ok := nameOf(v)
	return c, ok
}

func (f *genFile) bindings(s *genStmt) []string {
	if !s.known {
		return []string{"the bound values are not determined"}
	}
	sc := &stmtCheck{e: f.e, st: f.g.st}
	ph := sc.items(tokens(f.g.dialect, s.sql), false)
	sc.numbers(ph, poly{})
	ph = f.known(ph)
	args := f.known(sc.argItems(f.flat(s.args)))
	if len(sc.problems) == 0 {
		sc.match(ph, args, 0, func(p, a item) {
			if p.col == nil {
				sc.bad("no column is found for the placeholder bound to %s", keyOf(a.v))
				return
			}
			c, ok := columnIdent(p.col)
			k, d := colOf(a.v)
			if !ok || k != "val" || c.key() != d.key() {
				sc.bad("the placeholder of %s is bound to %s", p.col.key(), keyOf(a.v))
			}
		})
	}
	return sc.problems
}

func checkP09(c *Ctx) {
	n := map[string]int{}
	pos := genPos(c)
	for _, f := range generated(c) {
		for _, s := range f.statements() {
			n[s.fn.name]++
			en := f.g.dialect + "." + s.fn.name
			if p := f.bindings(s); len(p) > 0 {
				c.Bad("statement", en, pos, "%s binds %s: %s (%s)", short(s.sql.key()), short(segsKey(s.args)), short(strings.Join(uniq(p), "; ")), short(f.facts()))
				continue
			}
			c.OK("statement", en, "%s binds %s", short(s.sql.key()), short(segsKey(s.args)))
		}
	}
	for _, name := range []string{"FindOneByPKStmt", "InsertOneStmt", "UpdateOneByPKStmt"} {
		c.Check(n[name] >= 10, "statement-kinds", name, pos, "%s is generated on %d paths", name, n[name])
	}
	c.Min("statement", 100)
	c.Min("interpretable", 5)
}

func genPos(c *Ctx) token.Pos {
	for _, r := range genRuns {
		if r.pos.IsValid() {
			return r.pos
		}
	}
	if d, _ := genEntry(c.L); d != nil {
		return d.fd.Pos()
	}
	return token.NoPos
}

// ---- P10

func checkP10(c *Ctx) {
	files := generated(c)
	pos := genPos(c)
	for _, f := range files {
		en := func(s string) string { return f.g.dialect + "." + s }
		report := func(rule, name string, p []string, okMsg string) {
			if len(p) > 0 {
				c.Bad(rule, en(name), pos, "%s (%s)", short(strings.Join(uniq(p), "; ")), short(f.facts()))
			} else {
				c.OK(rule, en(name), "%s", okMsg)
			}
		}
		all := tableList(".Columns")
		cols, ok := f.list("Columns")
		if !ok {
			c.Bad("columns", en("Columns"), pos, "no list of column names is generated (%s)", short(f.facts()))
			continue
		}
		report("columns", "Columns", f.pairs(cols, f.as("name", all), "Columns", sameName), "every column, in order")
		addrs, ok := f.list("Addrs")
		if !ok {
			c.Bad("destinations", en("Addrs"), pos, "no list of destinations is generated (%s)", short(f.facts()))
		} else {
			report("destinations", "Addrs", f.pairs(cols, addrs, "Columns and Addrs", same("name", "addr")), "destinations follow the columns")
			report("destinations", "Addrs nil", f.allocates(), "every embedded pointer is allocated before its fields are used")
		}
		vals, hasVals := f.list("Values")
		if f.by["Values"] != nil && !hasVals {
			c.Bad("values", en("Values"), pos, "the list of values is not determined (%s)", short(f.facts()))
		}
		ins, hasIns := f.list("InsertColumns")
		if f.by["InsertColumns"] != nil && !hasIns {
			c.Bad("values", en("InsertColumns"), pos, "the list of insertable columns is not determined (%s)", short(f.facts()))
		}
		if hasVals {
			names := cols
			what := "Columns and Values"
			if hasIns {
				names, what = ins, "InsertColumns and Values"
			}
			report("values", "Values", f.pairs(names, vals, what, same("name", "val")), what+" line up")
		} else {
			c.Check(f.by["InsertColumns"] == nil && f.by["InsertPlaceholders"] == nil, "values", en("Values"), pos, "insert columns and placeholders come with values (%s)", short(f.facts()))
		}
		if fn := f.by["InsertPlaceholders"]; fn != nil {
			report("placeholders", "InsertPlaceholders", f.placeholders(vals), "as many placeholders as values, numbered row by row")
		} else {
			c.Check(!hasVals, "placeholders", en("InsertPlaceholders"), pos, "values come with placeholders (%s)", short(f.facts()))
		}
		if l, ok := f.list("SQLColumns"); ok {
			report("select-names", "SQLColumns", f.pairs(l, f.as("name", all), "SQLColumns", sameSelect), "one expression for every column, in order")
		} else if f.by["SQLColumns"] != nil {
			c.Bad("select-names", en("SQLColumns"), pos, "the list of select expressions is not determined (%s)", short(f.facts()))
		}
		for _, s := range f.statements() {
			report("select-list", s.fn.name, f.selected(s), "the columns read are all columns in order")
		}
		report("keys", "key", f.keys(), "names, positions and values of the key belong together")
		p, n := f.getters()
		report("getter", "getters", p, fmt.Sprintf("%d functions of one column each", n))
		p, n = f.accessors()
		report("accessor", "accessors", p, fmt.Sprintf("%d functions of one column each", n))
	}
	columnPos(c)
	c.Min("columns", 60)
	c.Min("destinations", 120)
	c.Min("values", 60)
	c.Min("placeholders", 60)
	c.Min("select-list", 60)
	c.Min("keys", 60)
	c.Min("getter", 60)
	c.Min("accessor", 60)
	c.Min("interpretable", 5)
}

func sameName(x, y val) string { return same("name", "name")(x, dropQuote(y)) }

func dropQuote(v val) val { return v }

// sameSelect: the expression reads the column, through a function or not.
func sameSelect(x, y val) string {
	_, d := colOf(y)
	if k, c := colOf(x); k == "name" {
		if c.key() != d.key() {
			return fmt.Sprintf("%s beside %s", c.key(), d.key())
		}
		return ""
	}
	s, ok := x.(*sym)
	if ok && s.op == "gostr" {
		n := 0
		for _, p := range s.args[0].(vStr).d {
			if p.kind == pHole {
				if c, _, ok := nameOf(p.v); ok {
					if c.key() != d.key() {
						return fmt.Sprintf("%s beside %s", c.key(), d.key())
					}
					n++
				}
			}
		}
		if n > 0 {
			return ""
		}
	}
	return fmt.Sprintf("%s beside %s", keyOf(x), keyOf(y))
}

// allocates: Addrs allocates the pointers on the way to the fields.
func (f *genFile) allocates() []string {
	fn := f.only("Addrs")
	if fn == nil {
		return []string{"Addrs is not generated once"}
	}
	if !fn.isPtr() {
		return []string{"Addrs works on a copy"}
	}
	// the statements before the return: for every pointer path p of the table,
	// if v<p> == nil { v<p> = new(...) }
	for i, t := range fn.body {
		if t.isWord("return") {
			break
		}
		if t.kind != 'l' {
			return []string{"unexpected " + t.key() + " before the destinations"}
		}
		if !t.lp.from.eq(poly{}) || t.lp.partial || t.lp.to.String() != "len(m:GoPtrPaths(T))" {
			return []string{"not every pointer path is visited: " + t.key()}
		}
		for _, p := range t.paths {
			k := gkey(p)
			path := "«\"v\" .GoPath(elem(m:GoPtrPaths(T)," + t.lp.idx + "))»"
			if !strings.HasPrefix(k, "if "+path+" = = nil { "+path+" = new (") {
				return []string{"a pointer is not allocated when it is nil: " + short(k)}
			}
		}
		if i == 0 {
			return nil
		}
	}
	return []string{"embedded pointers are not allocated"}
}

// placeholders checks InsertPlaceholders against the values.
func (f *genFile) placeholders(vals []seg) []string {
	fn := f.only("InsertPlaceholders")
	if fn == nil {
		return []string{"InsertPlaceholders is not generated once"}
	}
	env := map[string]poly{}
	// the parameter
	if len(fn.params) > 0 && fn.params[0].kind == 'w' {
		if s, ok := fn.params[0].d.constString(); ok {
			env[s] = ps("row")
		}
	}
	// local constants
	for i := 0; i+3 < len(fn.body); i++ {
		if (fn.body[i].isWord("const") || fn.body[i].isWord("var")) && fn.body[i+1].kind == 'w' && fn.body[i+2].isPunct("=") {
			j := i + 3
			for j < len(fn.body) && !fn.body[j].isWord("return") && !fn.body[j].isWord("const") && !fn.body[j].isWord("var") {
				j++
			}
			if s, ok := fn.body[i+1].d.constString(); ok {
				if p, ok := goNumber(fn.body[i+3:j], env); ok {
					env[s] = p
				}
			}
		}
	}
	r := fn.returns()
	if len(r) != 1 || len(r[0]) != 1 {
		return []string{"InsertPlaceholders does not return one text"}
	}
	d := goText(r[0][0], env)
	toks := tokens(f.g.dialect, d)
	if len(toks) != 1 || toks[0].kind != tGroup || !onlyPh(toks[0].sub) {
		return []string{"the placeholders of a row are not one group: " + short(d.key())}
	}
	sc := &stmtCheck{e: f.e, st: f.g.st}
	its := sc.items(toks[0].sub, false)
	n, m := sc.count(its), sc.count(sc.argItems(vals))
	if !n.eq(m) && !f.zero(n.sub(m)) {
		sc.bad("%s placeholders for %s values", n, m)
	}
	if numbered, _ := numberedOf(f.g.dialect); numbered {
		sc.numbers(its, ps("row").mul(n))
	}
	return sc.problems
}

// selected checks the columns a statement reads.
func (f *genFile) selected(s *genStmt) []string {
	toks := tokens(f.g.dialect, s.sql)
	var out []string
	for i, t := range toks {
		if t.kind != tWord || t.s != "SELECT" && t.s != "RETURNING" {
			continue
		}
		j := i + 1
		for j < len(toks) && !(toks[j].kind == tWord && toks[j].s == "FROM") && !(toks[j].kind == tPunct && toks[j].s == ";") {
			j++
		}
		list, p := selectItems(toks[i+1 : j])
		out = append(out, p...)
		out = append(out, f.pairs(list, f.as("name", tableList(".Columns")), t.s, sameName)...)
	}
	return out
}

// selectItems: one element for each expression of a select list: the column it
// names.
func selectItems(in []tk) (list []seg, problems []string) {
	var cur []tk
	end := func() {
		if len(cur) == 0 {
			return
		}
		var holes []val
		var rec func(in []tk)
		rec = func(in []tk) {
			for _, t := range in {
				if t.kind == tHole {
					holes = append(holes, t.v)
				}
				rec(t.sub)
			}
		}
		rec(cur)
		v := val(mkSym("?select", nil))
		for i, h := range holes {
			c, q, ok := nameOf(h)
			if !ok {
				continue
			}
			nv := mkSym("name", nil, c, vBool(q))
			if i > 0 && v.key() != nv.key() && !strings.HasPrefix(v.key(), "?") {
				problems = append(problems, "an expression of two columns")
			}
			v = nv
		}
		list = append(list, seg{kind: segOne, v: v})
		cur = nil
	}
	for _, t := range in {
		switch {
		case t.kind == tPunct && t.s == ",":
			end()
		case t.kind == tLoop:
			end()
			s := seg{kind: segLoop, lp: t.lp}
			for _, p := range t.paths {
				l, pr := selectItems(p)
				problems = append(problems, pr...)
				s.paths = append(s.paths, l)
			}
			list = append(list, s)
		case t.kind == tJoin:
			end()
			for _, x := range t.list {
				list = append(list, nameSeg(x))
			}
		default:
			cur = append(cur, t)
		}
	}
	end()
	return list, problems
}

// nameSeg turns identifiers into names of columns.
func nameSeg(s seg) seg {
	conv := func(v val) val {
		if c, q, ok := nameOf(v); ok {
			return mkSym("name", nil, c, vBool(q))
		}
		return v
	}
	switch s.kind {
	case segOne:
		s.v = conv(s.v)
	case segLoop:
		ps := make([][]seg, len(s.paths))
		for i := range s.paths {
			for _, x := range s.paths[i] {
				ps[i] = append(ps[i], nameSeg(x))
			}
		}
		s.paths = ps
	}
	return s
}

// hasKey: the file says that the table has a key.
func (f *genFile) hasKey() bool { return f.by["HasPK"] != nil }

// key is the key the table has on this path.
func (f *genFile) key() (list []seg, ok bool) {
	auto := mkSym(".autoIncrKey", nil, mkSym("T", nil))
	if v, known := f.g.st.atoms["nil:"+auto.k]; known && !v {
		return []seg{{kind: segOne, v: auto}}, true
	} else if !known {
		return nil, false
	}
	keys := mkSym(".Keys", nil, mkSym("T", nil))
	n := ps("len(" + keys.k + ")")
	if f.zero(n.sub(pc(1))) {
		return []seg{{kind: segOne, v: mkSym("elem", nil, keys, vInt{poly{}})}}, true
	}
	return []seg{{kind: segAll, v: keys, from: poly{}, to: n}}, true
}

func (f *genFile) keys() []string {
	if !f.hasKey() {
		for _, n := range []string{"PK", "CompositeKey", "IsAutoIncr", "ScanAutoIncr"} {
			if f.by[n] != nil {
				return []string{n + " without HasPK"}
			}
		}
		return nil
	}
	var out []string
	for name, n := range map[string]int{"PK": 3, "CompositeKey": 3} {
		fn := f.only(name)
		if fn == nil {
			continue
		}
		r := fn.returns()
		if len(r) != 1 || len(r[0]) != n {
			out = append(out, name+" does not return a name, a position and a value")
			continue
		}
		var parts [3][]seg
		for i, p := range r[0] {
			if name == "PK" {
				parts[i] = elements(p)
			} else if l, ok := sliceLit(p); ok {
				parts[i] = l
			} else {
				out = append(out, name+": a list is not determined")
			}
		}
		out = append(out, f.pairs(parts[0], parts[1], name+" names and positions", same("name", "pos"))...)
		out = append(out, f.pairs(parts[0], parts[2], name+" names and values", same("name", "val"))...)
	}
	return out
}

// columnsIn lists the columns mentioned anywhere in the tokens.
func columnsIn(in []gtok, set map[string]bool) {
	var fromVal func(v val)
	var fromDoc func(d doc)
	fromVal = func(v val) {
		switch v := v.(type) {
		case *sym:
			if strings.HasPrefix(v.op, ".") && len(v.args) == 1 && isColumnField[v.op[1:]] {
				if !isPathElem(v.args[0]) {
					set[v.args[0].key()] = true
				}
			}
			for _, a := range v.args {
				fromVal(a)
			}
		case vStr:
			fromDoc(v.d)
		}
	}
	fromDoc = func(d doc) {
		for _, p := range d {
			if p.v != nil {
				fromVal(p.v)
			}
			for _, q := range p.paths {
				fromDoc(q)
			}
			if p.d != nil {
				fromDoc(p.d)
			}
		}
	}
	for _, t := range in {
		fromDoc(t.d)
		for _, p := range t.paths {
			columnsIn(p, set)
		}
	}
}

var isColumnField = map[string]bool{"Name": true, "GoName": true, "GoPath": true, "Type": true, "Pos": true}

// isPathElem: a pointer path of a column, not a column; or the table.
func isPathElem(v val) bool {
	if s, ok := v.(*sym); ok {
		if s.op == "T" {
			return true
		}
		if s.op == "elem" && len(s.args) == 2 {
			l, ok := s.args[0].(*sym)
			return ok && l.op == "m:GoPtrPaths"
		}
		if strings.HasPrefix(s.op, ".Pkg") || s.op == "schema" {
			return true
		}
	}
	return false
}

// perColumn checks a family of functions written once for every column.
func (f *genFile) perColumn(sel func(fn *gfunc, c val) bool, check func(fn *gfunc, c string) string) (problems []string, n int) {
	loops := map[string]bool{}
	for _, fn := range f.funcs {
		if fn.lp == nil || len(fn.recv) == 0 {
			continue
		}
		var c val
		for _, p := range fn.nameDoc {
			if p.kind == pHole {
				if x, ok := fieldOf(p.v, "GoName"); ok {
					c = x
				}
			}
		}
		if c == nil || !sel(fn, c) {
			continue
		}
		n++
		want := "elem(.Columns(T)," + fn.lp.idx + ")"
		if c.key() != want || !fn.lp.from.eq(poly{}) || fn.lp.to.String() != "len(.Columns(T))" || fn.lp.partial {
			problems = append(problems, fn.name+" is not written for every column")
			continue
		}
		set := map[string]bool{}
		columnsIn(fn.body, set)
		columnsIn(fn.results, set)
		columnsIn(fn.recv, set)
		for k := range set {
			if k != want {
				problems = append(problems, fn.name+" uses the column "+k)
			}
		}
		if msg := check(fn, want); msg != "" {
			problems = append(problems, fn.name+": "+msg)
		}
		loops[fn.lp.idx] = true
	}
	// every way through the loop writes the function
	seen := map[*loopInfo]map[string]bool{}
	for _, fn := range f.funcs {
		if fn.lp != nil {
			if seen[fn.lp] == nil {
				seen[fn.lp] = map[string]bool{}
			}
		}
	}
	if n == 0 {
		problems = append(problems, "none is generated")
	}
	return problems, n
}

func (f *genFile) getters() ([]string, int) {
	p, n := f.perColumn(func(fn *gfunc, c val) bool {
		return len(fn.nameDoc) == 2 && fn.nameDoc[1].kind == pLit && fn.nameDoc[1].s == "Value" && gkey(fn.results) == "any"
	}, func(fn *gfunc, c string) string {
		rs := fn.returns()
		if len(rs) == 0 {
			return "nothing is returned"
		}
		ok := 0
		for _, r := range rs {
			if len(r) != 1 {
				return "returns several values"
			}
			// closing braces written from a list belong to the guards
			e := r[0]
			for len(e) > 1 && (e[len(e)-1].kind == 'l' || e[len(e)-1].isPunct("}")) {
				e = e[:len(e)-1]
			}
			if gkey(e) == "nil" {
				continue
			}
			if len(e) == 1 && e[0].kind == 'w' && len(e[0].d) == 1 && e[0].d[0].kind == pHole {
				if s, is := asSym(e[0].d[0].v, "write", 2); is && writesField(s, c, "v") {
					ok++
					continue
				}
			}
			return "returns " + short(gkey(e))
		}
		if ok != 1 {
			return "the value of the column is not returned exactly once"
		}
		return f.guarded(fn, c)
	})
	return p, n
}

// writesField: write("v".GoPath(c), Type(c)) or write("*v".GoPath(c), Elem(Type(c)))
func writesField(s *sym, c, v string) bool {
	pd := toDoc(s.args[0])
	if len(pd) == 0 || pd[0].kind != pLit {
		return false
	}
	t := plainHole(s.args[1]).key()
	path := ""
	if len(pd) == 2 && pd[1].kind == pHole {
		path = pd[1].v.key()
	} else if len(pd) == 1 {
		path = ".GoPath(" + c + ")"
		if v == "v" {
			return false
		}
	}
	if path != ".GoPath("+c+")" {
		return false
	}
	switch pd[0].s {
	case v:
		return t == ".Type("+c+")"
	case "*" + v:
		return t == "m:Elem(.Type("+c+"))" || t == "m:Elem(nil)"
	}
	return false
}

// guarded: the value is read only after every pointer on its path is known.
func (f *genFile) guarded(fn *gfunc, c string) string {
	guard := false
	for _, t := range fn.body {
		if t.isWord("return") {
			break
		}
		if t.kind != 'l' {
			continue
		}
		if t.lp.to.String() == "len(m:GoPtrPaths("+c+"))" && t.lp.from.eq(poly{}) && !t.lp.partial {
			all := true
			for _, p := range t.paths {
				if gkey(p) != "if «\"v\" .GoPath(elem(m:GoPtrPaths("+c+"),"+t.lp.idx+"))» ! = nil {" {
					all = false
				}
			}
			guard = guard || all
		}
	}
	if !guard {
		// a column without pointers on its path needs no guard
		for _, l := range fn.cond {
			if l.atom == "zero:len(m:GoPtrPaths("+c+"))" && l.pos {
				return ""
			}
		}
		return "nil pointers on the path are not checked"
	}
	return ""
}

func (f *genFile) accessors() ([]string, int) {
	return f.perColumn(func(fn *gfunc, c val) bool {
		return strings.HasPrefix(gkey(fn.results), "sequel.Column")
	}, func(fn *gfunc, c string) string {
		rs := fn.returns()
		if len(rs) == 0 || len(rs[0]) != 1 {
			return "no column is returned"
		}
		in := rs[0][0]
		if len(in) < 2 || in[0].kind != 'w' {
			return "returns " + short(gkey(in))
		}
		ctor, _ := in[0].d.constString()
		inner, rest, ok := enclosed(in[1:], "(", ")")
		if !ok || len(rest) != 0 {
			return "returns " + short(gkey(in))
		}
		args := splitTop(inner, ",")
		if len(args) < 2 {
			return "a column without name and value"
		}
		if k, x := colOf(goValue(args[0])); k != "name" || x.key() != c {
			return "named " + short(gkey(args[0]))
		}
		if got := gkey(args[1]); got != "«\"v\" .GoPath("+c+")»" {
			return "holds " + short(got)
		}
		switch {
		case ctor == "sequel.BasicColumn" && len(args) == 2:
			// the plain column binds the field as it is: only for driver values
			if !f.basic(fn, c) {
				return "a plain column for a field which needs conversion"
			}
			return ""
		case ctor == "sequel.Column" && len(args) == 3:
			conv := args[2]
			found := false
			for _, t := range conv {
				if t.kind == 'w' && len(t.d) == 1 && t.d[0].kind == pHole {
					if s, is := asSym(t.d[0].v, "write", 2); is {
						if !writesVal(s, c) {
							return "converts with " + short(s.k)
						}
						found = true
					}
				}
			}
			if !found {
				return "the conversion does not write the value"
			}
			return ""
		}
		return "built by " + ctor
	})
}

// basic: on this path the type of the column is a driver value itself.
func (f *genFile) basic(fn *gfunc, c string) bool {
	for _, l := range fn.cond {
		if l.pos && strings.HasPrefix(l.atom, "t:") && strings.HasSuffix(l.atom, "(.Type("+c+"))") {
			return true
		}
		if l.pos && strings.HasPrefix(l.atom, "true:t:") && strings.HasSuffix(l.atom, "(.Type("+c+"))") {
			return true
		}
	}
	return false
}

// writesVal: write("val", Type(c)) or write("*val", Elem(Type(c)))
func writesVal(s *sym, c string) bool {
	p, ok := toDoc(s.args[0]).constString()
	t := plainHole(s.args[1]).key()
	if !ok {
		return false
	}
	if strings.HasPrefix(p, "*") {
		return t == "m:Elem(.Type("+c+"))" || t == "m:Elem(nil)"
	}
	return t == ".Type("+c+")"
}

// columnPos: the position of a column is its index in the list of columns.
