package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	const how = "abstract interpretation of the expanded helper templates: "
	register("P33", how+"on every path of QueryStmt, QueryOneStmt, ExecStmt and the pager, each option of the caller's statement must be written in its own clause, completely and in SQL order, unless the path condition says that the option is not set", checkP33)
	register("P34", how+"on every path of Upsert and UpsertOne, the conflict part must match the options, its assignment list must pass over every column, skip exactly the columns of an omission list which contains the whole key and the caller's omissions, and assign each column its own inserted value", checkP34)
}

// optCheck reads the clauses of one statement built from options.
type optCheck struct {
	e   *absEngine
	st  *state
	s   string // key of the options value
	bad []string
}

func (o *optCheck) fail(s string) { o.bad = append(o.bad, s) }

func (o *optCheck) field(name string) string { return "." + name + "(" + o.s + ")" }

func (o *optCheck) isField(v val, name string) bool { return plainHole(v).key() == o.field(name) }

// unset: the path condition says the option is not set.
func (o *optCheck) unset(name string) bool {
	f := o.field(name)
	for _, a := range []string{"nil:" + f, "zero:len(" + f + ")", "zero:" + f, "empty:" + f, "eq0:-" + f, "eq0:" + f, "lt0:-1+" + f} {
		if o.st.atoms[a] {
			return true
		}
	}
	positive, asked := o.st.atoms["lt0:-"+f]
	return asked && !positive
}

// cover checks that the tokens enumerate the whole list option, separated by
// commas; one checks the tokens of one element.
func (o *optCheck) cover(in []tk, name string, one func(in []tk, idx string, cond pathCond) bool) bool {
	pos := poly{}
	needComma := false
	i := 0
	for i < len(in) {
		if in[i].kind == tLoop {
			x := in[i]
			if !x.lp.from.eq(pos) || x.lp.partial {
				return false
			}
			lead, trail := 0, 0
			for pi, p := range x.paths {
				if len(p) == 0 {
					return false
				}
				body := p
				l := body[0].kind == tPunct && body[0].s == ","
				t := body[len(body)-1].kind == tPunct && body[len(body)-1].s == ","
				if l {
					body = body[1:]
				}
				if t {
					body = body[:len(body)-1]
				}
				isFirst := loopFirst(x.lp, pi)
				switch {
				case l && !isFirst:
					lead++
				case !l && isFirst:
					lead++
				}
				if t {
					trail++
				}
				if !one(body, x.lp.idx, x.lp.conds[pi]) {
					return false
				}
			}
			if lead != len(x.paths) && trail != len(x.paths) && trail == 0 {
				return false
			}
			if needComma && lead != len(x.paths) {
				return false
			}
			needComma = trail != len(x.paths)
			pos = x.lp.to
			i++
			continue
		}
		j := i
		if in[j].kind == tPunct && in[j].s == "," {
			if !needComma {
				return false
			}
			needComma = false
			i++
			continue
		}
		for j < len(in) && in[j].kind != tLoop && !(in[j].kind == tPunct && in[j].s == ",") {
			j++
		}
		if needComma {
			return false
		}
		n, ok := pos.constant()
		if !ok {
			return false
		}
		_ = n
		if !one(in[i:j], pos.String(), nil) {
			return false
		}
		pos = pos.add(pc(1))
		needComma = true
		i = j
	}
	return pos.eq(ps("len("+o.field(name)+")")) || pos.String() == "len("+o.field(name)+")"
}

func (o *optCheck) elem(v val, name, idx string) bool {
	el, ok := asSym(v, "elem", 2)
	return ok && el.args[0].key() == o.field(name) && el.args[1].key() == idx
}

// ascending: what the path says about the direction of an order clause.
func (o *optCheck) ascending(clause string, cond pathCond) (asc, known bool) {
	for _, l := range cond {
		if l.atom == "m:Asc("+clause+")" {
			return l.pos, true
		}
		if l.atom == "m:Desc("+clause+")" {
			return !l.pos, true
		}
	}
	if v, ok := o.st.atoms["m:Asc("+clause+")"]; ok {
		return v, true
	}
	if v, ok := o.st.atoms["m:Desc("+clause+")"]; ok {
		return !v, true
	}
	return false, false
}

func (o *optCheck) orderItem(in []tk, idx string, cond pathCond) bool {
	if len(in) == 0 || len(in) > 2 || in[0].kind != tHole {
		return false
	}
	c, ok := asSym(in[0].v, "m:ColumnName", 1)
	if !ok || !o.elem(c.args[0], "OrderBy", idx) {
		return false
	}
	asc, known := o.ascending(c.args[0].key(), cond)
	if !known {
		return false
	}
	if len(in) == 1 {
		return asc
	}
	return in[1].kind == tWord && (in[1].s == "ASC" && asc || in[1].s == "DESC" && !asc)
}

// keywords which begin a clause
var clauseWords = map[string]bool{"SELECT": true, "FROM": true, "UPDATE": true, "DELETE": true, "SET": true, "WHERE": true, "GROUP": true, "ORDER": true, "LIMIT": true, "OFFSET": true, "HAVING": true}
var clauseOrder = []string{"SELECT", "UPDATE", "DELETE", "FROM", "SET", "WHERE", "GROUP", "HAVING", "ORDER", "LIMIT", "OFFSET"}

// clauses splits a statement by its keywords.
func (o *optCheck) clauses(in []tk) map[string][]tk {
	out := map[string][]tk{}
	last := -1
	i := 0
	for i < len(in) {
		x := in[i]
		if x.kind == tPunct && x.s == ";" {
			if i != len(in)-1 {
				o.fail("text follows the end of the statement")
			}
			i++
			continue
		}
		if x.kind != tWord || !clauseWords[x.s] {
			o.fail("the statement has unexpected text before its next clause")
			return out
		}
		w := x.s
		at := 0
		for k, c := range clauseOrder {
			if c == w {
				at = k
			}
		}
		if _, dup := out[w]; dup || at <= last {
			o.fail("clause " + w + " is out of order")
		}
		last = at
		j := i + 1
		if (w == "GROUP" || w == "ORDER") && j < len(in) && in[j].kind == tWord && in[j].s == "BY" {
			j++
		}
		k := j
		for k < len(in) && !(in[k].kind == tWord && clauseWords[in[k].s]) && !(in[k].kind == tPunct && in[k].s == ";") {
			k++
		}
		out[w] = in[j:k]
		i = k
	}
	return out
}

func (o *optCheck) tableClause(in []tk, name string) {
	if len(in) > 2 && in[0].kind == tHole && in[1].kind == tPunct && in[1].s == "." {
		if _, ok := asSym(in[0].v, "m:DatabaseName", 1); !ok {
			o.fail("the database is not the model's")
		}
		in = in[2:]
	}
	if len(in) != 1 || in[0].kind != tHole {
		o.fail("the table is not one name")
		return
	}
	if o.isField(in[0].v, name) {
		return
	}
	if _, ok := asSym(in[0].v, "m:TableName", 1); ok {
		if !o.unset(name) {
			o.fail("the model's table is used although " + name + " may be set")
		}
		return
	}
	o.fail("the table is neither the option nor the model's table")
}

// check reads one statement; fields are the options of its kind.
func (o *optCheck) check(verb string, fields map[string]bool, in []tk) {
	cl := o.clauses(in)
	has := func(w string) bool { _, ok := cl[w]; return ok }
	if !has(verb) {
		o.fail("the statement is not a " + verb)
		return
	}
	need := func(option, clause string, ok func(in []tk) bool) {
		if !fields[option] {
			if has(clause) && !(clause == "LIMIT" && verb == "SELECT") {
				o.fail("clause " + clause + " belongs to no option")
			}
			return
		}
		if !has(clause) {
			if !o.unset(option) {
				o.fail("option " + option + " is left out of the statement")
			}
			return
		}
		if !ok(cl[clause]) {
			o.fail("clause " + clause + " does not render option " + option)
		}
	}
	switch verb {
	case "SELECT":
		n, ok := names(cl["SELECT"])
		switch {
		case len(cl["SELECT"]) == 1 && cl["SELECT"][0].kind == tPunct && cl["SELECT"][0].s == "*":
			if !o.unset("Select") {
				o.fail("option Select is left out of the statement")
			}
		case !ok:
			o.fail("the selected columns are not a list of names")
		default:
			o.selected(n)
		}
		o.tableClause(cl["FROM"], "FromTable")
	case "DELETE":
		o.tableClause(cl["FROM"], "FromTable")
	case "UPDATE":
		o.tableClause(cl["UPDATE"], "Table")
	}
	need("Set", "SET", func(in []tk) bool {
		return o.cover(in, "Set", func(in []tk, idx string, _ pathCond) bool {
			return len(in) == 1 && in[0].kind == tOpaque && in[0].s == "elem("+o.field("Set")+","+idx+")"
		})
	})
	need("Where", "WHERE", func(in []tk) bool {
		for len(in) == 1 && in[0].kind == tGroup {
			in = in[0].sub
		}
		return len(in) == 1 && in[0].kind == tOpaque && in[0].s == o.field("Where")
	})
	need("GroupBy", "GROUP", func(in []tk) bool {
		if len(in) == 1 && in[0].kind == tJoin {
			l := in[0].list
			return len(l) == 1 && l[0].kind == segAll && l[0].v.key() == o.field("GroupBy") && len(l[0].from) == 0 && l[0].to.String() == "len("+o.field("GroupBy")+")"
		}
		return o.cover(in, "GroupBy", func(in []tk, idx string, _ pathCond) bool {
			return len(in) == 1 && in[0].kind == tHole && o.elem(in[0].v, "GroupBy", idx)
		})
	})
	need("OrderBy", "ORDER", func(in []tk) bool { return o.cover(in, "OrderBy", o.orderItem) })
	need("Limit", "LIMIT", func(in []tk) bool {
		return len(in) == 1 && in[0].kind == tNum && in[0].num.String() == o.field("Limit")
	})
	need("Offset", "OFFSET", func(in []tk) bool {
		return len(in) == 1 && in[0].kind == tNum && in[0].num.String() == o.field("Offset")
	})
	if !fields["Limit"] && verb == "SELECT" {
		if l := cl["LIMIT"]; len(l) != 1 || l[0].s != "1" && l[0].num.String() != "1" {
			o.fail("a single-record query without LIMIT 1")
		}
	}
}

func (o *optCheck) selected(n []seg) {
	if len(n) == 1 {
		s := n[0]
		if s.kind == segLoop {
			if a, ok := loopAsAll(s); ok {
				s = a
			}
		}
		if s.kind == segAll && len(s.from) == 0 && s.to.eq(o.e.length(o.st, s.v)) {
			if o.isField(s.v, "Select") {
				return
			}
			if v, ok := s.v.(*sym); ok && (v.op == "m:Columns" || v.op == "m:SQLColumns") {
				if !o.unset("Select") {
					o.fail("option Select is left out of the statement")
				}
				return
			}
		}
	}
	// written element by element
	o.fail("the selected columns are neither option Select nor the model's columns")
}

func structFields(t types.Type) map[string]bool {
	out := map[string]bool{}
	if s, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			out[s.Field(i).Name()] = true
		}
	}
	return out
}

// optionsOf finds the options value of a helper: the result of its callback.
func optionsOf(c *Ctx, entry string) string {
	d, f, _ := strings.Cut(entry, ".")
	o, ok := c.L.pkgs[helperPkgPath(d)].Types.Scope().Lookup(f).(*types.Func)
	if !ok {
		return ""
	}
	sg := o.Type().(*types.Signature)
	for i := 0; i < sg.Params().Len(); i++ {
		if _, ok := sg.Params().At(i).Type().Underlying().(*types.Signature); ok {
			return "call(p:" + sg.Params().At(i).Name() + ",zero)"
		}
	}
	return ""
}

var optionKinds = map[string][]struct{ typ, verb string }{
	"QueryStmt":    {{"SelectStmt", "SELECT"}},
	"QueryOneStmt": {{"SelectOneStmt", "SELECT"}},
	"ExecStmt":     {{"UpdateStmt", "UPDATE"}, {"DeleteStmt", "DELETE"}},
}

var knownOptions = map[string]bool{"Select": true, "FromTable": true, "Table": true, "Set": true, "Where": true, "OrderBy": true, "GroupBy": true, "Limit": true, "Offset": true}

func checkP33(c *Ctx) {
	r := runHelpers(c.L)
	count := map[string]int{}
	for _, s := range r.sents {
		dn, f, _ := strings.Cut(s.entry, ".")
		d, ok := queryDoc(s.query)
		scope := c.L.pkgs[helperPkgPath(dn)].Types.Scope()
		if kinds, is := optionKinds[f]; is {
			if !ok {
				c.Bad("options", s.entry, s.pos, "the text of the statement is not determined")
				continue
			}
			o := &optCheck{e: r.eng[s.entry], st: s.st, s: optionsOf(c, s.entry)}
			toks := tokens(s.dialect, d)
			kind := kinds[0]
			if len(kinds) > 1 {
				found := false
				for _, k := range kinds {
					for _, fa := range s.st.is {
						if n, ok := fa.t.(*types.Named); ok && fa.yes && fa.k == o.s && n.Obj().Name() == k.typ {
							kind, found = k, true
						}
					}
				}
				if !found {
					// neither kind: cannot happen for the declared types
					continue
				}
			}
			t := scope.Lookup(kind.typ)
			if t == nil {
				c.Bad("options", s.entry, s.pos, "type %s is not declared", kind.typ)
				continue
			}
			fields := structFields(t.Type())
			o.check(kind.verb, fields, toks)
			count[s.entry+"/"+kind.typ]++
			if len(o.bad) > 0 {
				c.Bad("options", s.entry+"/"+kind.typ, s.pos, "%s: %s", short(d.key()), short(strings.Join(uniq(o.bad), "; ")))
				continue
			}
			c.OK("options", s.entry, "%s", short(d.key()))
			continue
		}
		if strings.HasPrefix(f, "Pager.") && ok {
			o := &optCheck{e: r.eng[s.entry], st: s.st, s: ""}
			checkPagerFilter(c, o, s, d)
			count[s.entry]++
		}
	}
	for _, d := range specDialects {
		scope := c.L.pkgs[helperPkgPath(d.Name)].Types.Scope()
		for f, kinds := range optionKinds {
			en := d.Name + "." + f
			c.Analysed(en)
			if p := r.problems[en]; len(p) > 0 {
				c.Bad("interpretable", en, token.NoPos, "the helper cannot be followed: %s", short(strings.Join(p, "; ")))
			}
			for _, k := range kinds {
				c.Check(count[en+"/"+k.typ] > 0, "option-kinds", en+"/"+k.typ, token.NoPos, "%s builds %d statement shapes from %s", en, count[en+"/"+k.typ], k.typ)
				if t := scope.Lookup(k.typ); t != nil {
					for n := range structFields(t.Type()) {
						c.Check(knownOptions[n], "option-known", en+"/"+k.typ+"."+n, t.Pos(), "option %s.%s has a clause", k.typ, n)
					}
				}
			}
		}
		for _, f := range []string{"Pager.Next", "Pager.Prev"} {
			en := d.Name + "." + f
			c.Analysed(en)
			if p := r.problems[en]; len(p) > 0 {
				c.Bad("interpretable", en, token.NoPos, "the helper cannot be followed: %s", short(strings.Join(p, "; ")))
			}
			c.Check(count[en] > 0, "option-kinds", en, token.NoPos, "%s builds %d statement shapes", en, count[en])
		}
	}
	checkColumns(c)
	templateContract(c, "driver", "quoteVar", "varRune")
	c.Min("options", 200)
}

// checkPagerFilter: the pager's own condition is joined to the caller's filter
// by AND, with the filter in parentheses; the caller's order comes first.
func checkPagerFilter(c *Ctx, o *optCheck, s *sent, d doc) {
	// the options value is the field of the pager
	for a := range s.st.atoms {
		for _, p := range []string{"nil:.Where(", "zero:len(.OrderBy("} {
			if strings.HasPrefix(a, p) {
				x := strings.TrimPrefix(a, p)
				x = strings.TrimSuffix(x, ")")
				if strings.HasPrefix(p, "zero:len") {
					x = strings.TrimSuffix(x, ")")
				}
				o.s = x
			}
		}
	}
	if o.s == "" {
		c.Bad("pager", s.entry, s.pos, "the pager does not look at its options: %s", short(d.key()))
		return
	}
	cl := o.clauses(tokens(s.dialect, d))
	w := cl["WHERE"]
	has := false
	if len(w) > 0 {
		g := w[0]
		sub := g.sub
		for g.kind == tGroup && len(sub) == 1 && sub[0].kind == tGroup {
			sub = sub[0].sub
		}
		if g.kind == tGroup && len(sub) == 1 && sub[0].kind == tOpaque && sub[0].s == o.field("Where") {
			has = true
			if len(w) > 1 && !(w[1].kind == tWord && w[1].s == "AND") {
				o.fail("the filter is not joined by AND")
			}
			for i, x := range w {
				if x.kind == tWord && x.s == "OR" {
					o.fail("the cursor condition is not a conjunction with the filter")
				}
				_ = i
			}
		} else if g.kind == tOpaque && g.s == o.field("Where") && len(w) == 1 {
			has = true
		}
	}
	if !has && !o.unset("Where") {
		o.fail("option Where is left out of the statement")
	}
	if n, ok := names(cl["SELECT"]); !ok {
		o.fail("the selected columns are not a list of names")
	} else {
		_ = n
	}
	ord := cl["ORDER"]
	if !o.unset("OrderBy") {
		// order items first, then the key
		okOrder := len(ord) > 0 && ord[0].kind == tLoop
		if okOrder {
			okOrder = o.cover(ord[:1], "OrderBy", o.orderItem)
		}
		if !okOrder {
			o.fail("ORDER BY does not begin with option OrderBy")
		}
	}
	if l := cl["LIMIT"]; len(l) != 1 || l[0].kind != tNum || !strings.Contains(l[0].num.String(), o.field("Limit")) {
		o.fail("LIMIT does not depend on option Limit")
	}
	if len(o.bad) > 0 {
		c.Bad("pager", s.entry, s.pos, "%s: %s", short(d.key()), short(strings.Join(uniq(o.bad), "; ")))
		return
	}
	c.OK("pager", s.entry, "%s", short(d.key()))
}

// ---- P34

type upsertCheck struct {
	e       *absEngine
	st      *state
	dialect string
	model   val
	bad     []string
	params  map[string]types.Type
}

func (u *upsertCheck) fail(s string) { u.bad = append(u.bad, s) }

// omitList parses the atom which decides whether a column is left out.
func (u *upsertCheck) omits(atom string, col val) (list string, ok bool) {
	p := "in(" + col.key() + ","
	if strings.HasPrefix(atom, p) {
		return strings.TrimSuffix(strings.TrimPrefix(atom, p), ")"), true
	}
	return "", false
}

// assignment reads [,] col = EXCLUDED . col   or   [,] col = VALUES ( col )
func (u *upsertCheck) assignment(p []tk) (val, bool) {
	if len(p) > 0 && p[0].kind == tPunct && p[0].s == "," {
		p = p[1:]
	}
	if len(p) < 3 || p[0].kind != tHole || p[1].kind != tPunct || p[1].s != "=" {
		return nil, false
	}
	col := plainHole(p[0].v)
	r := p[2:]
	switch {
	case u.dialect == "postgres" && len(r) == 3 && r[0].kind == tWord && r[0].s == "EXCLUDED" && r[1].s == "." && r[2].kind == tHole:
		return col, plainHole(r[2].v).key() == col.key()
	case u.dialect != "postgres" && len(r) == 2 && r[0].kind == tWord && r[0].s == "VALUES" && r[1].kind == tGroup && len(r[1].sub) == 1 && r[1].sub[0].kind == tHole:
		return col, plainHole(r[1].sub[0].v).key() == col.key()
	}
	return col, false
}

// assignments checks the assignment list of the conflict part.
func (u *upsertCheck) assignments(in []tk, must []string) {
	if len(in) != 1 || in[0].kind != tLoop {
		u.fail("the assignments are not one pass over the columns")
		return
	}
	x := in[0]
	if x.lp.partial || len(x.lp.from) != 0 || !x.lp.to.eq(ps("NC")) {
		u.fail("the assignments do not pass over every column: " + x.lp.from.String() + ".." + x.lp.to.String())
		return
	}
	var col val
	for _, p := range x.paths {
		if v, _ := u.assignment(p); v != nil {
			col = v
		}
	}
	if col == nil {
		u.fail("no column is assigned")
		return
	}
	if el, ok := asSym(col, "elem", 2); !ok || el.args[1].key() != x.lp.idx || !u.columns(el.args[0]) {
		u.fail("the assigned columns are not the inserted columns")
	}
	for i, p := range x.paths {
		known, omitted := false, false
		for _, l := range x.lp.conds[i] {
			list, ok := u.omits(l.atom, col)
			if !ok {
				continue
			}
			known, omitted = true, l.pos
			for _, m := range must {
				if !strings.Contains(list, m) {
					u.fail("the omitted columns do not include " + m)
				}
			}
			if extra := u.foreign(list); extra != "" {
				u.fail("columns of " + extra + " are omitted")
			}
		}
		if len(p) == 0 {
			if !known || !omitted {
				u.fail("a column which is not omitted is not assigned")
			}
			continue
		}
		if !known || omitted {
			u.fail("an omitted column may be assigned")
		}
		if v, ok := u.assignment(p); !ok || v.key() != col.key() {
			u.fail("a column is not assigned its own inserted value")
		}
	}
}

// foreign finds a part of the omission list which is neither the key nor an omission.
func (u *upsertCheck) foreign(list string) string {
	for _, p := range []string{"m:InsertColumns(", "m:Columns(", "m:Values("} {
		if strings.Contains(list, p) {
			return list
		}
	}
	return ""
}

func (u *upsertCheck) columns(v val) bool {
	s, ok := plainHole(v).(*sym)
	return ok && (s.op == "m:InsertColumns" || s.op == "m:Columns") && len(s.args) == 1 && s.args[0].key() == u.model.key()
}

func checkP34(c *Ctx) {
	r := runHelpers(c.L)
	kinds := map[string]map[string]bool{}
	for _, s := range r.sents {
		dn, f, _ := strings.Cut(s.entry, ".")
		if f != "Upsert" && f != "UpsertOne" {
			continue
		}
		if kinds[s.entry] == nil {
			kinds[s.entry] = map[string]bool{}
		}
		d, ok := queryDoc(s.query)
		if !ok {
			c.Bad("upsert", s.entry, s.pos, "the text of the statement is not determined")
			continue
		}
		u := &upsertCheck{e: r.eng[s.entry], st: s.st, dialect: dn, params: s.params}
		toks := tokens(dn, d)
		// the record whose table is written
		for _, x := range toks {
			if x.kind == tHole {
				if t, ok := asSym(x.v, "m:TableName", 1); ok {
					u.model = t.args[0]
					break
				}
			}
		}
		if u.model == nil && u.keyless() {
			continue // a Keyer without a key method is not a generated model
		}
		if u.model == nil {
			c.Bad("upsert", s.entry, s.pos, "the table is not a model's table: %s", short(d.key()))
			continue
		}
		m := u.model.key()
		composite, single := says(s.st, u.model, "CompositeKeyer"), says(s.st, u.model, "PrimaryKeyer") || says(s.st, u.model, "AutoIncrKeyer")
		key := "m:PK#0(" + m + ")"
		if composite && !single {
			key = "m:CompositeKey#0(" + m + ")[0:NK]"
		}
		word := func(i int, w string) bool { return i < len(toks) && toks[i].kind == tWord && toks[i].s == w }
		find := func(w string) int {
			for i := range toks {
				if word(i, w) {
					return i
				}
			}
			return -1
		}
		if !composite && !single {
			// a model without a key: only a plain insert is possible
			kinds[s.entry]["keyless"] = true
		}
		if dn == "postgres" {
			on := find("ON")
			end := find("RETURNING")
			if end < 0 {
				end = len(toks)
			}
			opt := u.boolOption(".doNothing(")
			switch {
			case on < 0 || !word(on+1, "CONFLICT") || on+2 >= len(toks) || toks[on+2].kind != tGroup:
				u.fail("no conflict target")
			default:
				u.target(toks[on+2].sub, key)
				rest := toks[on+3 : end]
				switch {
				case len(rest) == 2 && rest[0].s == "DO" && rest[1].s == "NOTHING":
					kinds[s.entry]["ignore"] = true
					if opt != 1 {
						u.fail("nothing is done on conflict although the caller asked for an update")
					}
				case len(rest) > 3 && rest[0].s == "DO" && rest[1].s == "UPDATE" && rest[2].s == "SET":
					kinds[s.entry]["update"] = true
					if opt != 0 {
						u.fail("conflicting rows are updated although the caller asked to leave them")
					}
					u.assignments(rest[3:], []string{key, ".omitFields("})
				default:
					u.fail("the conflict action is not understood")
				}
			}
		} else {
			ov := u.boolParam()
			on := find("ON")
			ignore := word(0, "INSERT") && word(1, "IGNORE")
			switch {
			case on >= 0:
				kinds[s.entry]["update"] = true
				if ov != 1 || ignore {
					u.fail("conflicting rows are updated although the caller did not ask to override")
				}
				if !(word(on+1, "DUPLICATE") && word(on+2, "KEY") && word(on+3, "UPDATE")) {
					u.fail("the conflict action is not understood")
				} else {
					end := len(toks)
					if toks[end-1].kind == tPunct && toks[end-1].s == ";" {
						end--
					}
					must := []string{u.omitParam()}
					if composite || single {
						must = append(must, key)
					}
					u.assignments(toks[on+4:end], must)
				}
			default:
				kinds[s.entry]["ignore"] = true
				if ov != 0 || !ignore {
					u.fail("conflicting rows are neither updated nor ignored as asked")
				}
			}
		}
		if len(u.bad) > 0 {
			c.Bad("upsert", s.entry, s.pos, "%s: %s", short(d.key()), short(strings.Join(uniq(u.bad), "; ")))
			continue
		}
		c.OK("upsert", s.entry, "%s", short(d.key()))
	}
	for _, d := range specDialects {
		for _, f := range []string{"Upsert", "UpsertOne"} {
			en := d.Name + "." + f
			c.Analysed(en)
			if p := r.problems[en]; len(p) > 0 {
				c.Bad("interpretable", en, token.NoPos, "the helper cannot be followed: %s", short(strings.Join(p, "; ")))
			}
			for _, k := range []string{"update", "ignore"} {
				c.Check(kinds[en][k], "upsert-kinds", en+"/"+k, token.NoPos, "%s has a %s form", en, k)
			}
		}
	}
	// the columns and keys of models
	templateContract(c, "driver", "quoteVar", "varRune", "isStaticVar")
	c.include("P10", checkP10, "columns", "values", "placeholders", "keys")
	c.include("P11", checkP11, "insert-columns", "key", "column-set")
	c.Min("upsert", 60)
	checkUpsertOptions(c)
	c.Min("upsert-option", 2)
}

// checkUpsertOptions: each WithX constructor stores its argument, unchanged,
// in the option field x.
func checkUpsertOptions(c *Ctx) {
	for _, d := range specDialects {
		p := c.L.pkgs[helperPkgPath(d.Name)]
		for _, f := range c.L.funcsIn(p.PkgPath) {
			if f.Parent() == nil || !strings.HasPrefix(f.Parent().Name(), "With") || len(f.Params) != 1 {
				continue
			}
			ctor := f.Parent()
			en := d.Name + "." + ctor.Name()
			field := strings.ToLower(ctor.Name()[4:5]) + ctor.Name()[5:]
			stored := false
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					st, ok := in.(*ssa.Store)
					if !ok {
						continue
					}
					fa, ok := st.Addr.(*ssa.FieldAddr)
					if !ok || fa.X != ssa.Value(f.Params[0]) {
						continue
					}
					name := fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct).Field(fa.Field).Name()
					if name != field {
						c.Bad("upsert-option", en, st.Pos(), "%s sets option %s", en, name)
						continue
					}
					if optionArg(st.Val, ctor, 0) && b == f.Blocks[0] {
						stored = true
					} else {
						c.Bad("upsert-option", en, st.Pos(), "%s does not store its argument as it was given", en)
					}
				}
			}
			c.Check(stored, "upsert-option", en, f.Pos(), "%s stores its argument in option %s", en, field)
		}
	}
}

// optionArg: the value is the constructor's argument or a copy of it.
func optionArg(v ssa.Value, ctor *ssa.Function, depth int) bool {
	if depth > 8 {
		return false
	}
	switch v := v.(type) {
	case *ssa.Parameter:
		return v.Parent() == ctor
	case *ssa.FreeVar:
		return true
	case *ssa.UnOp:
		return v.Op == token.MUL && optionArg(v.X, ctor, depth+1)
	case *ssa.Alloc:
		// a captured argument kept in a cell
		for _, r := range *v.Referrers() {
			if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(v) && !optionArg(st.Val, ctor, depth+1) {
				return false
			}
		}
		return true
	case *ssa.ChangeType:
		return optionArg(v.X, ctor, depth+1)
	case *ssa.Slice:
		return v.Low == nil && v.High == nil && optionArg(v.X, ctor, depth+1)
	case *ssa.Call:
		if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && len(v.Call.Args) == 2 {
			return emptySlice(v.Call.Args[0]) && optionArg(v.Call.Args[1], ctor, depth+1)
		}
		if o := calleeObj(v); o != nil && fullName(o) == "slices.Clone" {
			return optionArg(v.Call.Args[0], ctor, depth+1)
		}
	}
	return false
}

// emptySlice: a slice of length zero.
func emptySlice(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.Const:
		return v.IsNil()
	case *ssa.MakeSlice:
		n, ok := v.Len.(*ssa.Const)
		return ok && n.Int64() == 0
	case *ssa.Slice:
		if p, ok := v.X.Type().Underlying().(*types.Pointer); ok {
			if a, ok := p.Elem().Underlying().(*types.Array); ok {
				return a.Len() == 0
			}
		}
		if n, ok := v.High.(*ssa.Const); ok {
			return n.Int64() == 0
		}
	case *ssa.ChangeType:
		return emptySlice(v.X)
	}
	return false
}

// keyless: the path knows of no key.
func (u *upsertCheck) keyless() bool {
	for _, f := range u.st.is {
		if f.yes && (namedIs(f.t, seqPath, "PrimaryKeyer") || namedIs(f.t, seqPath, "CompositeKeyer") || namedIs(f.t, seqPath, "AutoIncrKeyer")) {
			return false
		}
	}
	return true
}

// boolOption: 1 the path says true, 0 false, -1 nothing.
func (u *upsertCheck) boolOption(prefix string) int {
	for a, v := range u.st.atoms {
		if strings.HasPrefix(a, prefix) {
			if v {
				return 1
			}
			return 0
		}
	}
	return -1
}

func (u *upsertCheck) boolParam() int {
	for k, t := range u.params {
		if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
			if v, ok := u.st.atoms[k]; ok {
				if v {
					return 1
				}
				return 0
			}
		}
	}
	return -1
}

// omitParam is the caller's list of columns to leave alone.
func (u *upsertCheck) omitParam() string {
	for k, t := range u.params {
		if s, ok := t.Underlying().(*types.Slice); ok {
			if b, ok := s.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.String {
				return k + "[0:len(" + k + ")]"
			}
		}
	}
	return ""
}

// target: the conflict target is the caller's, the model's, or the key.
func (u *upsertCheck) target(in []tk, key string) {
	n, ok := names(in)
	if !ok || len(n) != 1 {
		u.fail("the conflict target is not a list of columns")
		return
	}
	k := n[0].key()
	if n[0].kind == segOne {
		k = plainHole(n[0].v).key()
	}
	given := -1
	for a, v := range u.st.atoms {
		if strings.HasPrefix(a, "zero:len(.duplicateKeys(") {
			given = 1
			if v {
				given = 0
			}
		}
	}
	switch {
	case strings.HasPrefix(k, ".duplicateKeys("):
	case strings.HasPrefix(k, "m:DuplicateKeys("+u.model.key()), k == key:
		if given != 0 {
			u.fail("the caller's conflict target is ignored")
		}
	default:
		u.fail("the conflict target " + k + " is neither the caller's, the model's, nor the key")
	}
}
