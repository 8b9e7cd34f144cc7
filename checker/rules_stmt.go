package main

import (
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"
)

func init() {
	const how = "abstract interpretation of every exported query helper and clause of the three expanded helper templates (syntax trees, all paths, loops summarised symbolically over lists of unknown length): "
	register("P22", how+"the abstract text of every statement handed to the database is tokenised and its placeholders matched one by one, over symbolic lists, with the abstract argument list; every placeholder must stand next to the column whose value is bound to it, numbered placeholders must run 1,2,3, inserted rows must bind the record of their own row", checkP22)
	register("P23", how+"every part of the text which is not a literal of the template must be an identifier source (model metadata, column names, declared string fields of the statement options); values, operands and bound arguments may never occur in the text", checkP23)
	register("P24", how+"by-key helpers send either the model's own precomputed by-key statement or a statement whose WHERE clause compares exactly the model's whole key, read from the same model, and whose SET list skips exactly the key", checkP24)
	register("P25", how+"each operator of the clause library must write its own SQL operator once, with the column on the left and its operands bound in order, converted exactly when the column has a conversion", checkP25)
}

func numberedOf(name string) (bool, byte) {
	for _, d := range specDialects {
		if d.Name == name {
			return d.Numbered, byte(d.VarRune)
		}
	}
	return false, '?'
}

func plainHole(v val) val {
	if s, ok := v.(vStr); ok && len(s.d) == 1 && s.d[0].kind == pHole {
		return s.d[0].v
	}
	return v
}

func asSym(v val, op string, n int) (*sym, bool) {
	s, ok := plainHole(v).(*sym)
	if !ok || s.op != op || len(s.args) != n {
		return nil, false
	}
	return s, true
}

// sameRecord: the two values are the same record, or records of the same list.
func sameRecord(x, y val) bool {
	if x.key() == y.key() {
		return true
	}
	a, ok1 := asSym(x, "elem", 2)
	b, ok2 := asSym(y, "elem", 2)
	return ok1 && ok2 && a.args[0].key() == b.args[0].key()
}

// alignedLists: the i-th name of n names the i-th value of v, per the
// generator's contract (checked by P09 and P10).
func alignedLists(st *state, n, v val) bool {
	a, ok1 := plainHole(n).(*sym)
	b, ok2 := plainHole(v).(*sym)
	if !ok1 || !ok2 || len(a.args) == 0 || len(b.args) == 0 || !sameRecord(a.args[0], b.args[0]) {
		return false
	}
	switch a.op {
	case "m:InsertColumns":
		return b.op == "m:Values"
	case "m:Columns":
		return b.op == "m:Values" && saysNot(st, a.args[0], "InsertColumner")
	case "m:CompositeKey#0":
		return b.op == "m:CompositeKey#2"
	}
	return false
}

// aligned: the value belongs to the column.
func aligned(st *state, col, v val) bool {
	col, v = plainHole(col), plainHole(v)
	if c, ok := asSym(col, "m:PK#0", 1); ok {
		x, ok := asSym(v, "m:PK#2", 1)
		return ok && sameRecord(c.args[0], x.args[0])
	}
	if c, ok := asSym(col, "elem", 2); ok {
		if x, ok := asSym(v, "elem", 2); ok && c.args[1].key() == x.args[1].key() && alignedLists(st, c.args[0], x.args[0]) {
			return true
		}
	}
	if x, ok := asSym(v, "mapget", 2); ok && x.args[1].key() == col.key() {
		if m, ok := x.args[0].(*vMap); ok {
			return alignedEntries(st, m.segs)
		}
	}
	return false
}

func alignedEntries(st *state, segs []seg) bool {
	for _, s := range segs {
		switch s.kind {
		case segOne:
			en, ok := s.v.(vEntry)
			if !ok || !aligned(st, en.k, en.v) {
				return false
			}
		case segLoop:
			for _, p := range s.paths {
				if !alignedEntries(st, p) {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

// recordOf finds the record a value was read from.
func recordOf(v val) val {
	switch s := plainHole(v).(type) {
	case *sym:
		switch {
		case s.op == "elem" && len(s.args) == 2:
			return recordOf(s.args[0])
		case strings.HasPrefix(s.op, "m:") && len(s.args) > 0:
			return s.args[0]
		}
	}
	return nil
}

func (r *stmtRun) distinct() []*sent {
	seen := map[string]bool{}
	var out []*sent
	for _, s := range r.sents {
		k := s.entry + "|" + s.fn + "|" + s.method
		if s.query != nil {
			k += "|" + s.query.key()
		}
		if s.args != nil {
			k += "|" + s.args.key()
		}
		var facts []string
		for _, f := range s.st.is {
			if !f.yes {
				facts = append(facts, f.k+"!"+typeKey(f.t))
			}
		}
		sort.Strings(facts)
		k += "|" + strings.Join(facts, ",")
		if !seen[k] {
			seen[k] = true
			out = append(out, s)
		}
	}
	return out
}

// precomputed recognises a statement taken from the model itself.
func precomputed(query, args val) (name string, model val, is, ok bool) {
	q, isSym := plainHole(query).(*sym)
	if !isSym || !strings.HasPrefix(q.op, "m:") || !strings.HasSuffix(q.op, "Stmt#0") || len(q.args) != 1 {
		return "", nil, false, false
	}
	name = strings.TrimSuffix(strings.TrimPrefix(q.op, "m:"), "#0")
	a := args
	if l, isL := a.(*vList); isL && len(l.segs) == 1 && l.segs[0].kind == segAll && len(l.segs[0].from) == 0 {
		a = l.segs[0].v
	}
	s, isA := a.(*sym)
	return name, q.args[0], true, isA && s.op == "m:"+name+"#1" && len(s.args) == 1 && s.args[0].key() == q.args[0].key()
}

func queryDoc(v val) (doc, bool) {
	switch v := v.(type) {
	case vStr:
		return v.d, true
	case *sym:
		return hole(v), true
	}
	return nil, false
}

// tokens reads the text of a statement.
func tokens(dialect string, d doc) []tk {
	numbered, marker := numberedOf(dialect)
	n := 0
	t := &tokenizer{numbered: numbered, marker: marker, n: &n}
	return group(t.doc(d))
}

// bindings checks the placeholders of one statement against its arguments.
func (r *stmtRun) bindings(s *sent) []string {
	e := r.eng[s.entry]
	if _, _, is, ok := precomputed(s.query, s.args); is {
		if !ok {
			return []string{"the precomputed statement " + s.query.key() + " is sent with other arguments: " + keyOf(s.args)}
		}
		return nil
	}
	d, ok := queryDoc(s.query)
	if !ok {
		return []string{"the text of the statement is not determined"}
	}
	sc := &stmtCheck{e: e, st: s.st}
	toks := tokens(s.dialect, d)
	ph := sc.items(toks, false)
	sc.numbers(ph, poly{})
	var segs []seg
	if s.args != nil {
		segs = e.toSegs(s.st, s.args)
	}
	args := sc.argItems(segs)
	var rowsOf val // the list whose records are inserted
	single := false
	if len(sc.problems) == 0 {
		sc.match(ph, args, 0, func(p, a item) {
			if p.free {
				return
			}
			if p.col == nil {
				sc.bad("no column is found for the placeholder bound to %s", keyOf(a.v))
				return
			}
			if !aligned(s.st, p.col, a.v) {
				sc.bad("the placeholder of column %s is bound to %s", p.col.key(), keyOf(a.v))
				return
			}
			if p.ins {
				m := recordOf(a.v)
				if m == nil {
					sc.bad("the row of %s is not determined", keyOf(a.v))
					return
				}
				if el, ok := asSym(m, "elem", 2); ok {
					rowsOf = el.args[0]
					if n, ok := asPoly(el.args[1]); !ok || !n.eq(p.row) {
						sc.bad("row %s is bound to the values of record %s", p.row, el.args[1].key())
					}
				} else {
					single = true
					if len(p.row) != 0 {
						sc.bad("row %s is bound to the only record", p.row)
					}
				}
			}
		})
	}
	if sc.insert && len(sc.problems) == 0 {
		switch {
		case rowsOf != nil && single:
			sc.bad("rows of a list and a single record are mixed")
		case rowsOf != nil:
			if n := e.length(s.st, rowsOf); !n.eq(sc.rows) {
				sc.bad("%s rows are written for %s records", sc.rows, n)
			}
		case single:
			if !sc.rows.eq(pc(1)) {
				sc.bad("%s rows are written for one record", sc.rows)
			}
		default:
			sc.bad("an insert which binds no record")
		}
	}
	return sc.problems
}

func keyOf(v val) string {
	if v == nil {
		return "nothing"
	}
	return v.key()
}

func short(s string) string {
	if len(s) > shortLen {
		return strings.ToValidUTF8(s[:shortLen], "") + "…"
	}
	return s
}

// runProblems reports what the interpreter could not follow.
func runProblems(c *Ctx, r *stmtRun) {
	for _, en := range r.entries {
		c.Analysed(en)
		if p := r.problems[en]; len(p) > 0 {
			c.Bad("interpretable", en, token.NoPos, "the helper cannot be followed: %s", short(strings.Join(p, "; ")))
		} else {
			c.OK("interpretable", en, "%s: every path followed", en)
		}
	}
	for p, n := range r.calls {
		c.Check(r.seenPos[p], "call-reached", n, p, "the database call in %s is analysed", n)
	}
}

func uniq(in []string) []string {
	seen := map[string]bool{}
	var out []string
	for _, s := range in {
		if !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	return out
}

func checkP22(c *Ctx) {
	r := runHelpers(c.L)
	runProblems(c, r)
	for _, s := range r.distinct() {
		p := r.bindings(s)
		if len(p) > 0 {
			c.Bad("bound-values", s.entry, s.pos, "%s: %s", short(keyOf(s.query)), short(strings.Join(uniq(p), "; ")))
			continue
		}
		c.OK("bound-values", s.entry, "%s binds %s", short(keyOf(s.query)), short(keyOf(s.args)))
	}
	seen := map[string]bool{}
	for _, b := range r.builts {
		if b.doc == nil && (b.args == nil || len(r.eng[b.entry].segsLen(b.st, r.eng[b.entry].toSegs(b.st, b.args))) == 0) {
			continue
		}
		e := r.eng[b.entry]
		k := b.entry + "|" + b.doc.key() + "|" + keyOf(b.args)
		if seen[k] {
			continue
		}
		seen[k] = true
		sc := &stmtCheck{e: e, st: b.st}
		ph := sc.items(tokens(b.dialect, b.doc), false)
		sc.numbers(ph, poly{})
		n, m := sc.count(ph), e.segsLen(b.st, e.toSegs(b.st, b.args))
		if !n.eq(m) {
			sc.bad("%s placeholders for %s values", n, m)
		}
		if numbered, _ := numberedOf(b.dialect); numbered && b.count != nil {
			if q, ok := asPoly(b.count); !ok || !q.eq(m) {
				sc.bad("the statement counts %s values where %s were added", b.count.key(), m)
			}
		}
		if len(sc.problems) > 0 {
			c.Bad("clause-placeholders", b.entry, b.pos, "%s: %s", short(b.doc.key()), short(strings.Join(uniq(sc.problems), "; ")))
			continue
		}
		c.OK("clause-placeholders", b.entry, "%s with %s values", short(b.doc.key()), m)
	}
	// what the statements take from the generator
	templateContract(c, "driver", "isStaticVar", "quoteVar", "varRune")
	c.include("P09", checkP09, "statement")
	c.include("P10", checkP10, "values", "placeholders", "keys")
	c.Min("bound-values", 300)
	c.Min("clause-placeholders", 60)
	c.Min("interpretable", 80)
}

// ---- P23

type holeCheck struct {
	e      *absEngine
	st     *state
	params map[string]types.Type
	bad    []string
	n      int
}

var identifierMethods = map[string]bool{
	"TableName": true, "DatabaseName": true, "Columns": true, "InsertColumns": true, "SQLColumns": true,
	"PK#0": true, "CompositeKey#0": true, "ColumnName": true, "LockMode": true, "DuplicateKeys": true,
	"OnUpsertOmitColumns": true, "InsertPlaceholders": true, "SQLColumn": true,
}

func (h *holeCheck) identifier(v val, why string) {
	h.n++
	v = plainHole(v)
	switch s := v.(type) {
	case vStr:
		h.doc(s.d)
		return
	case *vList:
		h.segs(s.segs)
		return
	case *sym:
		switch {
		case s.op == "elem" && len(s.args) == 2:
			h.identifier(s.args[0], why)
			return
		case strings.HasPrefix(s.op, "m:"):
			m := strings.TrimPrefix(s.op, "m:")
			if identifierMethods[m] || strings.HasSuffix(m, "Stmt#0") {
				return
			}
		case strings.HasPrefix(s.op, ".") && len(s.args) == 1:
			if t := s.typ; t != nil && textType(t) {
				return
			}
		case len(s.args) == 0 && strings.HasPrefix(s.op, "p"):
			if t := h.params[s.k]; t != nil && textType(t) {
				return
			}
		case strings.HasPrefix(s.op, "mapget") || strings.HasPrefix(s.op, "call"):
		}
	case vInt:
		return
	}
	h.bad = append(h.bad, "the text contains "+v.key())
}

// textType: string or []string, which only carry names in the helpers' options.
func textType(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0
	case *types.Slice:
		b, ok := u.Elem().Underlying().(*types.Basic)
		return ok && b.Info()&types.IsString != 0
	}
	return false
}

func (h *holeCheck) segs(in []seg) {
	for _, s := range in {
		switch s.kind {
		case segOne, segAll:
			h.identifier(s.v, "list")
		case segLoop:
			for _, p := range s.paths {
				h.segs(p)
			}
		case segFill:
		default:
			h.bad = append(h.bad, "a list in the text is not determined")
		}
	}
}

func (h *holeCheck) doc(d doc) {
	for _, p := range d {
		switch p.kind {
		case pHole:
			h.identifier(p.v, "text")
		case pJoin:
			h.segs(p.list)
		case pLoop:
			for _, q := range p.paths {
				h.doc(q)
			}
		case pRep, pOpaque:
			h.doc(p.d)
		case pCarried:
			h.bad = append(h.bad, "part of the text is not determined")
		}
	}
}

func checkP23(c *Ctx) {
	r := runHelpers(c.L)
	runProblems(c, r)
	holes := 0
	seen := map[string]bool{}
	for _, s := range r.sents {
		k := s.entry + "|" + keyOf(s.query)
		if seen[k] {
			continue
		}
		seen[k] = true
		d, ok := queryDoc(s.query)
		if !ok {
			c.Bad("text-parts", s.entry, s.pos, "the text of the statement is not determined: %s", short(keyOf(s.query)))
			continue
		}
		h := &holeCheck{e: r.eng[s.entry], st: s.st, params: s.params}
		h.doc(d)
		holes += h.n
		if len(h.bad) > 0 {
			c.Bad("text-parts", s.entry, s.pos, "%s: %s", short(d.key()), short(strings.Join(uniq(h.bad), "; ")))
			continue
		}
		c.OK("text-parts", s.entry, "%d variable parts, all names: %s", h.n, short(d.key()))
	}
	for _, b := range r.builts {
		if b.doc == nil || seen[b.entry+"|"+b.doc.key()] {
			continue
		}
		seen[b.entry+"|"+b.doc.key()] = true
		h := &holeCheck{e: r.eng[b.entry], st: b.st, params: b.params}
		h.doc(b.doc)
		holes += h.n
		if len(h.bad) > 0 {
			c.Bad("clause-parts", b.entry, b.pos, "%s: %s", short(b.doc.key()), short(strings.Join(uniq(h.bad), "; ")))
			continue
		}
		c.OK("clause-parts", b.entry, "%d variable parts, all names: %s", h.n, short(b.doc.key()))
	}
	// the statements the generator writes into models
	c.include("P09", checkP09, "statement")
	c.include("P12", checkP12, "quoting", "statement-names", "tag-name", "pattern")
	c.Min("text-parts", 300)
	c.Min("clause-parts", 60)
	c.Check(holes > 1000, "coverage", "variable parts", token.NoPos, "%d variable parts of texts were classified", holes)
}

// ---- P24

var byKeyStmt = map[string]string{"FindByPK": "FindOneByPKStmt", "UpdateByPK": "UpdateOneByPKStmt", "DeleteByPK": "DeleteOneByPKStmt"}
var byKeyVerb = map[string]string{"FindByPK": "SELECT", "LockByPK": "SELECT", "UpdateByPK": "UPDATE", "DeleteByPK": "DELETE"}

// modelParam is the parameter holding the record.
func modelParam(c *Ctx, entry string) string {
	d, f, _ := strings.Cut(entry, ".")
	p := c.L.pkgs[helperPkgPath(d)]
	if p == nil {
		return ""
	}
	o, ok := p.Types.Scope().Lookup(f).(*types.Func)
	if !ok {
		return ""
	}
	sg := o.Type().(*types.Signature)
	for i := 0; i < sg.Params().Len(); i++ {
		if _, ok := sg.Params().At(i).Type().(*types.TypeParam); ok {
			return "p:" + sg.Params().At(i).Name()
		}
	}
	return ""
}

type keyCheck struct {
	e     *absEngine
	st    *state
	model string
	bad   []string
}

func (k *keyCheck) isModel(v val) bool { return v.key() == k.model }

func (k *keyCheck) isCall(v val, m string) bool {
	s, ok := asSym(v, "m:"+m, 1)
	return ok && k.isModel(s.args[0])
}

// wholeKey recognises the list of all key columns.
func (k *keyCheck) wholeKey(n []seg) bool {
	if len(n) != 1 {
		return false
	}
	s := n[0]
	if s.kind == segLoop {
		var ok bool
		if s, ok = loopAsAll(s); !ok {
			return false
		}
	}
	return s.kind == segAll && k.isCall(s.v, "CompositeKey#0") && len(s.from) == 0 && s.to.eq(k.e.length(k.st, s.v))
}

// condition checks the tokens between WHERE and the end of the condition and
// returns how many it used; 0 when they are not the key comparison.
func (k *keyCheck) condition(in []tk) int {
	if len(in) == 0 {
		return 0
	}
	// the whole condition in parentheses
	if in[0].kind == tGroup && (len(in) < 2 || in[1].kind != tPunct || !comparison[in[1].s]) {
		if n := k.condition(in[0].sub); n > 0 && n == len(in[0].sub) {
			return 1
		}
		return 0
	}
	eq := func(i int) bool { return i < len(in) && in[i].kind == tPunct && in[i].s == "=" }
	if len(in) >= 3 && eq(1) {
		if in[0].kind == tHole && k.isCall(in[0].v, "PK#0") && in[2].kind == tPh {
			return 3
		}
		if in[0].kind == tGroup && in[2].kind == tGroup && onlyPh(in[2].sub) {
			if n, ok := names(in[0].sub); ok && k.wholeKey(n) {
				return 3
			}
			if len(in[0].sub) == 1 && in[0].sub[0].kind == tHole && k.isCall(in[0].sub[0].v, "PK#0") {
				return 3
			}
		}
	}
	// col1 = ? AND col2 = ? ...
	used := 0
	covered := poly{}
	for i, x := range in {
		if x.kind != tLoop || x.lp.partial {
			// peeled first iteration: elem(keys,0) = ?
			break
		}
		if !x.lp.from.eq(covered) {
			return 0
		}
		for _, p := range x.paths {
			if len(p) == 4 && p[0].kind == tWord && p[0].s == "AND" {
				p = p[1:]
			}
			if len(p) != 3 || p[0].kind != tHole || p[1].kind != tPunct || p[1].s != "=" || p[2].kind != tPh {
				return 0
			}
			el, ok := asSym(p[0].v, "elem", 2)
			if !ok || !k.isCall(el.args[0], "CompositeKey#0") || el.args[1].key() != x.lp.idx {
				return 0
			}
		}
		covered = x.lp.to
		used = i + 1
	}
	if used > 0 && covered.eq(ps("NK")) {
		return used
	}
	if len(in) >= 4 && in[0].kind == tHole && eq(1) && in[2].kind == tPh && in[3].kind == tLoop {
		el, ok := asSym(in[0].v, "elem", 2)
		if ok && k.isCall(el.args[0], "CompositeKey#0") && el.args[1].key() == "0" && in[3].lp.from.eq(pc(1)) && in[3].lp.to.eq(ps("NK")) && !in[3].lp.partial {
			for _, p := range in[3].paths {
				if len(p) != 4 || p[0].s != "AND" || p[1].kind != tHole || p[2].s != "=" || p[3].kind != tPh {
					return 0
				}
				el, ok := asSym(p[1].v, "elem", 2)
				if !ok || !k.isCall(el.args[0], "CompositeKey#0") || el.args[1].key() != in[3].lp.idx {
					return 0
				}
			}
			return 4
		}
	}
	return 0
}

// table checks [db .] table of the model.
func (k *keyCheck) table(in []tk) int {
	i := 0
	if len(in) > 2 && in[0].kind == tHole && k.isCall(in[0].v, "DatabaseName") && in[1].kind == tPunct && in[1].s == "." {
		i = 2
	}
	if i < len(in) && in[i].kind == tHole && k.isCall(in[i].v, "TableName") {
		return i + 1
	}
	return 0
}

// keyAtom: the atom says the column is (part of) the key.
func (k *keyCheck) keyAtom(atom string, col val) bool {
	for _, key := range []string{"m:PK#0(" + k.model + ")", "[m:CompositeKey#0(" + k.model + ")[0:NK]]", "m:CompositeKey#0(" + k.model + ")"} {
		if atom == "eq("+col.key()+","+key+")" || atom == "eq("+key+","+col.key()+")" || atom == "in("+col.key()+","+key+")" {
			return true
		}
	}
	return false
}

// setList checks the assignments of an update.
func (k *keyCheck) setList(in []tk) {
	if len(in) != 1 || in[0].kind != tLoop {
		k.bad = append(k.bad, "the SET list is not one pass over the columns")
		return
	}
	x := in[0]
	if x.lp.partial || len(x.lp.from) != 0 || !x.lp.to.eq(ps("NC")) {
		k.bad = append(k.bad, "the SET list does not visit every column: "+x.lp.from.String()+".."+x.lp.to.String())
		return
	}
	var col val
	for _, p := range x.paths {
		for _, t := range p {
			if t.kind == tHole && col == nil {
				col = t.v
			}
		}
	}
	if col == nil {
		k.bad = append(k.bad, "the SET list names no column")
		return
	}
	for i, p := range x.paths {
		known, isKey := false, false
		for _, l := range x.lp.conds[i] {
			if k.keyAtom(l.atom, col) {
				known, isKey = true, l.pos
			}
		}
		if len(p) > 0 && p[0].kind == tPunct && p[0].s == "," {
			p = p[1:]
		}
		switch {
		case len(p) == 0:
			if !known || !isKey {
				k.bad = append(k.bad, "a column which is not part of the key is left out of the SET list")
			}
		case len(p) == 3 && p[0].kind == tHole && p[0].v.key() == col.key() && p[1].kind == tPunct && p[1].s == "=" && p[2].kind == tPh:
			if !known || isKey {
				k.bad = append(k.bad, "a key column may be assigned")
			}
		default:
			k.bad = append(k.bad, "an assignment of the SET list is not column = value")
		}
	}
}

func (k *keyCheck) statement(verb string, in []tk) {
	word := func(i int, w string) bool { return i < len(in) && in[i].kind == tWord && in[i].s == w }
	fail := func(s string) { k.bad = append(k.bad, s) }
	where := -1
	for i := range in {
		if word(i, "WHERE") {
			if where >= 0 {
				fail("more than one WHERE")
				return
			}
			where = i
		}
	}
	if where < 0 {
		fail("the statement has no WHERE clause")
		return
	}
	if !word(0, verb) {
		fail("the statement does not begin with " + verb)
		return
	}
	i := 1
	switch verb {
	case "SELECT":
		from := -1
		for j := 0; j < where; j++ {
			if word(j, "FROM") {
				from = j
			}
		}
		if from < 0 {
			fail("no FROM")
			return
		}
		if n, ok := names(in[1:from]); !ok || len(n) != 1 || !k.selected(n[0]) {
			fail("the selected columns are not the model's columns")
		}
		i = from + 1
	case "DELETE":
		if !word(1, "FROM") {
			fail("no FROM")
			return
		}
		i = 2
	}
	n := k.table(in[i:])
	if n == 0 {
		fail("the table is not the model's table")
		return
	}
	i += n
	if verb == "UPDATE" {
		if !word(i, "SET") {
			fail("no SET")
			return
		}
		k.setList(in[i+1 : where])
	} else if i != where {
		fail("something stands between the table and WHERE")
	}
	n = k.condition(in[where+1:])
	if n == 0 {
		fail("the WHERE clause is not a comparison of the whole key")
		return
	}
	for j := where + 1 + n; j < len(in); j++ {
		x := in[j]
		switch {
		case x.kind == tPunct && x.s == ";":
		case x.kind == tWord && (x.s == "LIMIT" || x.s == "FOR" || x.s == "UPDATE" || x.s == "SHARE" || x.s == "1" || x.s == "RETURNING"):
		case x.kind == tNum:
		case x.kind == tHole && isLock(x.v):
		default:
			fail("the key comparison is followed by something else: " + x.s)
			return
		}
	}
}

func isLock(v val) bool {
	_, ok := asSym(v, "m:LockMode", 1)
	return ok
}

func (k *keyCheck) selected(s seg) bool {
	if s.kind == segLoop {
		var ok bool
		if s, ok = loopAsAll(s); !ok {
			return false
		}
	}
	if s.kind != segAll || len(s.from) != 0 || !s.to.eq(k.e.length(k.st, s.v)) {
		return false
	}
	if k.isCall(s.v, "SQLColumns") {
		return true
	}
	return k.isCall(s.v, "Columns")
}

func checkP24(c *Ctx) {
	r := runHelpers(c.L)
	per := map[string]map[string]bool{}
	for _, s := range r.distinct() {
		_, f, _ := strings.Cut(s.entry, ".")
		verb, ok := byKeyVerb[f]
		if !ok {
			continue
		}
		if per[s.entry] == nil {
			per[s.entry] = map[string]bool{}
		}
		model := modelParam(c, s.entry)
		if name, m, is, ok := precomputed(s.query, s.args); is {
			per[s.entry]["own"] = true
			c.Check(ok && m.key() == model && byKeyStmt[f] == name, "by-key", s.entry, s.pos, "%s sends %s with %s", s.entry, keyOf(s.query), keyOf(s.args))
			continue
		}
		d, ok := queryDoc(s.query)
		if !ok {
			c.Bad("by-key", s.entry, s.pos, "the text of the statement is not determined")
			continue
		}
		k := &keyCheck{e: r.eng[s.entry], st: s.st, model: model}
		k.statement(verb, tokens(s.dialect, d))
		bad := append(k.bad, r.bindings(s)...)
		if f == "LockByPK" && !strings.Contains(d.key(), "m:LockMode(") {
			bad = append(bad, "the row is not locked")
		}
		if strings.Contains(d.key(), "m:CompositeKey#0(") {
			per[s.entry]["composite"] = true
		}
		if strings.Contains(d.key(), "m:PK#0(") {
			per[s.entry]["single"] = true
		}
		if len(bad) > 0 {
			c.Bad("by-key", s.entry, s.pos, "%s: %s", short(d.key()), short(strings.Join(uniq(bad), "; ")))
			continue
		}
		c.OK("by-key", s.entry, "%s", short(d.key()))
	}
	for _, d := range specDialects {
		for f := range byKeyVerb {
			en := d.Name + "." + f
			c.Analysed(en)
			if p := r.problems[en]; len(p) > 0 {
				c.Bad("interpretable", en, token.NoPos, "the helper cannot be followed: %s", short(strings.Join(p, "; ")))
			}
			kinds := []string{"single", "composite"}
			if byKeyStmt[f] != "" {
				kinds = append(kinds, "own")
			}
			for _, k := range kinds {
				c.Check(per[en][k], "key-kinds", en+"/"+k, token.NoPos, "%s handles a %s key statement", en, k)
			}
		}
	}
	// the keys and the by-key statements the generator writes into models
	templateContract(c, "driver", "quoteVar", "varRune")
	c.include("P09", checkP09, "statement", "statement-kinds")
	c.include("P10", checkP10, "keys", "values")
	c.include("P11", checkP11, "statement", "key", "key-kind", "column-set")
	c.Min("by-key", 60)
}

// ---- P25

type operatorSpec struct {
	text string // C column, ? operand
	list bool
}

var operators = map[string]operatorSpec{
	"Equal":              {text: "C = ?"},
	"NotEqual":           {text: "C <> ?"},
	"GreaterThan":        {text: "C > ?"},
	"GreaterThanOrEqual": {text: "C >= ?"},
	"LessThan":           {text: "C < ?"},
	"LessThanOrEqual":    {text: "C <= ?"},
	"Like":               {text: "C LIKE ?"},
	"NotLike":            {text: "C NOT LIKE ?"},
	"In":                 {text: "C IN (?)", list: true},
	"NotIn":              {text: "C NOT IN (?)", list: true},
	"Between":            {text: "C BETWEEN ? AND ?"},
	"NotBetween":         {text: "C NOT BETWEEN ? AND ?"},
	"IsNull":             {text: "C IS NULL"},
	"IsNotNull":          {text: "C IS NOT NULL"},
	"Set":                {text: "C = ?"},
}

// renderTokens writes tokens in a canonical form.
func renderTokens(in []tk, column string, list bool) string {
	var n []string
	for _, x := range in {
		switch x.kind {
		case tWord:
			n = append(n, x.s)
		case tPunct:
			s := x.s
			if s == "!=" {
				s = "<>"
			}
			n = append(n, s)
		case tPh:
			n = append(n, "?")
		case tHole:
			switch v := plainHole(x.v).(type) {
			case *sym:
				if v.op == "m:ColumnName" && len(v.args) == 1 && v.args[0].key() == column {
					n = append(n, "C")
				} else {
					n = append(n, "{"+v.key()+"}")
				}
			default:
				n = append(n, "{"+v.key()+"}")
			}
		case tGroup:
			switch {
			case list && onlyPh(x.sub):
				n = append(n, "(?)")
			default:
				n = append(n, "("+renderTokens(x.sub, column, list)+")")
			}
		case tOpaque:
			n = append(n, "clause")
		default:
			n = append(n, "{?"+x.s+"}")
		}
	}
	return strings.Join(n, " ")
}

func checkP25(c *Ctx) {
	r := runHelpers(c.L)
	done := map[string]map[string]bool{}
	for _, b := range r.builts {
		dn, f, _ := strings.Cut(b.entry, ".")
		p := c.L.pkgs[helperPkgPath(dn)]
		o, _ := p.Types.Scope().Lookup(f).(*types.Func)
		if o == nil {
			continue
		}
		if done[b.entry] == nil {
			done[b.entry] = map[string]bool{}
		}
		sg := o.Type().(*types.Signature)
		param := func(i int) string {
			if i < sg.Params().Len() {
				return "p:" + sg.Params().At(i).Name()
			}
			return ""
		}
		if f == "And" || f == "Or" {
			if b.doc != nil {
				done[b.entry]["text"] = true
				checkJunction(c, r, b, strings.ToUpper(f), param(0))
			}
			continue
		}
		if f == "Asc" || f == "Desc" {
			done[b.entry]["text"] = true
			checkOrder(c, r, b, f == "Asc", param(0))
			continue
		}
		spec, ok := operators[f]
		if !ok || b.doc == nil && b.args == nil {
			continue
		}
		e := r.eng[b.entry]
		var bad []string
		got := renderTokens(tokens(b.dialect, b.doc), param(0), spec.list)
		if got != spec.text {
			bad = append(bad, "the clause reads "+got+", expected "+spec.text)
		}
		col := &sym{k: param(0)}
		conv := says(b.st, col, "ColumnConvertClause") || says(b.st, col, "SQLColumnClause")
		sqlCol := says(b.st, col, "SQLColumnClause")
		raw := saysNot(b.st, col, "ColumnConvertClause")
		// operands
		operand := func(v val) string {
			k := v.key()
			if conv {
				return "m:Convert(" + param(0) + "," + k + ")"
			}
			return k
		}
		sc := &stmtCheck{e: e, st: b.st}
		args := sc.argItems(e.toSegs(b.st, b.args))
		if spec.list {
			list := mkSym(param(1), sg.Params().At(1).Type())
			if len(args) > 0 || !knownZero(b.st, e.length(b.st, list)) {
				sc.match([]item{{idx: "i$op", from: poly{}, to: e.length(b.st, list), conds: []pathCond{nil}, paths: [][]item{{{one: true, col: e.elem(list, ps("i$op"), nil)}}}}}, args, 0, func(x, a item) {
					if keyOf(plainHole(a.v)) != operand(x.col) {
						sc.bad("operand %s is bound as %s", x.col.key(), keyOf(a.v))
					}
				})
			}
			bad = append(bad, sc.problems...)
		} else {
			var want []string
			for i := 1; i < sg.Params().Len(); i++ {
				want = append(want, operand(mkSym(param(i), nil)))
			}
			var have []string
			for _, a := range args {
				have = append(have, a.String())
			}
			if strings.Join(want, " ; ") != strings.Join(have, " ; ") {
				bad = append(bad, "binds "+strings.Join(have, " ; ")+", expected "+strings.Join(want, " ; "))
			}
		}
		if sg.Params().Len() > 1 {
			switch {
			case conv:
				done[b.entry]["converted"] = true
			case raw:
				done[b.entry]["raw"] = true
			default:
				if n := e.segsLen(b.st, e.toSegs(b.st, b.args)); len(n) > 0 {
					bad = append(bad, "the operand is bound without asking whether the column converts it")
				}
			}
			_ = sqlCol
		}
		done[b.entry]["text"] = true
		if len(bad) > 0 {
			c.Bad("operator", b.entry, b.pos, "%s: %s", short(b.doc.key()), short(strings.Join(uniq(bad), "; ")))
			continue
		}
		c.OK("operator", b.entry, "%s binds %s", got, short(keyOf(b.args)))
	}
	for _, d := range specDialects {
		names := []string{"And", "Or", "Asc", "Desc"}
		for f := range operators {
			names = append(names, f)
		}
		for _, f := range names {
			en := d.Name + "." + f
			c.Analysed(en)
			if p := r.problems[en]; len(p) > 0 {
				c.Bad("interpretable", en, token.NoPos, "the clause cannot be followed: %s", short(strings.Join(p, "; ")))
			}
			c.Check(done[en]["text"], "operator-present", en, token.NoPos, "%s writes its clause", en)
			if sp, ok := operators[f]; ok && strings.Contains(sp.text, "?") {
				c.Check(done[en]["converted"], "operator-converts", en, token.NoPos, "%s converts the operands of a converting column", en)
				c.Check(done[en]["raw"], "operator-raw", en, token.NoPos, "%s binds the operands of a plain column as they are", en)
			}
		}
	}
	checkColumns(c)
	c.Min("operator", 80)
	c.Min("junction", 6)
	c.Min("order", 6)
}

// checkJunction: ( clause WORD clause WORD clause ... ), every clause once.
func checkJunction(c *Ctx, r *stmtRun, b *built, word, clauses string) {
	toks := tokens(b.dialect, b.doc)
	var bad []string
	covered := poly{}
	if len(toks) != 1 || toks[0].kind != tGroup {
		bad = append(bad, "the clauses are not enclosed in one pair of parentheses")
	} else {
		first := true
		var walk func(in []tk, inLoop bool)
		walk = func(in []tk, inLoop bool) {
			expectClause := first
			for _, x := range in {
				switch {
				case x.kind == tOpaque:
					if !expectClause {
						bad = append(bad, "two clauses without "+word+" between them")
					}
					expectClause = false
					first = false
					if !inLoop {
						covered = covered.add(pc(1))
					}
				case x.kind == tWord && x.s == word && !expectClause:
					expectClause = true
				case x.kind == tLoop:
					wasFirst := first
					for i, p := range x.paths {
						first = wasFirst && loopFirst(x.lp, i)
						f := first
						walk(p, true)
						if !countClauses(p) {
							bad = append(bad, "a clause is left out")
						}
						_ = f
					}
					first, expectClause = false, false
					if x.lp.partial {
						bad = append(bad, "not every clause is visited")
					}
					covered = covered.add(x.lp.to.sub(x.lp.from))
				default:
					bad = append(bad, "unexpected "+x.s+" between clauses")
				}
			}
			if expectClause && !first {
				bad = append(bad, "a dangling "+word)
			}
		}
		walk(toks[0].sub, false)
		e := r.eng[b.entry]
		if n := e.length(b.st, mkSym(clauses, nil)); !covered.eq(n) && !(len(covered) == 0 && knownZero(b.st, n)) {
			bad = append(bad, covered.String()+" clauses of "+n.String()+" are written")
		}
	}
	if len(bad) > 0 {
		c.Bad("junction", b.entry, b.pos, "%s: %s", short(b.doc.key()), short(strings.Join(uniq(bad), "; ")))
		return
	}
	c.OK("junction", b.entry, "%s", short(b.doc.key()))
}

// knownZero: on this path the length is zero.
func knownZero(st *state, n poly) bool { return st.atoms["zero:"+n.String()] }

// loopFirst: the i-th way through the loop is taken in its first iteration.
func loopFirst(lp *loopInfo, i int) bool {
	if n, ok := lp.from.constant(); !ok || n != 0 {
		return false
	}
	for _, l := range lp.conds[i] {
		if l.atom == "zero:"+lp.idx {
			return l.pos
		}
	}
	return false
}

func countClauses(in []tk) bool {
	n := 0
	for _, x := range in {
		if x.kind == tOpaque {
			n++
		}
	}
	return n == 1
}

// checkOrder: Asc and Desc return the column with its direction.
func checkOrder(c *Ctx, r *stmtRun, b *built, asc bool, column string) {
	ok := false
	got := ""
	if len(b.ret) == 1 {
		e := r.eng[b.entry]
		v := b.ret[0]
		if p, isP := v.(vPtr); isP {
			v = e.load(b.st, p)
		}
		got = v.key()
		name, n, a, d := orderFacts(e, b, v)
		ok = name == "m:ColumnName("+column+")" && n && a == asc && d == !asc
	}
	c.Check(ok, "order", b.entry, b.pos, "%s returns %s", b.entry, short(got))
}

// orderFacts evaluates ColumnName, Asc and Desc of the returned value.
func orderFacts(e *absEngine, b *built, v val) (name string, ok, asc, desc bool) {
	ok = true
	call := func(m string) val {
		ds, recv, found := e.dispatch(v, m, b.st)
		if !found {
			ok = false
			return nil
		}
		var out []val
		fd := ds.fd
		var ro types.Object
		if fd.Recv != nil && len(fd.Recv.List[0].Names) > 0 {
			ro = ds.pkg.TypesInfo.Defs[fd.Recv.List[0].Names[0]]
		}
		e.enter(&frame{pkg: ds.pkg, name: m}, fd.Type, ro, recv, fd.Body, nil, b.st.clone(), func(_ *state, vs []val) {
			if len(vs) == 1 {
				out = append(out, vs[0])
			}
		})
		if len(out) != 1 {
			ok = false
			return nil
		}
		return out[0]
	}
	if n := call("ColumnName"); n != nil {
		name = keyOf(plainHole(n))
	}
	a, d := call("Asc"), call("Desc")
	x, o1 := a.(vBool)
	y, o2 := d.(vBool)
	if !o1 || !o2 {
		ok = false
	}
	return name, ok, bool(x), bool(y)
}

// shortLen is how much of a text is shown.
var shortLen = 300

func init() {
	if n, err := strconv.Atoi(os.Getenv("SHORT")); err == nil {
		shortLen = n
	}
}
