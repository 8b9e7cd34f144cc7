package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"strings"
)

// ---- P11

// colSet says what a method of the table selects from its columns.
type colSet struct {
	name string
	keys bool // leaves out the key columns as well
}

// tableMethod interprets a method of the table without arguments.
func tableMethod(c *Ctx, name string) (d *declSite, e *absEngine, ends []bodyEnd) {
	for o, dd := range c.L.declOf {
		f, ok := o.(*types.Func)
		if !ok || dd.pkg.PkgPath != compPath || f.Name() != name {
			continue
		}
		sig := f.Type().(*types.Signature)
		if sig.Recv() == nil || !namedIs(sig.Recv().Type(), compPath, "Table") || sig.Params().Len() > 0 {
			continue
		}
		ds := dd
		d = &ds
		e = newAbs(c.L)
		e.peel = true
		st := &state{heap: map[loc]val{}, atoms: map[string]bool{}}
		tt, _ := derefNamed(sig.Recv().Type())
		var recv val = mkSym("T", tt)
		if _, isPtr := sig.Recv().Type().(*types.Pointer); isPtr {
			recv = e.alloc(st, recv)
		}
		var ro types.Object
		if len(ds.fd.Recv.List[0].Names) > 0 {
			ro = ds.pkg.TypesInfo.Defs[ds.fd.Recv.List[0].Names[0]]
		}
		e.enter(&frame{pkg: ds.pkg, name: name}, ds.fd.Type, ro, recv, ds.fd.Body, nil, st, func(st *state, vs []val) {
			ends = append(ends, bodyEnd{"return", st.clone(), vs})
		})
		return
	}
	return
}

// colFact classifies a condition about the column el: read-only, the
// auto-increment column, or a key column.
func colFact(atom, el string) string {
	auto := ".autoIncrKey(T)"
	nameIs := func(x string) bool { return strings.HasPrefix(x, ".Name(") }
	_ = nameIs
	switch {
	case atom == ".Readonly("+el+")", atom == "true:.Readonly("+el+")":
		return "readonly"
	case eqOf(atom, el, auto), eqOf(atom, ".Name("+el+")", ".Name("+auto+")"):
		return "auto"
	case strings.HasPrefix(atom, "in("+el+",") || strings.HasPrefix(atom, "in(.Name("+el+"),") || strings.HasPrefix(atom, "call:slices.Contains(") || strings.HasPrefix(atom, "call:github.com/samber/lo.Contains("):
		if strings.Contains(atom, el) && wholeKeys(atom) {
			return "key"
		}
	case strings.HasPrefix(atom, "any:") || strings.HasPrefix(atom, "all:"):
		// some key column is this one: any:0..len(.Keys(T))|eq(...)
		rest, ok := strings.CutPrefix(atom[4:], "0..len(.Keys(T))|")
		if ok && eqAny(rest, el) {
			return "key"
		}
	default:
		// a loop over the keys found this column
		if i := strings.Index(atom, "elem(.Keys(T),"); i >= 0 && eqAny(atom, el) {
			return "key"
		}
	}
	return ""
}

func eqOf(atom, a, b string) bool {
	return atom == "eq("+a+","+b+")" || atom == "eq("+b+","+a+")"
}

// eqAny: the atom compares the column with some key column.
func eqAny(atom, el string) bool {
	in, ok := strings.CutPrefix(atom, "eq(")
	if !ok || !strings.HasSuffix(in, ")") {
		return false
	}
	in = in[:len(in)-1]
	for _, p := range []string{el, ".Name(" + el + ")"} {
		var other string
		if o, ok := strings.CutPrefix(in, p+","); ok {
			other = o
		} else if o, ok := strings.CutSuffix(in, ","+p); ok {
			other = o
		} else {
			continue
		}
		if strings.HasPrefix(p, ".Name(") {
			o, ok := strings.CutPrefix(other, ".Name(")
			if !ok {
				continue
			}
			other = strings.TrimSuffix(o, ")")
			other += ""
		}
		if strings.HasPrefix(other, "elem(.Keys(T),") {
			return true
		}
	}
	return false
}

// wholeKeys: the set mentioned in the atom is made of all key columns.
func wholeKeys(atom string) bool {
	if strings.Contains(atom, "..len(.Keys(T)){") {
		return strings.Contains(atom, "=0..len(.Keys(T)){->[") || strings.Contains(atom, "[.Keys(T)[0:len(.Keys(T))]]")
	}
	return strings.Contains(atom, ".Keys(T)") && !strings.Contains(atom, "elem(.Keys(T),")
}

func checkColumnSets(c *Ctx) {
	for _, cs := range []colSet{{"InsertColumns", false}, {"ColumnsWithoutPK", true}} {
		d, e, ends := tableMethod(c, cs.name)
		if d == nil {
			c.Bad("column-set", cs.name, token.NoPos, "the method is not found")
			continue
		}
		pos := d.fd.Pos()
		c.Analysed("Table." + cs.name)
		if len(e.problems) > 0 || len(ends) == 0 {
			c.Bad("column-set", cs.name, pos, "the method cannot be followed: %s", short(strings.Join(uniq(e.problems), "; ")))
			continue
		}
		for _, en := range ends {
			if len(en.vals) != 1 {
				continue
			}
			bad := columnSet(e, en, cs)
			if len(bad) > 0 {
				c.Bad("column-set", cs.name, pos, "%s", short(strings.Join(uniq(bad), "; ")))
			} else {
				c.OK("column-set", cs.name, "%s", short(en.vals[0].key()))
			}
		}
	}
	// AutoIncrKey and HasPK
	if d, e, ends := tableMethod(c, "AutoIncrKey"); d != nil {
		c.Analysed("Table.AutoIncrKey")
		ok := len(e.problems) == 0 && len(ends) > 0
		for _, en := range ends {
			isNil, known := en.st.atoms["nil:.autoIncrKey(T)"]
			if len(en.vals) != 2 {
				ok = false
				continue
			}
			b, isB := en.vals[1].(vBool)
			v := en.vals[0].key()
			if !isB || !known || bool(b) == isNil || v != ".autoIncrKey(T)" && !(isNil && v == "nil") {
				ok = false
			}
		}
		c.Check(ok, "key-kind", "AutoIncrKey", d.fd.Pos(), "the auto-increment column is returned, and true exactly when there is one")
	}
	if d, e, ends := tableMethod(c, "HasPK"); d != nil {
		c.Analysed("Table.HasPK")
		ok := len(e.problems) == 0 && len(ends) > 0
		for _, en := range ends {
			noAuto, k1 := en.st.atoms["nil:.autoIncrKey(T)"]
			noKeys, k2 := en.st.atoms["zero:len(.Keys(T))"]
			b, isB := val(nil), false
			if len(en.vals) == 1 {
				b, isB = en.vals[0], true
			}
			vb, isV := b.(vBool)
			if !isB || !isV {
				ok = false
				continue
			}
			if vb {
				ok = ok && (k1 && !noAuto || k2 && !noKeys)
			} else {
				ok = ok && k1 && noAuto && k2 && noKeys
			}
		}
		c.Check(ok, "key-kind", "HasPK", d.fd.Pos(), "true exactly when there is an auto-increment column or a key column")
	}
}

// columnSet checks that a list holds every column of the table, in order, except
// exactly those it must leave out.
func columnSet(e *absEngine, en bodyEnd, cs colSet) (bad []string) {
	noKeys := e.knownZero(en.st, ps("len(.Keys(T))"))
	noCols := e.knownZero(en.st, ps("len(.Columns(T))"))
	segs := e.toSegs(en.st, en.vals[0])
	if len(segs) == 0 {
		if !noCols {
			bad = append(bad, "no column is selected")
		}
		return
	}
	at := poly{}
	for _, s := range segs {
		switch s.kind {
		case segLoop:
			if s.lp.partial {
				bad = append(bad, "the selection ends early")
				continue
			}
			if !s.lp.from.eq(at) {
				bad = append(bad, "columns before "+s.lp.from.String()+" are not considered")
			}
			at = s.lp.to
			el := "elem(.Columns(T)," + s.lp.idx + ")"
			for i, p := range s.paths {
				facts := map[string]map[bool]bool{}
				for _, l := range s.lp.conds[i] {
					if f := colFact(l.atom, el); f != "" {
						if facts[f] == nil {
							facts[f] = map[bool]bool{}
						}
						v := l.pos
						facts[f][v] = true
					}
				}
				for a, v := range en.st.atoms {
					if a == "nil:.autoIncrKey(T)" && v {
						facts["auto"] = map[bool]bool{false: true}
					}
				}
				if noKeys && facts["key"] == nil {
					facts["key"] = map[bool]bool{false: true}
				}
				switch {
				case len(p) == 0:
					if !facts["readonly"][true] && !facts["auto"][true] && !(cs.keys && facts["key"][true]) {
						bad = append(bad, "a column is left out though it is neither read-only nor the auto-increment column"+map[bool]string{true: " nor a key"}[cs.keys]+": "+s.lp.conds[i].key())
					}
				case len(p) == 1 && p[0].kind == segOne && p[0].v.key() == el:
					for _, f := range []string{"readonly", "auto", "key"} {
						if f == "key" && !cs.keys {
							continue
						}
						if !facts[f][false] {
							bad = append(bad, fmt.Sprintf("a column is selected without knowing that it is not %s: %s", map[string]string{"readonly": "read-only", "auto": "the auto-increment column", "key": "a key column"}[f], s.lp.conds[i].key()))
						}
					}
				default:
					bad = append(bad, "selects "+segsKey(p))
				}
			}
		default:
			bad = append(bad, "selects "+s.key())
		}
	}
	if len(bad) == 0 && at.String() != "len(.Columns(T))" {
		bad = append(bad, "columns after "+at.String()+" are not considered")
	}
	return
}

// knownZero: the number is zero on this path.
func (e *absEngine) knownZero(st *state, p poly) bool {
	if n, ok := p.constant(); ok {
		return n == 0
	}
	return st.atoms["zero:"+p.String()]
}

func checkP11(c *Ctx) {
	files := generated(c)
	pos := genPos(c)
	checkColumnSets(c)
	for _, f := range files {
		en := func(s string) string { return f.g.dialect + "." + s }
		report := func(rule, name string, p []string, okMsg string) {
			if len(p) > 0 {
				c.Bad(rule, en(name), pos, "%s (%s)", short(strings.Join(uniq(p), "; ")), short(f.facts()))
			} else {
				c.OK(rule, en(name), "%s", okMsg)
			}
		}
		readonly, roKnown := f.g.st.atoms[".Readonly(T)"]
		ins := tableList("m:InsertColumns")
		upd := tableList("m:ColumnsWithoutPK")
		if l, ok := f.list("Values"); ok {
			report("insert-columns", "Values", f.pairs(l, f.as("val", ins), "Values", same("val", "val")), "exactly the insertable columns")
			if f.by["InsertColumns"] == nil {
				n, m := ps("len("+mkSym(".Columns", nil, mkSym("T", nil)).k+")"), ps("len("+mkSym("m:InsertColumns", nil, mkSym("T", nil)).k+")")
				report("insert-columns", "no InsertColumns", ifNot(f.zero(n.sub(m)) || f.zero(m.sub(n)), "all columns are taken for insertable"), "every column is insertable")
			}
		}
		if l, ok := f.list("InsertColumns"); ok {
			report("insert-columns", "InsertColumns", f.pairs(l, f.as("name", ins), "InsertColumns", same("name", "name")), "exactly the insertable columns")
		}
		if roKnown && readonly {
			var bad []string
			for _, n := range []string{"Values", "InsertColumns", "InsertPlaceholders", "InsertOneStmt", "UpdateOneByPKStmt"} {
				if f.by[n] != nil {
					bad = append(bad, n+" is generated for a read-only table")
				}
			}
			report("readonly-table", "read-only table", bad, "nothing writes it")
		}
		hasKey := !f.zero(ps("len(.Keys(T))")) || f.g.st.atoms["nil:.autoIncrKey(T)"] == false
		if _, known := f.g.st.atoms["nil:.autoIncrKey(T)"]; known {
			var bad []string
			bad = append(bad, ifNot((f.by["HasPK"] != nil) == hasKey, "HasPK does not tell whether there is a key")...)
			bad = append(bad, ifNot((f.by["FindOneByPKStmt"] != nil) == hasKey, "the lookup by key does not come with a key")...)
			auto := !f.g.st.atoms["nil:.autoIncrKey(T)"]
			bad = append(bad, ifNot((f.by["IsAutoIncr"] != nil) == auto, "IsAutoIncr does not tell whether there is an auto-increment column")...)
			bad = append(bad, ifNot((f.by["ScanAutoIncr"] != nil) == auto, "ScanAutoIncr does not come with an auto-increment column")...)
			if auto {
				bad = append(bad, f.scanAuto()...)
			}
			if hasKey {
				bad = append(bad, f.exposedKey()...)
			}
			report("key", "key", bad, "the key is exposed as a whole")
		}
		for _, s := range f.statements() {
			report("statement", s.fn.name, f.touches(s, ins, upd), "only the columns it may touch")
		}
	}
	c.Min("statement", 100)
	c.Min("key", 60)
	c.Min("insert-columns", 60)
	c.Min("column-set", 2)
	c.Min("key-kind", 2)
	c.Min("interpretable", 5)
}

func ifNot(ok bool, msg string) []string {
	if ok {
		return nil
	}
	return []string{msg}
}

// scanAuto: the key of a new row is stored in the auto-increment field.
func (f *genFile) scanAuto() []string {
	fn := f.only("ScanAutoIncr")
	if fn == nil {
		return []string{"ScanAutoIncr is not generated once"}
	}
	if !fn.isPtr() {
		return []string{"ScanAutoIncr works on a copy"}
	}
	p := "val"
	if len(fn.params) > 0 && fn.params[0].kind == 'w' {
		p, _ = fn.params[0].d.constString()
	}
	// v.Field = T(val)
	b := fn.body
	for i := 0; i+1 < len(b); i++ {
		if !b[i+1].isPunct("=") || b[i].kind != 'w' {
			continue
		}
		ok := false
		d := b[i].d
		for _, x := range d {
			if x.kind != pHole {
				continue
			}
			for _, n := range []string{"GoName", "GoPath"} {
				if c, is := fieldOf(x.v, n); is && c.key() == ".autoIncrKey(T)" {
					ok = len(d) == 2 && d[0].kind == pLit && (d[0].s == "v." && n == "GoName" || d[0].s == "v" && n == "GoPath")
				}
			}
		}
		if !ok {
			return []string{"ScanAutoIncr assigns " + b[i].key()}
		}
		rest := gkey(b[i+2:])
		if !strings.Contains(" "+rest+" ", " "+p+" ") {
			return []string{"ScanAutoIncr stores " + short(rest)}
		}
		return nil
	}
	return []string{"ScanAutoIncr assigns nothing"}
}

// exposedKey: PK or CompositeKey give the whole key.
func (f *genFile) exposedKey() []string {
	key, ok := f.key()
	if !ok {
		return []string{"the key is not known"}
	}
	single := len(key) == 1 && key[0].kind == segOne
	pk, ck := f.only("PK"), f.only("CompositeKey")
	if single != (pk != nil) || single == (ck != nil) {
		return []string{"a single key comes with PK, another with CompositeKey"}
	}
	fn := pk
	if fn == nil {
		fn = ck
	}
	r := fn.returns()
	if len(r) != 1 || len(r[0]) != 3 {
		return []string{fn.name + " does not return a name, a position and a value"}
	}
	var l []seg
	if single {
		l = elements(r[0][0])
	} else if x, ok := sliceLit(r[0][0]); ok {
		l = x
	}
	return f.pairs(l, f.as("name", key), fn.name, same("name", "name"))
}

// touches checks the columns a statement writes and compares.
func (f *genFile) touches(s *genStmt, ins, upd []seg) []string {
	toks := tokens(f.g.dialect, s.sql)
	if len(toks) == 0 || toks[0].kind != tWord {
		return []string{"the statement is not determined"}
	}
	// the clauses of the statement
	cut := func(word string) (before, after []tk, ok bool) {
		for i, t := range toks {
			if t.kind == tWord && t.s == word {
				return toks[:i], toks[i+1:], true
			}
		}
		return toks, nil, false
	}
	key, keyOK := f.key()
	sc := &stmtCheck{e: f.e, st: f.g.st}
	cols := func(in []tk, want []seg, what string) []string {
		its := f.known(sc.items(in, false))
		w := f.known(sc.argItems(want))
		if len(sc.problems) == 0 {
			sc.match(its, w, 0, func(p, q item) {
				if p.col == nil {
					sc.bad("%s: a placeholder without column beside %s", what, q.v.key())
					return
				}
				if c, ok := columnIdent(p.col); !ok || c.key() != q.v.key() {
					sc.bad("%s: %s where %s belongs", what, p.col.key(), q.v.key())
				}
			})
		}
		return sc.problems
	}
	where := func() []string {
		before, after, ok := cut("WHERE")
		_ = before
		if !ok {
			return []string{"there is no WHERE clause"}
		}
		if !keyOK {
			return []string{"the key is not known"}
		}
		end := len(after)
		for i, t := range after {
			if t.kind == tWord && (t.s == "LIMIT" || t.s == "RETURNING") || t.kind == tPunct && t.s == ";" {
				end = i
				break
			}
		}
		cond := after[:end]
		if msg := onlyEqualities(cond); msg != "" {
			return []string{msg}
		}
		return cols(cond, key, "WHERE")
	}
	switch toks[0].s {
	case "SELECT":
		return where()
	case "INSERT":
		end := len(toks)
		for i, t := range toks {
			if t.kind == tWord && (t.s == "RETURNING" || t.s == "ON") {
				end = i
				break
			}
		}
		return cols(toks[:end], ins, "INSERT")
	case "UPDATE":
		before, _, ok := cut("WHERE")
		if !ok {
			return []string{"there is no WHERE clause"}
		}
		set := -1
		for i, t := range before {
			if t.kind == tWord && t.s == "SET" {
				set = i
			}
		}
		if set < 0 {
			return []string{"there is no SET clause"}
		}
		out := cols(before[set+1:], upd, "SET")
		if len(out) == 0 {
			sc = &stmtCheck{e: f.e, st: f.g.st}
			out = where()
		}
		return out
	case "DELETE":
		return where()
	}
	return []string{"unexpected " + toks[0].s}
}

// onlyEqualities: the condition is a conjunction of equalities.
func onlyEqualities(in []tk) string {
	for _, t := range in {
		switch t.kind {
		case tWord:
			if t.s != "AND" {
				return "the condition contains " + t.s
			}
		case tPunct:
			if t.s != "=" && t.s != "," {
				return "the condition contains " + t.s
			}
		case tGroup, tOpaque:
			if m := onlyEqualities(t.sub); m != "" {
				return m
			}
		case tLoop:
			for _, p := range t.paths {
				if m := onlyEqualities(p); m != "" {
					return m
				}
			}
		case tHole, tPh, tJoin:
		default:
			return "the condition is not determined"
		}
	}
	return ""
}

// ---- P12

// quotedEverywhere checks every name written into a string of the file.
func (f *genFile) quotedNames(c *Ctx) (stmts, exposed, delim []string, n int) {
	inStmt := map[string]bool{}
	for _, s := range f.statements() {
		inStmt[s.fn.name] = true
	}
	var walk func(in []gtok, stmt bool, fn string)
	var str func(d doc, raw, stmt bool, fn string)
	str = func(d doc, raw, stmt bool, fn string) {
		for _, p := range d {
			switch p.kind {
			case pHole:
				col, q, ok := nameOf(p.v)
				if !ok {
					if x, is := p.v.(vStr); is {
						str(x.d, raw, stmt, fn)
						continue
					}
					if stmt {
						stmts = append(stmts, fn+": "+keyOf(p.v)+" is no quoted name")
					}
					continue
				}
				n++
				_ = col
				if stmt && !q {
					stmts = append(stmts, fn+": the name of "+col.key()+" is not quoted")
				}
				if !stmt && q != f.g.quoted {
					exposed = append(exposed, fmt.Sprintf("%s: the name of %s is quoted=%t", fn, col.key(), q))
				}
				if q {
					ch := quoteChar(c, f.g.dialect)
					if ch == '`' && raw || ch == '"' && !raw {
						delim = append(delim, fn+": the quotes of the name end the literal")
					}
				}
			case pLoop:
				for _, q := range p.paths {
					str(q, raw, stmt, fn)
				}
			case pRep:
				str(p.d, raw, stmt, fn)
			case pJoin:
				var rec func(in []seg)
				rec = func(in []seg) {
					for _, s := range in {
						switch s.kind {
						case segOne:
							str(toDoc(s.v), raw, stmt, fn)
						case segLoop:
							for _, q := range s.paths {
								rec(q)
							}
						default:
							stmts = append(stmts, fn+": a list of names is not determined")
						}
					}
				}
				rec(p.list)
			case pLit, pNum:
			default:
				stmts = append(stmts, fn+": text that is not determined")
			}
		}
	}
	walk = func(in []gtok, stmt bool, fn string) {
		for _, t := range in {
			switch t.kind {
			case 's':
				str(t.d, t.raw, stmt, fn)
			case 'l':
				for _, p := range t.paths {
					walk(p, stmt, fn)
				}
			}
		}
	}
	for _, fn := range f.funcs {
		walk(fn.body, inStmt[fn.name], fn.name)
	}
	return
}

var quoteChars = map[string]byte{}

// quoteChar is the quote a dialect puts around identifiers, read from its code.
func quoteChar(c *Ctx, dialect string) byte {
	if b, ok := quoteChars[dialect]; ok {
		return b
	}
	b, _ := dialectQuote(c, dialect)
	quoteChars[dialect] = b
	return b
}

// dialectMethod interprets a method of a dialect with symbolic arguments.
func dialectMethod(c *Ctx, dialect, name string) (d *declSite, e *absEngine, ends []bodyEnd) {
	t := dialectType(c.L, dialect)
	if t == nil {
		return
	}
	o, _, _ := types.LookupFieldOrMethod(types.NewPointer(t), true, nil, name)
	f, ok := o.(*types.Func)
	if !ok {
		return
	}
	dd, ok := c.L.declOf[f]
	if !ok {
		return
	}
	d = &dd
	e = newAbs(c.L)
	st := &state{heap: map[loc]val{}, atoms: map[string]bool{}}
	params := map[string]types.Type{}
	args, _ := paramVals(e, dd.pkg.TypesInfo, dd.fd.Type, "p:", st, params, nil)
	for i := range args {
		if s, ok := args[i].(*sym); ok && isIntType(s.typ.Underlying()) {
			args[i] = vInt{ps(s.k)}
		}
	}
	recv := e.alloc(st, &vStruct{typ: t, f: map[string]val{}})
	var ro types.Object
	if dd.fd.Recv != nil && len(dd.fd.Recv.List[0].Names) > 0 {
		ro = dd.pkg.TypesInfo.Defs[dd.fd.Recv.List[0].Names[0]]
	}
	e.enter(&frame{pkg: dd.pkg, name: name}, dd.fd.Type, ro, recv, dd.fd.Body, args, st, func(st *state, vs []val) {
		ends = append(ends, bodyEnd{"return", st.clone(), vs})
	})
	return
}

var wantQuote = map[string]string{"mysql": "`", "postgres": `"`, "sqlite": "\"`"}

// dialectQuote reads how a dialect quotes an identifier.
func dialectQuote(c *Ctx, dialect string) (byte, []string) {
	d, e, ends := dialectMethod(c, dialect, "QuoteIdentifier")
	if d == nil {
		return 0, []string{"QuoteIdentifier is not found"}
	}
	bad := append([]string{}, e.problems...)
	var ch byte
	for _, en := range ends {
		if len(en.vals) != 1 {
			continue
		}
		got := byte(0)
		v := toDoc(en.vals[0])
		if s, ok := plainHole(en.vals[0]).(*sym); ok && s.op == "call:strconv.Quote" && len(s.args) == 1 && isParam(s.args[0]) {
			got = '"'
		} else if len(v) == 3 && v[0].kind == pLit && v[2].kind == pLit && v[0].s == v[2].s && len(v[0].s) == 1 && v[1].kind == pHole && (isParam(v[1].v) || doubles(v[1].v, v[0].s)) {
			got = v[0].s[0]
		} else if len(v) == 1 && v[0].kind == pHole {
			if s, ok := v[0].v.(*sym); ok && s.op == "call:strconv.Quote" && len(s.args) == 1 && isParam(s.args[0]) {
				got = '"'
			}
		}
		if got == 0 {
			bad = append(bad, "an identifier becomes "+short(en.vals[0].key()))
			continue
		}
		if ch != 0 && ch != got {
			bad = append(bad, "identifiers are quoted in two ways")
		}
		ch = got
	}
	if len(ends) == 0 {
		bad = append(bad, "QuoteIdentifier returns nothing")
	}
	if ch != 0 && !strings.ContainsRune(wantQuote[dialect], rune(ch)) {
		bad = append(bad, fmt.Sprintf("%q does not quote identifiers in %s", ch, dialect))
	}
	return ch, bad
}

func isParam(v val) bool {
	s, ok := plainHole(v).(*sym)
	return ok && strings.HasPrefix(s.op, "p:")
}

// doubles: the quotes inside the identifier are doubled.
func doubles(v val, q string) bool {
	s, ok := plainHole(v).(*sym)
	if !ok || len(s.args) < 3 || !isParam(s.args[0]) {
		return false
	}
	a, ok1 := toDoc(s.args[1]).constString()
	b, ok2 := toDoc(s.args[2]).constString()
	return (s.op == "call:strings.ReplaceAll" || s.op == "call:strings.Replace") && ok1 && ok2 && a == q && b == q+q
}

func checkP12(c *Ctx) {
	files := generated(c)
	pos := genPos(c)
	for _, dn := range specDialects {
		c.Analysed(dn.Name + ".QuoteIdentifier")
		ch, bad := dialectQuote(c, dn.Name)
		// the generator picks the other quote for Go literals after QuoteRune
		if d, e, ends := dialectMethod(c, dn.Name, "QuoteRune"); d != nil {
			bad = append(bad, e.problems...)
			for _, en := range ends {
				if len(en.vals) == 1 {
					if n, ok := asPoly(en.vals[0]); ok {
						if k, ok := n.constant(); !ok || ch != 0 && byte(k) != ch {
							bad = append(bad, "QuoteRune is not the quote of identifiers")
						}
					}
				}
			}
		}
		c.Check(len(bad) == 0, "quoting", dn.Name, pos, "identifiers are enclosed in %q%s", ch, prefixed(": ", bad))
	}
	for _, f := range files {
		stmts, exposed, delim, n := f.quotedNames(c)
		en := f.g.dialect
		c.Check(len(stmts) == 0 && n > 0, "statement-names", en, pos, "every name in a statement is quoted%s (%s)", prefixed(": ", uniq(stmts)), short(f.facts()))
		c.Check(len(exposed) == 0, "exposed-names", en, pos, "exposed names follow the setting quoted=%t%s (%s)", f.g.quoted, prefixed(": ", uniq(exposed)), short(f.facts()))
		c.Check(len(delim) == 0, "literals", en, pos, "quotes of names stay inside their literals%s (%s)", prefixed(": ", uniq(delim)), short(f.facts()))
	}
	checkTagNames(c)
	c.Min("statement-names", 60)
	c.Min("exposed-names", 60)
	c.Min("literals", 60)
	c.Min("quoting", 3)
	c.Min("tag-name", 2)
	c.Min("pattern", 1)
	c.Min("interpretable", 5)
}

func prefixed(p string, in []string) string {
	if len(in) == 0 {
		return ""
	}
	return p + short(strings.Join(in, "; "))
}

var _ = ast.Inspect
