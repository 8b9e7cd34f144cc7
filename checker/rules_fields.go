package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strings"
)

// ---- P19

func init() {
	register("P19", "Interprets, from an arbitrary state and for every path, how the parser handles one field while columns are collected, one declaration of a struct while fields are collected, and one struct: a column is added exactly for an exported field that is neither embedded, excluded, nor the table name; names and auto-increment keys that repeat are errors; options come from the field's own tag, annotations from the struct's own comment; fields keep their declaration order through the index they are sorted by.", checkP19)
}

func checkP19(c *Ctx) {
	columnRules(c)
	structRules(c)
	fieldRules(c)
	orderRules(c)
	sharedAppend(c)
	c.Min("column", 10)
	c.Min("left-out", 10)
	c.Min("struct", 3)
	c.Min("annotation", 2)
	c.Min("field", 3)
	c.Min("embedded", 2)
	c.Min("order", 1)
	c.Min("interpretable", 3)
}

func fmtBad(c *Ctx, rule, what string, pos token.Pos, bad []string, okMsg, ctx string) {
	if len(bad) > 0 {
		c.Bad(rule, what, pos, "%s (%s)", short(strings.Join(uniq(bad), "; ")), ctx)
	} else {
		c.OK(rule, what, "%s", okMsg)
	}
}

func columnRules(c *Ctx) {
	for _, cr := range columnRuns(c) {
		for _, ce := range cr.colEnds {
			ff := cr.facts(ce)
			bad := append(append([]string{}, ce.bad...), ff.bad...)
			ctx := cr.describe(ce)
			switch {
			case ce.kind == "return":
				if len(ce.vals) == 0 || isNilVal(ce.vals[len(ce.vals)-1]) {
					bad = append(bad, "the parser stops at a field without an error")
				}
				fmtBad(c, "error", "column", cr.where(c), bad, "an error is returned", ctx)
				continue
			case ce.kind != "next":
				fmtBad(c, "left-out", "column", cr.where(c), append(bad, "the remaining fields of the struct are left out ("+ce.kind+")"), "", ctx)
				continue
			case ce.app == nil:
				if !yes(ff.embedded) && !no(ff.exported) && !yes(ff.dash) && !yes(ff.table) {
					bad = append(bad, "an exported field that is not excluded becomes no column")
				}
				if len(ce.keys) > 0 || ce.auto != "" {
					bad = append(bad, "a field that becomes no column is a key")
				}
				fmtBad(c, "left-out", "column", cr.where(c), bad, "unexported, excluded, embedded or the table name", ctx)
				continue
			}
			if !yes(ff.exported) {
				bad = append(bad, "an unexported field may become a column")
			}
			if !no(ff.embedded) {
				bad = append(bad, "an embedded struct may become a column beside its fields")
			}
			if !no(ff.dash) {
				bad = append(bad, "an excluded field may become a column")
			}
			if !no(ff.table) {
				bad = append(bad, "the table name may become a column")
			}
			e := cr.e
			get := func(n string) string { return unquoteKey(keyOf(e.field(ce.st, ce.app, n, nil))) }
			for n, want := range map[string]string{"GoName": ".name(" + cr.F + ")", "Type": ".t(" + cr.F + ")", "goField": cr.F} {
				if got := get(n); got != want {
					bad = append(bad, fmt.Sprintf("%s of the column is %s", n, short(got)))
				}
			}
			// duplicates
			if !no(ff.dup) || unquoteKey(ff.dupKey) != get("Name") {
				bad = append(bad, "a column is added without knowing that its name is new")
			}
			if msg := cr.remembered(ce, get("Name")); msg != "" {
				bad = append(bad, msg)
			}
			// options
			ro := get("Readonly")
			switch {
			case yes(ff.opts["readonly"]):
				if ro != "true" {
					bad = append(bad, "the option readonly has no effect")
				}
			case no(ff.opts["readonly"]) || yes(ff.dash) || no(ff.named) && len(ff.opts) == 0:
				if ro != "false" {
					bad = append(bad, "a column without the option is read-only")
				}
			default:
				if ro == "true" || ro != "false" && !strings.Contains(ro, "\"readonly\"") {
					bad = append(bad, "a column is read-only without the option: "+short(ro))
				}
			}
			ptr := ""
			if v, ok := ce.table.f["Columns"]; ok {
				segs := e.toSegs(nil, v)
				ptr = segs[len(segs)-1].v.key()
			}
			auto := yes(ff.opts["auto_increment"])
			key := yes(ff.opts["pk"]) || yes(ff.opts["primary_key"])
			noTag := ce.st.atoms["empty:"+cr.G]
			if cut, ok := ce.st.atoms["call:strings.Cut#2("+cr.G+",«\",\"»)"]; ok && !cut {
				// a tag with a name only
				noTag = true
			}
			switch {
			case auto:
				if ce.auto != ptr {
					bad = append(bad, "the auto-increment key is not stored")
				}
				if isNil, ok := ce.st.atoms["nil:.autoIncrKey(TABLE)"]; !ok || !isNil {
					bad = append(bad, "a second auto-increment key replaces the first")
				}
			case key:
				if len(ce.keys) != 1 || ce.keys[0].kind != segOne || ce.keys[0].v.key() != ptr {
					bad = append(bad, "the key column is not added to the keys")
				}
				if ce.auto != "" {
					bad = append(bad, "a key without the option becomes the auto-increment key")
				}
			default:
				if len(ce.keys) > 0 || ce.auto != "" {
					bad = append(bad, "a column without the option is a key")
				}
				if !noTag {
					for _, o := range []string{"auto_increment", "pk", "primary_key"} {
						if !no(ff.opts[o]) {
							bad = append(bad, "the option "+o+" is not considered")
						}
					}
				}
			}
			fmtBad(c, "column", "column", cr.where(c), bad, "one column, with the options of its field", ctx)
		}
	}
}

func isNilVal(v val) bool { _, ok := v.(vNil); return ok }

// remembered: the name is stored where duplicates are looked up.
func (cr *colRun) remembered(ce *colEnd, name string) string {
	for o, v := range cr.vars {
		if _, ok := v.(vMapRef); !ok {
			continue
		}
		r, ok := cr.at(ce.bodyEnd, o).(vMapRef)
		if !ok {
			continue
		}
		if m, ok := ce.st.heap[r.l].(*vMap); ok {
			for _, s := range m.segs {
				if s.kind == segOne {
					if en, ok := s.v.(vEntry); ok && unquoteKey(en.k.key()) == name {
						if b, isBool := en.v.(vBool); isBool && !bool(b) {
							continue
						}
						return ""
					}
				}
			}
		}
	}
	return "the name of the column is not remembered"
}

func structRules(c *Ctx) {
	for _, sr := range structRuns(c) {
		pos := sr.loop.Pos()
		kinds := map[string]bool{}
		for _, en := range sr.entries {
			kinds[en.what] = true
			var bad []string
			var n []types.Object
			for o := range en.vals {
				n = append(n, o)
			}
			sort.Slice(n, func(i, j int) bool { return n[i].Pos() < n[j].Pos() })
			for _, o := range n {
				k := keyOf(en.vals[o])
				if strings.HasPrefix(k, "var:") || strings.HasPrefix(k, "[var:") || strings.HasPrefix(k, "map[carried:var:") {
					bad = append(bad, o.Name()+" keeps what the previous struct left in it")
				}
			}
			fmtBad(c, "struct", "fresh state for "+en.what, pos, bad, "nothing is carried over from the previous struct", "")
		}
		if !kinds["columns"] || !kinds["fields"] {
			c.Bad("struct", "loops", pos, "the loops over fields and columns are not found in the handling of a struct")
		}
		for _, en := range sr.ends {
			var bad []string
			if en.kind == "return" {
				if len(en.vals) == 0 || isNilVal(en.vals[len(en.vals)-1]) {
					bad = append(bad, "the parser stops at a struct without an error")
				}
				fmtBad(c, "struct", "error", pos, bad, "an error is returned", "")
				continue
			}
			if en.kind != "next" {
				fmtBad(c, "struct", "stop", pos, []string{"the remaining structs are left out (" + en.kind + ")"}, "", "")
				continue
			}
			ignored, empty := false, map[bool]bool{}
			for a, v := range en.st.atoms {
				if x, y, ok := eqSides(a); ok && v && (x == "«\"ignore\"»" || y == "«\"ignore\"»") {
					ignored = true
				}
				if strings.HasPrefix(a, "zero:len(loop:.Columns#") {
					empty[v] = true
				}
				if strings.Contains(a, ".doc(") && !strings.HasPrefix(a, "nil:.doc(") && strings.Count(a, ".doc(") > 1 {
					bad = append(bad, "annotations come from several comments")
				}
			}
			var add []seg
			if p, ok := sr.e.load(en.st, sr.pkg).(*vStruct); ok {
				if v, ok := p.f["Tables"]; ok {
					a, ok := appended(sr.e, v, mkSym(".Tables", nil, mkSym("PKG", nil)).k)
					if !ok {
						bad = append(bad, "the tables become "+short(keyOf(v)))
					}
					add = a
				}
			} else {
				bad = append(bad, "the package is lost")
			}
			switch {
			case len(add) == 0:
				if !ignored && !yes(empty) {
					bad = append(bad, "a struct with columns becomes no table")
				}
			case len(add) == 1:
				if ignored {
					bad = append(bad, "an ignored struct becomes a table")
				}
			default:
				bad = append(bad, "a struct becomes several tables")
			}
			// the struct is taken off the queue
			for o, v := range sr.vars {
				s, ok := v.(*sym)
				if !ok || s.typ == nil {
					continue
				}
				if _, isList := s.typ.Underlying().(*types.Slice); !isList || !isStructList(s.typ) {
					continue
				}
				if w := sr.at(en, o); w != nil && w.key() != v.key() {
					segs := sr.e.toSegs(nil, w)
					if len(segs) != 1 || segs[0].kind != segAll || segs[0].v.key() != s.k || segs[0].from.String() != "1" || segs[0].to.String() != "len("+s.k+")" {
						bad = append(bad, "the remaining structs become "+short(w.key()))
					}
				}
			}
			fmtBad(c, "struct", "table", pos, bad, "one table per struct that has columns and is not ignored", "")
		}
	}
	annotations(c)
	docRules(c)
}

func isStructList(t types.Type) bool {
	sl, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	n, _ := derefNamed(sl.Elem())
	return n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == compPath
}

// annotations checks one step of the loop over the flags of a comment, and
// where the flags come from.
func annotations(c *Ctx) {
	isRO := func(d *declSite, n ast.Node) bool {
		a, ok := n.(*ast.AssignStmt)
		if !ok {
			return false
		}
		for _, x := range a.Lhs {
			if s, ok := ast.Unparen(x).(*ast.SelectorExpr); ok && s.Sel.Name == "Readonly" && namedIs(d.pkg.TypesInfo.TypeOf(s.X), compPath, "Table") {
				return true
			}
		}
		return false
	}
	ds, ls := loopsReaching(c.L, compPath, isRO)
	n := 0
	for i := range ds {
		// the loop over structs contains the loop over flags
		e := newAbs(c.L)
		e.peel = true
		trimsKept(e)
		st := &state{heap: map[loc]val{}, atoms: map[string]bool{}}
		var table vPtr
		has := false
		r := runBody(e, ds[i], ls[i], st, func(o *types.Var, elem bool) val {
			if elem {
				return mkSym("FLAG", o.Type())
			}
			if namedIs(o.Type(), compPath, "Table") {
				t, _ := derefNamed(o.Type())
				has = true
				table = e.alloc(st, &vStruct{base: mkSym("TABLE", t), typ: t, f: map[string]val{}})
				return table
			}
			return nil
		})
		if !has {
			// flags are not looped over
			continue
		}
		for _, en := range r.ends {
			n++
			facts := map[string]map[bool]bool{}
			for a, v := range en.st.atoms {
				if x, y, ok := eqSides(a); ok {
					for _, f := range []string{"readonly", "ignore"} {
						q := "«\"" + f + "\"»"
						if x == q || y == q {
							if facts[f] == nil {
								facts[f] = map[bool]bool{}
							}
							facts[f][v] = true
						}
					}
				}
			}
			var bad []string
			t, ok := e.load(en.st, table).(*vStruct)
			if !ok {
				bad = append(bad, "the table is lost")
				continue
			}
			ro := ""
			if v, ok := t.f["Readonly"]; ok {
				ro = keyOf(v)
			}
			if yes(facts["readonly"]) != (ro == "true") || ro != "" && ro != "true" {
				bad = append(bad, "the flag readonly and the table disagree: "+ro)
			}
			stays := en.kind == "next" || en.kind == "break"
			if stays == yes(facts["ignore"]) {
				bad = append(bad, "the flag ignore and the end of the struct disagree ("+en.kind+")")
			}
			if en.kind == "break" {
				bad = append(bad, "flags after the first are not considered")
			}
			fmtBad(c, "annotation", "flags", ls[i].Pos(), bad, "read-only exactly with the flag, skipped exactly with the flag", "")
		}
	}
	_ = n
}

// docRules: the comment kept for a struct is its own, or that of its
// declaration when it has none.
func docRules(c *Ctx) {
	ds, ls := loopsReaching(c.L, compPath, literalOf(compPath, "structCache"))
	for i := range ds {
		e := newAbs(c.L)
		e.peel = true
		st := &state{heap: map[loc]val{}, atoms: map[string]bool{}}
		r := runBody(e, ds[i], ls[i], st, func(o *types.Var, elem bool) val {
			if elem {
				return mkSym("SPEC", o.Type())
			}
			return nil
		})
		if len(r.problems) > 0 {
			c.Bad("interpretable", "declarations", ls[i].Pos(), "%s", short(strings.Join(uniq(r.problems), "; ")))
			continue
		}
		c.OK("interpretable", "declarations", "%d ways to handle a declaration", len(r.ends))
		for _, en := range r.ends {
			for o, v := range r.vars {
				w := r.at(en, o)
				if w == nil || w.key() == v.key() || !isStructList(o.Type()) {
					continue
				}
				var bad []string
				add, ok := appended(e, w, v.key())
				if !ok || len(add) != 1 || add[0].kind != segOne {
					bad = append(bad, "the structs become "+short(w.key()))
				} else {
					s := add[0].v
					if p, ok := s.(vPtr); ok {
						s = e.load(en.st, p)
					}
					d := keyOf(e.field(en.st, s, "doc", nil))
					spec := ""
					if in, ok := strings.CutPrefix(keyOf(e.field(en.st, s, "name", nil)), ".Name("); ok {
						spec = strings.TrimSuffix(in, ")")
					}
					own := ".Doc(" + spec + ")"
					isNil, known := en.st.atoms["nil:"+own]
					switch {
					case spec == "":
						bad = append(bad, "the name of a struct is "+short(keyOf(e.field(en.st, s, "name", nil))))
					case d == own && !(known && isNil):
					case d == own:
						// no comment of its own; that of the declaration is left out
						bad = append(bad, "the comment of a declaration with one type is left out")
					case strings.HasPrefix(d, ".Doc(") && known && isNil:
					case d == "nil" && known && isNil:
					default:
						bad = append(bad, "the comment of a struct is "+short(d)+" though it may have its own")
					}
				}
				fmtBad(c, "annotation", "comment of a struct", ls[i].Pos(), bad, "its own comment, else that of its declaration", "")
			}
		}
	}
}

// fieldRules checks how one field declaration is collected.
func fieldRules(c *Ctx) {
	n := 0
	for _, d := range c.L.declOf {
		if d.pkg.PkgPath != compPath || d.fd.Body == nil {
			continue
		}
		dd := d
		ast.Inspect(d.fd.Body, func(nd ast.Node) bool {
			var x ast.Expr
			var body *ast.BlockStmt
			switch s := nd.(type) {
			case *ast.RangeStmt:
				x, body = s.X, s.Body
			case *ast.ForStmt:
				// for i := 0; i < len(list); i++
				if b, ok := s.Cond.(*ast.BinaryExpr); ok {
					for _, y := range []ast.Expr{b.X, b.Y} {
						if call, ok := ast.Unparen(y).(*ast.CallExpr); ok && len(call.Args) == 1 {
							x, body = call.Args[0], s.Body
						}
					}
				}
			}
			if x == nil {
				return true
			}
			if t := dd.pkg.TypesInfo.TypeOf(x); t == nil || t.String() != "[]*go/ast.Field" {
				return true
			}
			if !reaches(c.L, &dd, body, literalOf(compPath, "structField"), 3, map[types.Object]bool{}) {
				return true
			}
			n++
			c.Analysed(dd.fd.Name.Name + " (fields)")
			oneField(c, &dd, nd.(ast.Stmt))
			return true
		})
	}
	if n == 0 {
		c.Bad("interpretable", "fields", token.NoPos, "no loop collects the fields of a struct")
	}
}

func oneField(c *Ctx, d *declSite, loop ast.Stmt) {
	e := newAbs(c.L)
	e.peel = true
	trimsKept(e)
	st := &state{heap: map[loc]val{}, atoms: map[string]bool{}}
	idx := "var:i"
	if r, ok := loop.(*ast.RangeStmt); ok {
		if id, ok := r.Key.(*ast.Ident); ok {
			idx = "var:" + id.Name
		}
	} else if f, ok := loop.(*ast.ForStmt); ok {
		if a, ok := f.Init.(*ast.AssignStmt); ok && len(a.Lhs) == 1 {
			if id, ok := a.Lhs[0].(*ast.Ident); ok {
				idx = "var:" + id.Name
			}
		}
	}
	r := runBody(e, d, loop, st, func(o *types.Var, elem bool) val {
		if elem {
			return mkSym("FI", o.Type())
		}
		return nil
	})
	if len(r.problems) > 0 {
		c.Bad("interpretable", "fields", loop.Pos(), "%s", short(strings.Join(uniq(r.problems), "; ")))
		return
	}
	c.OK("interpretable", "fields", "%d ways to handle a declaration of fields", len(r.ends))
	fi := ""
	for _, en := range r.ends {
		for a := range en.st.atoms {
			if in, ok := strings.CutPrefix(a, "nil:.Names("); ok {
				fi = strings.TrimSuffix(in, ")")
			}
			if in, ok := strings.CutPrefix(a, "zero:len(.Names("); ok && fi == "" {
				fi = strings.TrimSuffix(in, "))")
			}
		}
	}
	if fi == "" {
		c.Bad("interpretable", "fields", loop.Pos(), "fields with and without names are not told apart")
		return
	}
	for _, en := range r.ends {
		if impossible(en.st) {
			continue
		}
		var bad []string
		if en.kind == "return" {
			if len(en.vals) == 0 || isNilVal(en.vals[len(en.vals)-1]) {
				bad = append(bad, "the parser stops at a field without an error")
			}
			fmtBad(c, "error", "field", loop.Pos(), bad, "an error is returned", "")
			continue
		}
		if en.kind != "next" {
			fmtBad(c, "field", "stop", loop.Pos(), []string{"the remaining fields of the struct are left out (" + en.kind + ")"}, "", "")
			continue
		}
		noNames := en.st.atoms["nil:.Names("+fi+")"] || en.st.atoms["zero:len(.Names("+fi+"))"]
		var fields, queue []seg
		for o, v := range r.vars {
			w := r.at(en, o)
			if w == nil || w.key() == v.key() || !isStructList(o.Type()) {
				continue
			}
			add, ok := appended(e, w, v.key())
			if !ok {
				bad = append(bad, o.Name()+" becomes "+short(w.key()))
				continue
			}
			sl := o.Type().Underlying().(*types.Slice)
			if namedIs(sl.Elem(), compPath, "structField") {
				fields = append(fields, add...)
			} else {
				queue = append(queue, add...)
			}
		}
		st := func(v val) *vStruct {
			if p, ok := v.(vPtr); ok {
				if s, ok := e.load(en.st, p).(*vStruct); ok {
					return s
				}
				s, _ := e.made[p.l].(*vStruct)
				return s
			}
			s, _ := v.(*vStruct)
			return s
		}
		get := func(s *vStruct, n string) string { return unquoteKey(keyOf(e.field(en.st, s, n, nil))) }
		// the queue element the field belongs to
		place := func(s *vStruct, what, tail string) (q string) {
			k := get(s, what)
			in, ok := strings.CutPrefix(k, "[.idx(")
			if !ok || !strings.HasSuffix(k, ", "+tail+"]") {
				bad = append(bad, "the place of a field is "+short(k))
				return ""
			}
			i := strings.Index(in, ")[0:len(.idx(")
			if i < 0 {
				bad = append(bad, "the place of a field is "+short(k))
				return ""
			}
			q = in[:i]
			if k != "[.idx("+q+")[0:len(.idx("+q+"))], "+tail+"]" {
				bad = append(bad, "the place of a field is "+short(k))
			}
			return q
		}
		common := func(s *vStruct, q, ident string) {
			if q != "" && get(s, "parent") != ".prev("+q+")" {
				bad = append(bad, "the parent of a field is "+short(get(s, "parent")))
			}
			if x := get(s, "exported"); ident != "" && x != "m:IsExported("+ident+")" && x != "call:go/ast.IsExported(.Name("+ident+"))" && x != "call:go/token.IsExported(.Name("+ident+"))" {
				bad = append(bad, "whether a field is exported is taken from "+short(x))
			}
			if x := get(s, "t"); q != "" && !strings.Contains(x, ".Type("+fi+")") && !strings.Contains(x, ident) {
				bad = append(bad, "the type of a field is "+short(x))
			} else if strings.HasPrefix(x, "m:TypeOf(.TypesInfo(") && !strings.HasPrefix(x, "m:TypeOf(.TypesInfo(.pkg("+q+"))") {
				bad = append(bad, "the type of a field is looked up in the wrong package: "+short(x))
			}
			tag := get(s, "tag")
			noTag := en.st.atoms["nil:.Tag("+fi+")"]
			if noTag && tag != "" && tag != "«»" || !noTag && !strings.Contains(tag, ".Value(.Tag("+fi+"))") || strings.Contains(tag, "var:tag") {
				bad = append(bad, "the tag of a field is "+short(tag))
			}
		}
		ctx := short(fmt.Sprint(factList(en.st, fi)))
		if noNames {
			dash := false
			// no names, no fields
			var some []seg
			for _, s := range fields {
				if s.kind != segLoop || s.lp.to.String() != "len(.Names("+fi+"))" {
					some = append(some, s)
				}
			}
			fields = some
			for a, v := range en.st.atoms {
				if x, y, ok := eqSides(a); ok && v && (x == "«\"-\"»" || y == "«\"-\"»") && strings.Contains(a, ".Tag(") {
					dash = true
				}
			}
			switch {
			case len(fields) == 0 && len(queue) == 0:
				if !dash {
					switch reason := noStruct(en.st, fi); reason {
					case "":
						bad = append(bad, "an embedded struct is left out")
					default:
						if len(bad) == 0 {
							c.Bad("embedded", reason, loop.Pos(), "an exported embedded field is left out: %s", reason)
							continue
						}
					}
				}
			case len(fields) == 1 && len(queue) == 1:
				s, q := st(fields[0].v), st(queue[0].v)
				if s == nil || q == nil {
					bad = append(bad, "what is added for an embedded struct is not determined")
					break
				}
				if dash {
					bad = append(bad, "the fields of an excluded struct become columns")
				}
				from := place(s, "index", idx)
				if f2 := place(q, "idx", idx); f2 != from {
					bad = append(bad, "an embedded struct and its fields have different places")
				}
				if get(s, "embedded") != "true" {
					bad = append(bad, "an embedded struct is not marked")
				}
				name := get(s, "name")
				ident := ""
				for _, p := range []string{"call:go/types.ExprString(", ".Name("} {
					if in, ok := strings.CutPrefix(name, p); ok {
						ident = strings.TrimSuffix(in, ")")
					}
				}
				if ident == "" || !strings.Contains(ident, ".Type("+fi+")") {
					bad = append(bad, "the name of an embedded struct is "+short(name))
				}
				common(s, from, ident)
				if get(q, "prev") != keyOf(fields[0].v) {
					bad = append(bad, "the parent of the embedded fields is "+short(get(q, "prev")))
				}
				if p := get(q, "pkg"); !strings.Contains(p, ".pkg("+from+")") {
					bad = append(bad, "the package of the embedded fields is "+short(p))
				}
				if t := get(q, "t"); !strings.Contains(t, ".Type(.Decl(") {
					bad = append(bad, "the embedded fields are those of "+short(t))
				}
			case len(fields) == 1 && len(queue) == 0:
				// an embedded type that is no struct is a field
				if s := st(fields[0].v); s == nil || get(s, "embedded") == "true" {
					bad = append(bad, "the fields of an embedded struct are not collected")
				}
			default:
				bad = append(bad, fmt.Sprintf("%d fields and %d structs are added for one embedded field", len(fields), len(queue)))
			}
			fmtBad(c, "embedded", "embedded field", loop.Pos(), bad, "expanded in place, or excluded", ctx)
			continue
		}
		if len(queue) > 0 {
			bad = append(bad, "a named field is treated as embedded")
		}
		if len(fields) != 1 || fields[0].kind != segLoop {
			bad = append(bad, "not one field is added for every name: "+short(segsKey(fields)))
			fmtBad(c, "field", "named field", loop.Pos(), bad, "", ctx)
			continue
		}
		lp := fields[0]
		if len(lp.lp.from) != 0 || lp.lp.to.String() != "len(.Names("+fi+"))" || lp.lp.partial {
			bad = append(bad, "the names are not all considered: "+lp.lp.from.String()+".."+lp.lp.to.String())
		}
		for _, p := range lp.paths {
			if len(p) != 1 || p[0].kind != segOne {
				bad = append(bad, "a name is left out or added twice")
				continue
			}
			s := st(p[0].v)
			if s == nil {
				bad = append(bad, "the field added is not determined")
				continue
			}
			ident := "elem(.Names(" + fi + ")," + lp.lp.idx + ")"
			q := place(s, "index", idx+", "+lp.lp.idx)
			if nm := get(s, "name"); nm != "call:go/types.ExprString("+ident+")" && nm != ".Name("+ident+")" && nm != "m:String("+ident+")" {
				bad = append(bad, "the name of a field is "+short(nm))
			}
			if x := get(s, "embedded"); x != "false" {
				bad = append(bad, "a named field is marked as embedded")
			}
			common(s, q, ident)
		}
		fmtBad(c, "field", "named field", loop.Pos(), bad, "one field per name, in place", ctx)
	}
}

func factList(st *state, fi string) []string {
	var n []string
	for a, v := range st.atoms {
		a = strings.ReplaceAll(a, fi, "FI")
		if !v {
			a = "!" + a
		}
		n = append(n, a)
	}
	sort.Strings(n)
	return n
}

// noStruct says why an embedded type has no fields to expand.
func noStruct(st *state, fi string) string {
	facts := factList(st, fi)
	x, known := ".Type(FI)", false
	for _, a := range facts {
		switch a {
		case "is(.Type(FI),*T)", "is(.Type(FI),*ast.StarExpr)":
			x, known = ".X(.Type(FI))", true
		case "!is(.Type(FI),*T)", "!is(.Type(FI),*ast.StarExpr)":
			known = true
		}
	}
	if !known {
		// pointers are not told apart
		return ""
	}
	ident, sel := true, true
	for _, a := range facts {
		switch {
		case a == "!is("+x+",*ast.Ident)":
			ident = false
		case a == "!is("+x+",*ast.SelectorExpr)":
			sel = false
		case strings.HasPrefix(a, "is(.Type(.Decl(") && !strings.Contains(a, "*ast.StructType") && !strings.HasSuffix(a, ",*T)"):
			return "an embedded type that is no struct"
		case strings.HasPrefix(a, "!is(.Type(.Decl(") && (strings.Contains(a, "*ast.StructType") || strings.HasSuffix(a, ",*T)")):
			return "an embedded type that is no struct"
		}
	}
	if !ident && !sel {
		return "an embedded type that is not named plainly"
	}
	for _, a := range facts {
		switch {
		case strings.HasPrefix(a, "nil:after:"), strings.HasPrefix(a, "done:len(.Syntax("), strings.HasPrefix(a, "zero:len(.Syntax("), strings.HasPrefix(a, "!is(.Decl("), strings.HasPrefix(a, "nil:.Decl("):
			return "an embedded type without declaration"
		}
	}
	return ""
}

// orderRules: fields are sorted by their place, compared element by element.
func orderRules(c *Ctx) {
	n := 0
	for _, d := range c.L.declOf {
		if d.pkg.PkgPath != compPath || d.fd.Body == nil {
			continue
		}
		dd := d
		ast.Inspect(d.fd.Body, func(nd ast.Node) bool {
			call, ok := nd.(*ast.CallExpr)
			if !ok || len(call.Args) != 2 {
				return true
			}
			f, ok := calledObj(dd.pkg.TypesInfo, call).(*types.Func)
			if !ok || f.Pkg() == nil {
				return true
			}
			name := f.Pkg().Path() + "." + f.Name()
			t := dd.pkg.TypesInfo.TypeOf(call.Args[0])
			sl, isSl := t.Underlying().(*types.Slice)
			if !isSl || !namedIs(sl.Elem(), compPath, "structField") {
				return true
			}
			switch name {
			case "sort.Slice", "sort.SliceStable", "slices.SortFunc", "slices.SortStableFunc":
			default:
				return true
			}
			n++
			msg := comparatorOK(c, &dd, call, name)
			c.Check(msg == "", "order", "fields", call.Pos(), "sorted by the declared place%s", prefixed(": ", ifNot(msg == "", msg)))
			return true
		})
	}
	if n == 0 {
		c.Bad("order", "fields", token.NoPos, "the collected fields are not put into their order")
	}
}

func comparatorOK(c *Ctx, d *declSite, call *ast.CallExpr, name string) string {
	e := newAbs(c.L)
	e.peel = true
	st := &state{heap: map[loc]val{}, atoms: map[string]bool{}}
	info := d.pkg.TypesInfo
	fr := &frame{pkg: d.pkg, name: d.fd.Name.Name, decl: d.fd.Type}
	e.acts++
	fr.act = e.acts
	cx := &ctx{fr: fr, depth: 1}
	seen := map[types.Object]bool{}
	ast.Inspect(call, func(n ast.Node) bool {
		id, ok := n.(*ast.Ident)
		if !ok {
			return true
		}
		o, ok := info.Uses[id].(*types.Var)
		if !ok || o.IsField() || seen[o] || o.Pos() >= call.Pos() && o.Pos() < call.End() || o.Parent() == d.pkg.Types.Scope() {
			return true
		}
		seen[o] = true
		e.declare(cx, st, o, mkSym("var:"+o.Name(), o.Type()))
		return true
	})
	var ends []bodyEnd
	I, J := "", ""
	e.eval(cx, call.Args[0], st, func(st *state, list val) {
		e.eval(cx, call.Args[1], st, func(st *state, fn val) {
			f, ok := fn.(*vFunc)
			if !ok {
				return
			}
			var args []val
			if strings.HasPrefix(name, "sort.") {
				args = []val{vInt{ps("I")}, vInt{ps("J")}}
				I, J = "elem("+list.key()+",I)", "elem("+list.key()+",J)"
			} else {
				et := list.(*sym).typ.Underlying().(*types.Slice).Elem()
				args = []val{mkSym("I", et), mkSym("J", et)}
				I, J = "I", "J"
			}
			e.apply(cx, call, f, args, st, func(st *state, vs []val) {
				ends = append(ends, bodyEnd{"return", st.clone(), vs})
			})
		})
	})
	if len(e.problems) > 0 || len(ends) == 0 {
		return "the comparison cannot be followed " + strings.Join(uniq(e.problems), "; ")
	}
	// places that differ are not passed over
	lit, _ := ast.Unparen(call.Args[1]).(*ast.FuncLit)
	if lit != nil {
		msg := ""
		ast.Inspect(lit.Body, func(n ast.Node) bool {
			switch n.(type) {
			case *ast.ForStmt, *ast.RangeStmt:
			default:
				return true
			}
			le := newAbs(c.L)
			le.peel = true
			ls := &state{heap: map[loc]val{}, atoms: map[string]bool{}}
			r := runBody(le, d, n.(ast.Stmt), ls, func(o *types.Var, elem bool) val {
				if elem && !isIntType(o.Type().Underlying()) {
					return mkSym("EL", o.Type())
				}
				return nil
			})
			for _, en := range r.ends {
				if en.kind == "return" {
					continue
				}
				eq, notLess := false, map[string]bool{}
				for a, v := range en.st.atoms {
					if in, ok := strings.CutPrefix(a, "eq0:"); ok && v && strings.Contains(in, ".index(") {
						eq = true
					}
					if in, ok := strings.CutPrefix(a, "lt0:"); ok && !v && strings.Contains(in, "elem(.index(") {
						notLess[in] = true
					}
				}
				if !eq && len(notLess) < 2 && en.kind == "next" {
					msg = "different places are passed over: " + short(fmt.Sprint(factList(en.st, "\x00")))
				}
			}
			return false
		})
		if msg != "" {
			return msg
		}
	}
	li, lj := "len(.index("+I+"))", "len(.index("+J+"))"
	cmp := "call:slices.Compare(.index(" + I + "),.index(" + J + "))"
	for _, en := range ends {
		if len(en.vals) != 1 {
			return "the comparison has no result"
		}
		if p, ok := asPoly(en.vals[0]); ok && strings.HasPrefix(name, "slices.") {
			if p.String() == cmp {
				continue
			}
			return "the order is " + short(p.String())
		}
		b, ok := en.vals[0].(vBool)
		if !ok {
			return "the comparison gives " + short(keyOf(en.vals[0]))
		}
		less, greater, shorter, notShorter := false, false, false, false
		for a, v := range en.st.atoms {
			if !strings.Contains(a, ".index(") {
				return "the order depends on " + a
			}
			in, isLt := strings.CutPrefix(a, "lt0:")
			if isLt {
				ei, ej := ".index("+I+")", ".index("+J+")"
				switch {
				case in == cmp:
					if v {
						less = true
					} else {
						greater = true
					}
				case in == li+"-"+lj || in == "-"+lj+"+"+li:
					shorter, notShorter = shorter || v, notShorter || !v
				case in == lj+"-"+li || in == "-"+li+"+"+lj:
					if v {
						notShorter = true
					}
				case strings.Contains(in, "elem("+ei+",") && strings.Contains(in, "elem("+ej+","):
					k1, k2 := indexIn(in, ei), indexIn(in, ej)
					if k1 != k2 {
						return "elements at different positions are compared: " + short(in)
					}
					ki, kj := "elem("+ei+","+k1+")", "elem("+ej+","+k1+")"
					switch in {
					case ki + "-" + kj, "-" + kj + "+" + ki:
						if v {
							less = true
						} else if nz(en.st, ki, kj) {
							greater = true
						}
					case kj + "-" + ki, "-" + ki + "+" + kj:
						if v {
							greater = true
						} else if nz(en.st, ki, kj) {
							less = true
						}
					}
				case !v && strings.HasPrefix(in, "") && strings.HasSuffix(in, "-"+lj) && !strings.Contains(in, li):
					// an index of the one list is past the other
					notShorter = true
				}
			}
		}
		switch {
		case bool(b) && !less && !shorter:
			return "a field comes first that neither has the smaller place nor is above the other: " + short(fmt.Sprint(factList(en.st, "\x00")))
		case !bool(b) && !greater && !notShorter:
			return "a field comes last that neither has the greater place nor is below the other: " + short(fmt.Sprint(factList(en.st, "\x00")))
		}
	}
	return ""
}

func nz(st *state, a, b string) bool {
	for at, v := range st.atoms {
		if !v && (at == "eq0:"+a+"-"+b || at == "eq0:"+b+"-"+a || at == "eq0:-"+b+"+"+a || at == "eq0:-"+a+"+"+b) {
			return true
		}
	}
	return false
}

func indexIn(s, list string) string {
	i := strings.Index(s, "elem("+list+",")
	if i < 0 {
		return ""
	}
	return strings.TrimSuffix(balanced(s[i:])[len("elem("+list+","):], ")")
}

// sharedAppend: appending to a list another value holds may overwrite what a
// third value appended there.
func sharedAppend(c *Ctx) {
	for _, d := range c.L.declOf {
		if d.pkg.PkgPath != compPath || d.fd.Body == nil {
			continue
		}
		info := d.pkg.TypesInfo
		ast.Inspect(d.fd.Body, func(n ast.Node) bool {
			call, ok := n.(*ast.CallExpr)
			if !ok || len(call.Args) < 2 {
				return true
			}
			id, ok := ast.Unparen(call.Fun).(*ast.Ident)
			if !ok {
				return true
			}
			if b, ok := info.Uses[id].(*types.Builtin); !ok || b.Name() != "append" {
				return true
			}
			sel, ok := ast.Unparen(call.Args[0]).(*ast.SelectorExpr)
			if !ok {
				if p, isParam := ast.Unparen(call.Args[0]).(*ast.Ident); !isParam || !ownParam(info, d.fd, p) {
					return true
				}
			}
			// x.f = append(x.f, ...) grows its own list
			own := false
			ast.Inspect(d.fd.Body, func(m ast.Node) bool {
				if a, ok := m.(*ast.AssignStmt); ok && len(a.Lhs) == 1 && len(a.Rhs) == 1 && ast.Unparen(a.Rhs[0]) == call {
					own = types.ExprString(a.Lhs[0]) == types.ExprString(call.Args[0])
				}
				return !own
			})
			what := types.ExprString(call.Args[0])
			_ = sel
			c.Check(own, "shared-append", d.fd.Name.Name+": append("+what+")", call.Pos(), "siblings share the list %s: what one appends, the next overwrites", what)
			return true
		})
	}
}

// ownParam: the identifier is a parameter of the function.
func ownParam(info *types.Info, fd *ast.FuncDecl, id *ast.Ident) bool {
	o := info.Uses[id]
	for _, f := range fd.Type.Params.List {
		for _, n := range f.Names {
			if info.Defs[n] == o {
				return true
			}
		}
	}
	return false
}

// calledObj is what a call names.
func calledObj(info *types.Info, call *ast.CallExpr) types.Object {
	switch f := ast.Unparen(call.Fun).(type) {
	case *ast.Ident:
		return info.Uses[f]
	case *ast.SelectorExpr:
		return info.Uses[f.Sel]
	}
	return nil
}
