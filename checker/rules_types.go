package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"
)

func init() {
	register("P14", "partial evaluation of the type table of every dialect: the data type function of each entry is interpreted for every kind of column and the SQL type it yields is compared with the value range of the Go type; the look-up of a field's type is evaluated for basic, pointer and named types", checkP14)
}

// colVariant: the data type an entry yields under some facts about the column.
type colVariant struct {
	text  string // the constant beginning of the text
	whole bool   // it is all of the text
	atoms map[string]bool
}

type colEntry struct {
	key             string
	v               vPtr
	types           []colVariant
	valuer, scanner string
}

type colTable struct {
	dialect  string
	d        *declSite
	ce       *concEngine
	st       *state
	ref      vMapRef
	entries  map[string]*colEntry
	keys     []string
	problems []string
}

// columnTable evaluates the type table of a dialect.
func columnTable(l *Loaded, dialect string) *colTable {
	ct := &colTable{dialect: dialect, entries: map[string]*colEntry{}}
	bad := func(s string) *colTable { ct.problems = append(ct.problems, s); return ct }
	t := dialectType(l, dialect)
	if t == nil {
		return bad("dialect " + dialect + " is not found")
	}
	o, _, _ := types.LookupFieldOrMethod(types.NewPointer(t), true, nil, "ColumnDataTypes")
	d, ok := l.declOf[o]
	if !ok {
		return bad("the type table of dialect " + dialect + " is not found")
	}
	ct.d = &d
	ct.ce = newConc(l)
	st := &state{heap: map[loc]val{}, atoms: map[string]bool{}}
	recv := ct.ce.alloc(st, &vStruct{typ: t, f: map[string]val{}})
	ends := ct.ce.evalFunc(&d, recv, nil, st)
	if len(ends) != 1 || len(ends[0].vals) != 1 {
		return bad("the type table is not one value on every path")
	}
	ct.st = ends[0].st
	ref, ok := ends[0].vals[0].(vMapRef)
	if !ok {
		return bad("the type table is not a map")
	}
	ct.ref = ref
	m, ok := ct.st.heap[ref.l].(*vMap)
	if !ok {
		return bad("the type table is not a map")
	}
	for _, s := range m.segs {
		en, ok := s.v.(vEntry)
		if s.kind != segOne || !ok {
			return bad("an entry of the type table is not known")
		}
		k, ok := constText(en.k)
		if !ok {
			return bad("a key of the type table is not known")
		}
		p, ok := en.v.(vPtr)
		if !ok {
			return bad("the entry of " + k + " is not known")
		}
		ce := &colEntry{key: k, v: p}
		if ct.entries[k] == nil {
			ct.keys = append(ct.keys, k)
		}
		ct.entries[k] = ce
		e := ct.ce
		cv := e.load(ct.st, p)
		ce.valuer, _ = constText(e.field(ct.st, cv, "Valuer", types.Typ[types.String]))
		ce.scanner, _ = constText(e.field(ct.st, cv, "Scanner", types.Typ[types.String]))
		f, ok := e.field(ct.st, cv, "DataType", nil).(*vFunc)
		if !ok {
			ct.problems = append(ct.problems, "the data type function of "+k+" is not known")
			continue
		}
		col := mkSym("column", nil)
		if dp := l.pkgs[diaPath]; dp != nil {
			if o := dp.Types.Scope().Lookup("GoColumn"); o != nil {
				col = mkSym("column", o.Type())
			}
		}
		e.apply(&ctx{fr: &frame{pkg: d.pkg, name: "DataType"}}, nil, f, []val{col}, ct.st.clone(), func(st *state, vs []val) {
			if len(vs) != 1 {
				return
			}
			v := colVariant{atoms: st.atoms}
			dc := toDoc(vs[0])
			if len(dc) > 0 && dc[0].kind == pLit {
				v.text = dc[0].s
				v.whole = len(dc) == 1
			}
			ce.types = append(ce.types, v)
		})
		if len(ce.types) == 0 {
			ct.problems = append(ct.problems, "the data type function of "+k+" yields nothing")
		}
	}
	sort.Strings(ct.keys)
	ct.problems = append(ct.problems, ct.ce.trouble...)
	return ct
}

// what the integer types of a database can hold: bits of a signed type, or of
// an unsigned one.
type sqlInt struct {
	bits     int
	unsigned bool
	any      bool // arbitrary precision
}

var sqlInts = map[string]map[string]int{
	"mysql":    {"TINYINT": 8, "SMALLINT": 16, "MEDIUMINT": 24, "INT": 32, "INTEGER": 32, "BIGINT": 64},
	"postgres": {"INT2": 16, "SMALLINT": 16, "SMALLSERIAL": 16, "SERIAL2": 16, "INT4": 32, "INT": 32, "INTEGER": 32, "SERIAL": 32, "SERIAL4": 32, "INT8": 64, "BIGINT": 64, "BIGSERIAL": 64, "SERIAL8": 64},
	"sqlite":   {"TINYINT": 64, "SMALLINT": 64, "MEDIUMINT": 64, "INT": 64, "INTEGER": 64, "BIGINT": 64, "INT2": 64, "INT8": 64, "UNSIGNED BIG INT": 64},
}

var sqlFloats = map[string]map[string]int{
	"mysql":    {"FLOAT": 32, "DOUBLE": 64, "DOUBLE PRECISION": 64, "REAL": 64},
	"postgres": {"REAL": 32, "FLOAT4": 32, "FLOAT8": 64, "DOUBLE PRECISION": 64, "FLOAT": 64},
	"sqlite":   {"REAL": 64, "DOUBLE": 64, "DOUBLE PRECISION": 64, "FLOAT": 64},
}

var sqlBools = map[string]map[string]bool{
	"mysql":    {"BOOL": true, "BOOLEAN": true, "TINYINT": true, "TINYINT(1)": true, "BIT": true, "BIT(1)": true},
	"postgres": {"BOOL": true, "BOOLEAN": true},
	"sqlite":   {"BOOL": true, "BOOLEAN": true, "INTEGER": true, "INT": true, "NUMERIC": true},
}

// serialTypes count up by themselves: the only values they hold are those the
// sequence yields, which stay below the signed maximum.
var serialTypes = map[string]bool{"SMALLSERIAL": true, "SERIAL2": true, "SERIAL": true, "SERIAL4": true, "BIGSERIAL": true, "SERIAL8": true}

// sqlType splits the text of a data type into the type and the attributes.
func sqlType(text string) (name string, unsigned bool) {
	s := strings.ToUpper(strings.TrimSpace(text))
	for _, stop := range []string{" NOT NULL", " NULL", " DEFAULT", " AUTO_INCREMENT", " CHECK", " PRIMARY", " UNIQUE"} {
		if i := strings.Index(s+" ", stop+" "); i >= 0 {
			s = s[:min(i, len(s))]
		}
	}
	s = strings.TrimSpace(s)
	if strings.HasSuffix(s, " UNSIGNED") {
		unsigned = true
		s = strings.TrimSpace(strings.TrimSuffix(s, " UNSIGNED"))
	}
	return s, unsigned
}

// decimals: NUMERIC(p, s) with no fraction holds p digits.
func decimalDigits(s string) (digits int, any, ok bool) {
	for _, p := range []string{"NUMERIC", "DECIMAL", "DEC"} {
		if s == p {
			return 0, true, true
		}
		if strings.HasPrefix(s, p+"(") && strings.HasSuffix(s, ")") {
			a, frac, _ := strings.Cut(strings.TrimSuffix(s[len(p)+1:], ")"), ",")
			n, f := 0, 0
			for _, c := range strings.TrimSpace(a) {
				if c < '0' || c > '9' {
					return 0, false, false
				}
				n = n*10 + int(c-'0')
			}
			for _, c := range strings.TrimSpace(frac) {
				if c < '0' || c > '9' {
					return 0, false, false
				}
				f = f*10 + int(c-'0')
			}
			return n - f, false, true
		}
	}
	return 0, false, false
}

var intKinds = map[string]struct {
	bits     int
	unsigned bool
}{
	"int": {64, false}, "int8": {8, false}, "int16": {16, false}, "int32": {32, false}, "int64": {64, false},
	"uint": {64, true}, "uint8": {8, true}, "uint16": {16, true}, "uint32": {32, true}, "uint64": {64, true},
	"rune": {32, false}, "byte": {8, true}, // go/types prints a declared rune or byte by these names
}

// decimal digits of the largest value
func digitsOf(bits int, unsigned bool) int {
	switch {
	case bits == 8:
		return 3
	case bits == 16:
		return 5
	case bits == 32:
		return 10
	case unsigned:
		return 20
	}
	return 19
}

// holdsInt: every value of the Go type fits the SQL type.
func holdsInt(dialect, text string, bits int, unsigned bool) (bool, string) {
	name, un := sqlType(text)
	if n, any, ok := decimalDigits(name); ok {
		if dialect == "sqlite" {
			// numeric affinity: integers beyond 64 bits become floating point
			any, n = false, 18
			if bits < 64 || !unsigned {
				n = 19
			}
		}
		if any && dialect == "mysql" {
			any, n = false, 10
		}
		if un && !unsigned {
			return false, name + " UNSIGNED holds no negative values"
		}
		if any || n >= digitsOf(bits, unsigned) {
			return true, ""
		}
		return false, name + " holds fewer digits"
	}
	if i := strings.IndexByte(name, '('); i > 0 && dialect != "postgres" { // a display width
		name = strings.TrimSpace(name[:i])
	}
	have, ok := sqlInts[dialect][name]
	if !ok {
		return false, "it is not an integer type of " + dialect
	}
	if un && dialect != "mysql" {
		return false, dialect + " has no unsigned types"
	}
	switch {
	case unsigned && un:
		ok = have >= bits
	case unsigned:
		ok = have > bits
	case un:
		return false, "it holds no negative values"
	default:
		ok = have >= bits
	}
	if !ok {
		return false, "it is too narrow"
	}
	return true, ""
}

var listTypes = map[string]bool{"JSON": true, "JSONB": true, "TEXT": true, "MEDIUMTEXT": true, "LONGTEXT": true}

func checkP14(c *Ctx) {
	for _, dn := range []string{"mysql", "postgres", "sqlite"} {
		ct := columnTable(c.L, dn)
		pos := token.NoPos
		if ct.d != nil {
			pos = ct.d.fd.Pos()
			c.Analysed(dialectPkg(dn) + ".ColumnDataTypes")
		}
		c.Check(len(ct.problems) == 0, "table", dn, pos, "the type table of the dialect is known%s", because(ct.problems))
		if len(ct.problems) > 0 {
			continue
		}
		for _, name := range sortedKeys(intKinds) {
			k := intKinds[name]
			en := ct.entries[name]
			if !c.Check(en != nil, "mapped", dn+" "+name, pos, "the Go type has a column type") {
				continue
			}
			for _, v := range en.variants() {
				if n, _ := sqlType(v.text); serialTypes[n] && k.unsigned {
					// a key the database counts up by itself
					have := sqlInts[dn][n]
					c.Check(have >= k.bits && v.autoIncr(), "holds", dn+" "+name+" "+n, pos, "the key sequence of a %d bit key has %d bits and is used for auto-increment keys only", k.bits, have)
					continue
				}
				ok, why := holdsInt(dn, v.text, k.bits, k.unsigned)
				c.Check(ok, "holds", dn+" "+name, pos, "column type %q holds every value of %s%s", v.text, name, ifBad(ok, why))
			}
		}
		for name, bits := range map[string]int{"float32": 32, "float64": 64} {
			en := ct.entries[name]
			if !c.Check(en != nil, "mapped", dn+" "+name, pos, "the Go type has a column type") {
				continue
			}
			for _, v := range en.variants() {
				n, _ := sqlType(v.text)
				have := sqlFloats[dn][n]
				c.Check(have >= bits, "holds", dn+" "+name, pos, "column type %q holds every value of %s without loss of precision", v.text, name)
			}
		}
		if en := ct.entries["bool"]; c.Check(en != nil, "mapped", dn+" bool", pos, "the Go type has a column type") {
			for _, v := range en.variants() {
				n, _ := sqlType(v.text)
				c.Check(sqlBools[dn][n], "holds", dn+" bool", pos, "column type %q holds true and false", v.text)
			}
		}
		// elements of array types
		for _, key := range ct.keys {
			k, isInt := intKinds[strings.TrimPrefix(key, "[]")]
			fl, isFloat := map[string]int{"[]float32": 32, "[]float64": 64}[key]
			if !strings.HasPrefix(key, "[]") || !isInt && !isFloat || key == "[]byte" {
				continue
			}
			for _, v := range ct.entries[key].variants() {
				n, _ := sqlType(v.text)
				if !strings.HasSuffix(n, "[]") {
					c.Check(listTypes[n], "elements", dn+" "+key, pos, "column type %q holds the text of a list", v.text)
					continue
				}
				if n = strings.TrimSuffix(n, "[]"); isInt {
					ok, why := holdsInt(dn, n, k.bits, k.unsigned)
					c.Check(ok, "elements", dn+" "+key, pos, "column type %q holds every element%s", v.text, ifBad(ok, why))
				} else {
					c.Check(sqlFloats[dn][n] >= fl, "elements", dn+" "+key, pos, "column type %q holds every element without loss of precision", v.text)
				}
			}
		}
		lookupRule(c, dn, ct)
		for _, name := range []string{"string"} {
			c.Check(ct.entries[name] != nil, "mapped", dn+" "+name, pos, "the Go type has a column type")
		}
	}
	c.Min("table", 3)
	c.Min("mapped", 48)
	c.Min("holds", 45)
	c.Min("elements", 30)
	c.Min("found", 60)
}

// variants: the distinct data types of an entry.
func (en *colEntry) variants() []colVariant {
	seen := map[string]bool{}
	var out []colVariant
	for _, v := range en.types {
		n, un := sqlType(v.text)
		k := n
		if un {
			k += " unsigned"
		}
		if v.autoIncr() {
			k += " auto"
		}
		if seen[k] {
			continue
		}
		seen[k] = true
		out = append(out, v)
	}
	return out
}

func (v colVariant) autoIncr() bool {
	for a, yes := range v.atoms {
		if strings.Contains(a, "AutoIncr(") && yes {
			return true
		}
	}
	return false
}

func because(ps []string) string {
	if len(ps) == 0 {
		return ""
	}
	if len(ps) > 4 {
		ps = ps[:4]
	}
	return ": " + strings.Join(ps, "; ")
}

func ifBad(ok bool, why string) string {
	if ok || why == "" {
		return ""
	}
	return ": " + why
}

// genWithTable evaluates the constructor of the generator for a dialect and
// yields the generator it makes.
func genWithTable(ct *colTable, config map[string]val) (recv val, st *state, problem string) {
	l := ct.ce.l
	ng := l.genCtor()
	if ng == nil {
		return nil, nil, "the constructor of the generator is not found"
	}
	e := ct.ce
	st = ct.st.clone()
	params := map[string]types.Type{}
	args, _ := paramVals(e.absEngine, ng.pkg.TypesInfo, ng.fd.Type, "p:", st, params, nil)
	sig := ng.pkg.TypesInfo.Defs[ng.fd.Name].Type().(*types.Signature)
	for i := range args {
		t := sig.Params().At(i).Type()
		switch {
		case namedIs(t, genPath, "Config"):
			cfg := t.(*types.Pointer).Elem()
			f := map[string]val{"Driver": vStr{lit(ct.dialect)}}
			for k, v := range config {
				f[k] = v
			}
			args[i] = e.alloc(st, &vStruct{typ: cfg, f: f})
		case namedIs(t, diaPath, "Dialect"):
			args[i] = e.alloc(st, &vStruct{typ: dialectType(l, ct.dialect), f: map[string]val{}})
		}
	}
	for _, end := range e.evalFunc(ng, nil, args, st) {
		if n := len(end.vals); n > 1 {
			if _, isNil := end.vals[n-1].(vNil); !isNil {
				continue
			}
		}
		if p, ok := end.vals[0].(vPtr); ok {
			return p, end.st, ""
		}
	}
	return nil, nil, "the constructor of the generator yields no generator"
}

// tableLookup finds the method of the generator that finds a column type.
func (l *Loaded) tableLookup() *declSite {
	var best *declSite
	for o, d := range l.declOf {
		f, ok := o.(*types.Func)
		if !ok || d.pkg.PkgPath != genPath {
			continue
		}
		sig := f.Type().(*types.Signature)
		if sig.Params().Len() == 1 && namedIs(sig.Params().At(0).Type(), "go/types", "Type") && sig.Results().Len() == 2 && namedIs(sig.Results().At(0).Type(), diaPath, "ColumnType") && isBoolType(sig.Results().At(1).Type()) {
			dd := d
			best = &dd
		}
	}
	return best
}

// lookupRule: a field of a type, of a pointer to it and of a type derived from
// it gets the entry of the type.
func lookupRule(c *Ctx, dn string, ct *colTable) {
	look := c.L.tableLookup()
	if look == nil {
		c.Bad("found", "lookup", token.NoPos, "the function which finds the column type of a field exists")
		return
	}
	recv, st, why := genWithTable(ct, nil)
	if why != "" {
		c.Bad("found", dn, look.fd.Pos(), "%s", why)
		return
	}
	c.Analysed(genPath + "." + look.fd.Name.Name)
	own := types.NewPackage("example.com/model", "model")
	for _, key := range ct.keys {
		t := goTypeOf(c.L, key)
		if t == nil {
			continue
		}
		var named types.Type = t
		if _, isNamed := t.(*types.Named); !isNamed {
			named = types.NewNamed(types.NewTypeName(token.NoPos, own, "Kind", nil), t, nil)
		}
		alias := types.NewAlias(types.NewTypeName(token.NoPos, own, "Same", nil), t)
		for _, f := range []struct {
			form string
			t    types.Type
		}{{"", t}, {"*", types.NewPointer(t)}, {"named ", named}, {"*named ", types.NewPointer(named)}, {"alias ", alias}} {
			if _, isNamed := t.(*types.Named); isNamed && strings.Contains(f.form, "named") {
				continue // a struct of its own
			}
			ends := ct.ce.evalFunc(look, recv, []val{&vGo{f.t}}, st.clone())
			ok := len(ends) > 0
			for _, end := range ends {
				p, isPtr := end.vals[0].(vPtr)
				if !isPtr || p != ct.entries[key].v && ct.ce.load(end.st, p).key() != ct.ce.load(ct.st, ct.entries[key].v).key() {
					ok = false
				}
				if b, isBool := end.vals[1].(vBool); !isBool || !bool(b) {
					ok = false
				}
			}
			c.Check(ok, "found", dn+" "+f.form+key, look.fd.Pos(), "a field of this type gets the column type of %s", key)
		}
	}
}

// goTypeOf is the Go type a key of a type table names, nil for patterns.
func goTypeOf(l *Loaded, key string) types.Type {
	n := 0
	for strings.HasPrefix(key, "[]") {
		key = key[2:]
		n++
	}
	var t types.Type
	switch key {
	case "time.Time":
		if p := l.anyPkg("time"); p != nil {
			t = p.Scope().Lookup("Time").Type()
		}
	default:
		if o, ok := types.Universe.Lookup(key).(*types.TypeName); ok && key != "any" {
			if _, basic := o.Type().(*types.Basic); basic {
				t = o.Type()
			}
		}
	}
	if t == nil {
		return nil
	}
	for ; n > 0; n-- {
		t = types.NewSlice(t)
	}
	return t
}
