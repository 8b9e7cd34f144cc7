package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"
)

// P35: what a scanner stores is the value the database delivered. Every
// constructor of a scanner is interpreted with an arbitrary destination, then
// its Scan method with an arbitrary driver value; on each path that may report
// success the stored value is a term over the driver value, and the term has to
// be one that keeps the value.

func init() {
	register("P35", "Every scanner constructor and the Scan method of what it returns are interpreted over an arbitrary destination and driver value; on every path that may succeed, the term stored in the destination (or handed on to the field type's own decoding method) has to be the driver value itself, a lossless conversion of it, or the whole text parsed at the precision of the destination.", checkP35)
}

// valuePath is one way a Scan method returns.
type valuePath struct {
	form   string // dynamic type of the driver value
	st     *state
	dest   val // what the destination holds at the end
	stored bool
	sinks  []valueSink
	ret    val
	pos    token.Pos
}

// valueSink is a decoding method of the field's own type.
type valueSink struct {
	method string
	arg    val
	res    string
}

// elemStore is an assignment to an element of a list.
type elemStore struct {
	list val
	i    poly
	v    val
}

type valueRun struct {
	elems    []elemStore
	l        *Loaded
	name     string
	fn       *types.Func
	kind     string // bool, float, text, time, bytes, runes, any, int
	bits     int
	paths    []valuePath
	problems []string
	pos      token.Pos
}

// valueKind tells what a scanner's destination holds.
func valueKind(sig *types.Signature) (kind string, bits int) {
	tps := sig.TypeParams()
	if tps == nil || tps.Len() == 0 {
		return "any", 0
	}
	ts := typeSet(tps.At(0))
	if len(ts) == 0 {
		return "any", 0
	}
	if p0 := sig.Params().At(0).Type(); p0 != nil {
		kind = "list"
		if sl, ok := coreSlice(p0); ok {
			for _, u := range typeSet(sl.Elem()) {
				switch basicKind(u) {
				case types.Uint8:
					kind = "bytes"
				case types.Int32:
					kind = "runes"
				}
			}
			return kind, 0
		}
		kind = ""
	}
	for _, t := range ts {
		for {
			p, ok := t.Underlying().(*types.Pointer)
			if !ok {
				break
			}
			t = p.Elem()
		}
		k, b := "any", 0
		if t.String() == "time.Time" {
			k = "time"
		}
		if bt, ok := t.Underlying().(*types.Basic); ok {
			switch {
			case bt.Info()&types.IsBoolean != 0:
				k = "bool"
			case bt.Kind() == types.Float32:
				k, b = "float", 32
			case bt.Kind() == types.Float64:
				k, b = "float", 64
			case bt.Info()&types.IsInteger != 0:
				k = "int"
			case bt.Info()&types.IsString != 0:
				k = "text"
			}
		}
		if sl, ok := t.Underlying().(*types.Slice); ok {
			switch basicKind(sl.Elem()) {
			case types.Uint8:
				k = "text"
			case types.Int32:
				k = "runes"
			default:
				k = "list"
			}
		}
		if kind != "" && (k != kind || b != bits) {
			return "any", 0
		}
		kind, bits = k, b
	}
	return kind, bits
}

func basicKind(t types.Type) types.BasicKind {
	for _, u := range typeSet(t) {
		if b, ok := u.Underlying().(*types.Basic); ok {
			return b.Kind()
		}
	}
	return types.Invalid
}

// scannerMakers are the exported functions that return a sql.Scanner.
func scannerMakers(l *Loaded) []*types.Func {
	var out []*types.Func
	var paths []string
	for p := range l.pkgs {
		if p == seqPath || strings.HasPrefix(p, seqPath+"/") {
			paths = append(paths, p)
		}
	}
	sort.Strings(paths)
	for _, p := range paths {
		sc := l.pkgs[p].Types.Scope()
		for _, name := range sc.Names() {
			o, ok := sc.Lookup(name).(*types.Func)
			if !ok || !o.Exported() {
				continue
			}
			sig := o.Type().(*types.Signature)
			if sig.Results().Len() == 1 && sig.Params().Len() > 0 && sig.Results().At(0).Type().String() == "database/sql.Scanner" {
				if _, ok := l.declOf[o]; ok {
					out = append(out, o)
				}
			}
		}
	}
	return out
}

const srcKey = "src"

// runValue interprets one constructor and the Scan method of its result.
func runValue(l *Loaded, o *types.Func) *valueRun {
	sig := o.Type().(*types.Signature)
	d := l.declOf[o]
	r := &valueRun{l: l, name: shortPkg(o.Pkg().Path()) + "." + o.Name(), fn: o, pos: d.fd.Pos()}
	if r.kind, r.bits = valueKind(sig); r.kind == "int" || r.kind == "list" {
		return r
	}
	e := newAbs(l)
	e.peel, e.exact = true, true
	e.limit = 2000000
	e.external = valueCalls
	st := &state{heap: map[loc]val{}, atoms: map[string]bool{}}
	var dt types.Type
	if tp, ok := types.Unalias(sig.Params().At(0).Type()).(*types.TypeParam); ok {
		if ts := typeSet(tp); len(ts) == 1 {
			if p, ok := ts[0].(*types.Pointer); ok {
				dt = p.Elem()
			}
		}
	}
	old := mkSym("old", dt)
	list := r.kind == "bytes" || r.kind == "runes" && isSliceParam(sig.Params().At(0).Type())
	var destPtr val = e.alloc(st, old)
	if list {
		destPtr = mkSym("old", sig.Params().At(0).Type())
	}
	args := []val{destPtr}
	for i := 1; i < sig.Params().Len(); i++ {
		p := sig.Params().At(i)
		args = append(args, mkSym("p:"+p.Name(), p.Type()))
	}
	made := 0
	e.enter(&frame{pkg: d.pkg, name: o.Name()}, d.fd.Type, nil, nil, d.fd.Body, args, st, func(st *state, vs []val) {
		if len(vs) != 1 {
			return
		}
		ds, recv, found := e.dispatch(vs[0], "Scan", st)
		if !found {
			r.problems = append(r.problems, "the Scan method of what it returns is not found")
			return
		}
		made++
		src := mkSym(srcKey, types.Universe.Lookup("any").Type())
		var ro types.Object
		if ds.fd.Recv != nil && len(ds.fd.Recv.List[0].Names) > 0 {
			ro = ds.pkg.TypesInfo.Defs[ds.fd.Recv.List[0].Names[0]]
		}
		e.enter(&frame{pkg: ds.pkg, name: "Scan"}, ds.fd.Type, ro, recv, ds.fd.Body, []val{src}, st, func(st *state, vs []val) {
			p := valuePath{st: st, pos: ds.fd.Pos()}
			if len(vs) == 1 {
				p.ret = vs[0]
			}
			for _, f := range st.is {
				if f.k == srcKey && f.yes {
					if _, isI := f.t.Underlying().(*types.Interface); !isI {
						p.form = typeKey(f.t)
						if u, ok := f.t.Underlying().(*types.Slice); ok && basicKind(u.Elem()) == types.Uint8 {
							p.form = "[]byte"
						}
					}
				}
			}
			if dp, ok := destPtr.(vPtr); ok {
				p.dest = e.load(st, dp)
			} else {
				p.dest = listField(e, st, vs, recv)
			}
			for i := 0; i < 3; i++ {
				q, ok := p.dest.(vPtr)
				if !ok {
					break
				}
				p.dest = e.load(st, q)
			}
			p.stored = p.dest != nil && p.dest.key() != "old"
			if sk, ok := st.heap[sinkLoc].(vTuple); ok {
				for _, s := range sk {
					t := s.(vTuple)
					p.sinks = append(p.sinks, valueSink{t[0].(*sym).op, t[1], t[2].key()})
				}
			}
			r.paths = append(r.paths, p)
		})
	})
	if made == 0 && len(r.problems) == 0 {
		r.problems = append(r.problems, "the constructor does not return")
	}
	r.problems = append(r.problems, e.problems...)
	r.elems = e.elemStores
	if e.steps > e.limit {
		r.problems = append(r.problems, "the analysis does not finish")
	}
	return r
}

func isSliceParam(t types.Type) bool {
	_, ok := coreSlice(t)
	return ok
}

func shortPkg(p string) string { return strings.TrimPrefix(strings.TrimPrefix(p, modPath), "/") }

// listField is the list a scanner over a caller's list works on.
func listField(e *absEngine, st *state, vs []val, recv val) val {
	v := recv
	if p, ok := v.(vPtr); ok {
		v = e.load(st, p)
	}
	s, ok := v.(*vStruct)
	if !ok {
		return nil
	}
	for _, k := range sortedKeys(s.f) {
		switch x := s.f[k].(type) {
		case *vList:
			return x
		case *sym:
			if x.op == "old" {
				return x
			}
		}
	}
	return nil
}

var sinkLoc = loc{act: -7, n: 1}

// valueCalls gives the calls on the way of a value their meaning.
func valueCalls(e *absEngine, c *ctx, x *ast.CallExpr, fn *vFunc, args []val, st *state, k func(*state, []val)) bool {
	if fn.decl != nil {
		return false
	}
	name := lastName(fn.name)
	if fn.recv != nil {
		recv := fn.recv
		switch name {
		case "UnmarshalText", "UnmarshalBinary", "UnmarshalJSON", "Scan":
			if len(args) == 1 {
				res := e.freshSym("err:"+name, types.Universe.Lookup("error").Type())
				old, _ := st.heap[sinkLoc].(vTuple)
				st.heap[sinkLoc] = append(append(vTuple{}, old...), vTuple{mkSym(name, nil), args[0], res})
				k(st, []val{res})
				return true
			}
		case "String", "Format", "UTC", "Local", "In", "MarshalText", "MarshalBinary", "Truncate", "Round", "Add", "AddDate", "Unix", "UnixNano", "UnixMilli", "AppendFormat":
			r := e.plain(st, recv)
			as := append([]val{r}, args...)
			var out []val
			for i, t := range e.resultTypes(c, x) {
				if isErrorType(t) {
					out = append(out, e.freshSym("err:"+name, t))
					continue
				}
				_ = i
				out = append(out, mkSym("m:"+name, t, as...))
			}
			k(st, out)
			return true
		}
		return false
	}
	switch fn.name {
	case "time.Parse", "time.ParseInLocation":
		k(st, []val{mkSym(fn.name, nil, args...), e.freshSym("err:"+fn.name, types.Universe.Lookup("error").Type())})
		return true
	case "time.Unix", "time.UnixMilli", "time.UnixMicro":
		k(st, []val{mkSym(fn.name, nil, args...)})
		return true
	case "encoding/json.Unmarshal":
		if p, ok := args[1].(vPtr); ok {
			err := e.freshSym("err:"+fn.name, types.Universe.Lookup("error").Type())
			e.store(st, p, mkSym("json", nil, args[0]))
			k(st, []val{err})
			return true
		}
	case "bytes.Clone", "strings.Clone", "slices.Clone":
		k(st, []val{args[0]})
		return true
	case "fmt.Sprint", "fmt.Sprintf":
		l, _ := args[len(args)-1].(*vList)
		ok := l != nil && len(l.segs) == 1 && l.segs[0].kind == segOne
		if ok && len(args) == 2 {
			f, _ := constText(args[0])
			ok = f == "%d" || f == "%v" || f == "%s" || f == "%t"
		}
		if ok {
			k(st, []val{mkSym("shown", types.Typ[types.String], l.segs[0].v)})
		} else {
			k(st, []val{mkSym("call:"+fn.name, types.Typ[types.String], args...)})
		}
		return true
	}
	if strings.HasPrefix(fn.name, "strings.") || strings.HasPrefix(fn.name, "bytes.") {
		var out []val
		for i, t := range e.resultTypes(c, x) {
			n := "call:" + fn.name
			if i > 0 {
				n = fmt.Sprintf("%s#%d", n, i)
			}
			out = append(out, mkSym(n, t, args...))
		}
		k(st, out)
		return true
	}
	return false
}

// ---- judging

// succeeds: may the path report success?
func (p *valuePath) succeeds() bool {
	switch r := p.ret.(type) {
	case vNil:
		return true
	case *sym:
		if b, ok := p.st.atoms["nil:"+r.k]; ok {
			return b
		}
		return true
	}
	return false
}

// unconv removes numeric conversions and returns their types.
func unconv(v val) (val, []types.Type) {
	var ts []types.Type
	for {
		s, ok := v.(*sym)
		if !ok || s.op != "conv" {
			return v, ts
		}
		ts = append(ts, s.typ)
		v = s.args[0]
	}
}

// isSrc: the driver value, untouched.
func isSrc(v val) bool {
	switch v := v.(type) {
	case *sym:
		return v.op == srcKey
	case vInt:
		return v.p.eq(ps(srcKey))
	case vStr:
		if h, ok := soleHole(v.d); ok {
			return isSrc(h)
		}
	case *vList:
		if len(v.segs) == 1 && v.segs[0].kind == segAll && isSrc(v.segs[0].v) && len(v.segs[0].from) == 0 && v.segs[0].to.eq(ps("len("+srcKey+")")) {
			return true
		}
	}
	return false
}

func soleHole(d doc) (val, bool) {
	if len(d) == 1 && d[0].kind == pHole {
		return d[0].v, true
	}
	return nil, false
}

// wholeSrcText: the complete text of the driver value, surrounding space aside.
func wholeSrcText(v val) bool {
	if h, ok := v.(vStr); ok {
		if x, ok := soleHole(h.d); ok {
			v = x
		}
	}
	if s, ok := v.(*sym); ok && (s.op == "call:strings.TrimSpace" || s.op == "call:bytes.TrimSpace") && len(s.args) == 1 {
		return wholeSrcText(s.args[0])
	}
	return isSrc(v)
}

// isTextOf: v is the text of a driver value of a kind other than text.
func (p *valuePath) isTextOf(v val) string {
	if h, ok := v.(vStr); ok {
		if x, ok := soleHole(h.d); ok {
			v = x
		}
	}
	s, _ := v.(*sym)
	if s != nil && s.op == "shown" {
		switch p.form {
		case "string", "bool", "int64":
			if isSrc(s.args[0]) {
				return ""
			}
		case "float64", "time.Time":
			if isSrc(s.args[0]) {
				return "" // shortest text, String
			}
		}
	}
	switch p.form {
	case "string", "[]byte":
		if isSrc(v) {
			return ""
		}
		return "the text is not the database's text but " + short(keyOf(v))
	case "bool":
		if s != nil && s.op == "call:strconv.FormatBool" && isSrc(s.args[0]) {
			return ""
		}
		if t, ok := constText(v); ok {
			if b, known := p.st.atoms[srcKey]; known && t == strconv.FormatBool(b) {
				return ""
			}
		}
	case "int64":
		if d, ok := v.(vStr); ok && len(d.d) == 1 && d.d[0].kind == pNum && d.d[0].p.eq(ps(srcKey)) {
			return ""
		}
		if s != nil && s.op == "call:strconv.FormatInt" && isSrc(s.args[0]) && intArg(s, 1) == 10 {
			return ""
		}
	case "float64":
		if s != nil && s.op == "call:strconv.FormatFloat" && isSrc(s.args[0]) {
			if f := intArg(s, 1); (f == 'f' || f == 'g' || f == 'e') && intArg(s, 2) == -1 && intArg(s, 3) == 64 {
				return ""
			}
		}
	case "time.Time":
		if s != nil && strings.HasPrefix(s.op, "m:") && len(s.args) > 0 && p.sameInstant(s.args[0]) {
			switch s.op {
			case "m:String", "m:MarshalText":
				return ""
			case "m:Format":
				if len(s.args) == 2 {
					if t, ok := constText(s.args[1]); ok && fullLayout(t) {
						return ""
					}
				}
			}
		}
	}
	return "the text of the database's " + p.form + " is " + short(keyOf(v))
}

func intArg(s *sym, i int) int64 {
	if i < len(s.args) {
		if v, ok := s.args[i].(vInt); ok {
			if n, ok := v.p.constant(); ok {
				return n
			}
		}
	}
	return -999
}

// sameInstant: v is the driver's time, in whatever location.
func (p *valuePath) sameInstant(v val) bool {
	if isSrc(v) {
		return true
	}
	if s, ok := v.(*sym); ok && (s.op == "m:UTC" || s.op == "m:Local" || s.op == "m:In") {
		return p.sameInstant(s.args[0])
	}
	return false
}

// timeLayouts are the shapes in which databases write dates and times, with the
// parts of a reference time that may follow.
func isoLayout(l string) bool {
	l = strings.TrimPrefix(l, "2006-01-02")
	if l == "" {
		return true
	}
	for _, sep := range []string{" ", "T", "_"} {
		if r, ok := strings.CutPrefix(l, sep+"15:04"); ok {
			r = strings.TrimPrefix(r, ":05")
			if len(r) > 0 && (r[0] == '.' || r[0] == ',') {
				i := 1
				for i < len(r) && (r[i] == '9' || r[i] == '0') {
					i++
				}
				if i == 1 {
					return false
				}
				r = r[i:]
			}
			switch strings.TrimPrefix(r, " ") {
			case "", "Z07:00", "-07:00", "-0700", "-07", "Z0700", "Z07", "-07:00:00", "Z07:00:00", "Z", "-0700 MST", "MST":
				return true
			}
		}
	}
	return false
}

func isISO(l string) bool { return strings.HasPrefix(l, "2006-01-02") && isoLayout(l) }

// fullLayout keeps everything down to fractions of a second and the zone.
func fullLayout(l string) bool {
	return isISO(l) && strings.Contains(l, ":05.") && strings.Contains(l, "07")
}

// globalStrings: the texts of a package-level list, or of one field of its elements.
func (l *Loaded) globalStrings(name, field string) []string {
	for _, path := range sortedKeys(l.pkgs) {
		p := l.pkgs[path]
		if !strings.HasPrefix(path, seqPath) {
			continue
		}
		for _, f := range p.Syntax {
			for _, d := range f.Decls {
				gd, ok := d.(*ast.GenDecl)
				if !ok {
					continue
				}
				for _, sp := range gd.Specs {
					vs, ok := sp.(*ast.ValueSpec)
					if !ok {
						continue
					}
					for i, n := range vs.Names {
						if "global:"+p.Types.Name()+"."+n.Name != name || i >= len(vs.Values) {
							continue
						}
						cl, ok := ast.Unparen(vs.Values[i]).(*ast.CompositeLit)
						if !ok {
							return nil
						}
						var out []string
						for _, el := range cl.Elts {
							if kv, ok := el.(*ast.KeyValueExpr); ok {
								el = kv.Value
							}
							if field != "" {
								if el = litField(p.TypesInfo, el, field); el == nil {
									return nil
								}
							}
							tv := p.TypesInfo.Types[el]
							if tv.Value == nil || tv.Value.Kind() != constant.String {
								return nil
							}
							out = append(out, constant.StringVal(tv.Value))
						}
						return out
					}
				}
			}
		}
	}
	return nil
}

// litField is the expression given for a field in a composite literal.
func litField(info *types.Info, x ast.Expr, field string) ast.Expr {
	if u, ok := ast.Unparen(x).(*ast.UnaryExpr); ok {
		x = u.X
	}
	cl, ok := ast.Unparen(x).(*ast.CompositeLit)
	if !ok {
		return nil
	}
	t := info.Types[cl].Type
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i, el := range cl.Elts {
		if kv, ok := el.(*ast.KeyValueExpr); ok {
			if id, ok := kv.Key.(*ast.Ident); ok && id.Name == field {
				return kv.Value
			}
			continue
		}
		if i < st.NumFields() && st.Field(i).Name() == field {
			return el
		}
	}
	return nil
}

// layouts: the constant texts a layout argument stands for.
func (r *valueRun) layouts(v val) []string {
	if t, ok := constText(v); ok {
		return []string{t}
	}
	field := ""
	if s, ok := v.(*sym); ok && strings.HasPrefix(s.op, ".") && len(s.args) == 1 {
		field, v = s.op[1:], s.args[0]
	}
	if s, ok := v.(*sym); ok && s.op == "elem" {
		if g, ok := s.args[0].(*sym); ok && strings.HasPrefix(g.op, "global:") {
			return r.l.globalStrings(g.op, field)
		}
		if l, ok := s.args[0].(*vList); ok && field == "" {
			var out []string
			for _, sg := range l.segs {
				t, ok := constText(sg.v)
				if sg.kind != segOne || !ok {
					return nil
				}
				out = append(out, t)
			}
			return out
		}
	}
	return nil
}

// judge says what is wrong with the value stored on a path, if anything.
func (r *valueRun) judge(p *valuePath) string {
	v := p.dest
	w, convs := unconv(v)
	what := short(keyOf(v))
	if z, ok := v.(*sym); ok && z.op == "zero" && r.kind == "bool" {
		v = vBool(false)
	}
	switch r.kind {
	case "bool":
		switch p.form {
		case "bool":
			if isSrc(v) {
				return ""
			}
			if b, ok := v.(vBool); ok {
				if t, known := p.st.atoms[srcKey]; known && t == bool(b) {
					return ""
				}
			}
		case "int64":
			if b, ok := v.(vBool); ok {
				for _, a := range []string{"eq0:-src", "eq0:src"} {
					if z, known := p.st.atoms[a]; known && z != bool(b) {
						return ""
					}
				}
				return fmt.Sprintf("a number is stored as %v although not every number on this path is %s", bool(b), map[bool]string{true: "different from zero", false: "zero"}[bool(b)])
			}
		case "string", "[]byte":
			if s, ok := v.(*sym); ok && s.op == "call:strconv.ParseBool#0" && wholeSrcText(s.args[0]) {
				return ""
			}
			if b, ok := v.(vBool); ok {
				for a, t := range p.st.atoms {
					if t == bool(b) && strings.HasPrefix(a, "call:strconv.ParseBool#0("+srcKey+")") {
						return ""
					}
				}
			}
		}
		return "the boolean stored for a " + p.form + " is " + what
	case "float":
		for _, t := range convs {
			ok := false
			for _, u := range typeSet(t) {
				switch basicKind(u) {
				case types.Float32:
					ok = ok || r.bits == 32
				case types.Float64:
					ok = true
				}
			}
			if !ok {
				return fmt.Sprintf("the number is converted to %s on its way to a float%d", typeKey(t), r.bits)
			}
		}
		switch p.form {
		case "float64", "int64", "float32":
			if isSrc(w) {
				return ""
			}
		case "string", "[]byte":
			if s, ok := w.(*sym); ok && s.op == "call:strconv.ParseFloat#0" {
				if !wholeSrcText(s.args[0]) {
					return "only a part of the text is parsed, or another text: " + what
				}
				if b := intArg(s, 1); b != 64 && b != 32 || b < int64(r.bits) {
					return fmt.Sprintf("the text of a float%d is parsed with %d bits", r.bits, b)
				}
				return ""
			}
		}
		return "the number stored for a " + p.form + " is " + what
	case "text":
		return p.isTextOf(v)
	case "time":
		for {
			s, ok := v.(*sym)
			if !ok || s.op != "m:UTC" && s.op != "m:Local" && s.op != "m:In" {
				break
			}
			v = s.args[0]
		}
		s, _ := v.(*sym)
		switch p.form {
		case "time.Time":
			if isSrc(v) {
				return ""
			}
		case "int64":
			if s != nil && s.op == "time.Unix" && isSrc(s.args[0]) && s.args[1].key() == "0" {
				return ""
			}
		case "string", "[]byte":
			if s == nil || s.op != "time.Parse" && s.op != "time.ParseInLocation" {
				break
			}
			if s.op == "time.ParseInLocation" && s.args[2].key() != "global:time.UTC" {
				return "a text without a zone is read in " + short(keyOf(s.args[2])) + ", not in UTC"
			}
			if !wholeSrcText(s.args[1]) {
				return "only a part of the text is parsed, or another text: " + what
			}
			ls := r.layouts(s.args[0])
			if len(ls) == 0 {
				return "the layout " + short(keyOf(s.args[0])) + " is not known"
			}
			for _, l := range ls {
				if !isISO(l) {
					return fmt.Sprintf("the layout %q does not read year, month, day, hour, minute and second from where databases write them", l)
				}
			}
			return ""
		}
		return "the time stored for a " + p.form + " is " + what
	case "any":
		if s, ok := v.(*sym); ok && s.op == "json" && wholeSrcText(s.args[0]) {
			return ""
		}
		return "the value stored for a " + p.form + " is " + what
	}
	return ""
}

// judgeSink: the field type's own decoding method is given the value.
func (r *valueRun) judgeSink(p *valuePath, s valueSink) string {
	switch s.method {
	case "Scan":
		if isSrc(s.arg) {
			return ""
		}
		return "the field's own Scan is given " + short(keyOf(s.arg))
	case "UnmarshalText":
		return p.isTextOf(s.arg)
	case "UnmarshalJSON":
		if isSrc(s.arg) {
			return ""
		}
		return "the document handed on is " + short(keyOf(s.arg))
	case "UnmarshalBinary":
		if p.form != "string" && p.form != "[]byte" || isSrc(s.arg) {
			return ""
		}
		return "the bytes handed on are " + short(keyOf(s.arg))
	}
	return ""
}

// judgeElems: what is stored at a position of a list is the element of the text
// at that position.
func (r *valueRun) judgeElems() (string, int) {
	min := 8
	if r.kind == "runes" {
		min = 32
	}
	n := 0
	one := func(i poly, v val) string {
		w, convs := unconv(v)
		if _, ok := w.(vInt); ok || w.key() == "zero" {
			return ""
		}
		s, ok := w.(*sym)
		if !ok || len(s.args) != 2 || !isSrc(s.args[0]) || s.op != "elem" && s.op != "byte" {
			return "an element is set to " + short(keyOf(v))
		}
		for _, t := range convs {
			for _, u := range typeSet(t) {
				if b := widthOf(basicKind(u)); b < min {
					return fmt.Sprintf("an element is converted to %s on its way", typeKey(t))
				}
			}
		}
		if r.kind == "bytes" && i != nil {
			if j, ok := s.args[1].(vInt); !ok || !j.p.eq(i) {
				return fmt.Sprintf("element %s of the value is stored at position %s", short(keyOf(s.args[1])), i)
			}
		}
		n++
		return ""
	}
	for _, s := range r.elems {
		if b := one(s.i, s.v); b != "" {
			return b, n
		}
	}
	for i := range r.paths {
		p := &r.paths[i]
		if l, ok := p.dest.(*vList); ok && p.succeeds() {
			for _, sg := range l.segs {
				if sg.kind != segLoop {
					continue
				}
				for _, path := range sg.paths {
					for _, x := range path {
						if x.kind == segOne {
							if b := one(nil, x.v); b != "" {
								return b, n
							}
						}
					}
				}
			}
		}
	}
	return "", n
}

func widthOf(k types.BasicKind) int {
	switch k {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32:
		return 32
	}
	return 64
}

func checkP35(c *Ctx) {
	for _, o := range scannerMakers(c.L) {
		r := runValue(c.L, o)
		if r.kind == "int" || r.kind == "list" {
			continue // P01, P06
		}
		c.Analysed(r.name)
		for _, p := range r.problems {
			c.Bad("value-run", r.name, r.pos, "%s", p)
		}
		c.OK("value-run", r.name, "%d paths through Scan", len(r.paths))
		forms := map[string]bool{}
		for i := range r.paths {
			p := &r.paths[i]
			if p.form == "" || !p.succeeds() {
				continue
			}
			forms[p.form] = true
			key := r.name + "(" + p.form + ")"
			if len(p.sinks) > 0 {
				for _, s := range p.sinks {
					b := r.judgeSink(p, s)
					c.Check(b == "", "value-handed-on", key, p.pos, "%s", okOr(b, "the field's "+s.method+" is given the database's value"))
				}
				if p.ret != nil && p.ret.key() == "nil" {
					last := p.sinks[len(p.sinks)-1]
					ok := p.st.atoms["nil:"+last.res]
					c.Check(ok, "value-error", key, p.pos, "%s", okOr(map[bool]string{false: "success is reported whatever the field's " + last.method + " says"}[ok], "its error decides"))
				}
				continue
			}
			if r.kind == "bytes" || r.kind == "runes" {
				continue
			}
			if !p.stored {
				c.Bad("value-stored", key, p.pos, "success is reported without storing the value")
				continue
			}
			b := r.judge(p)
			c.Check(b == "", "value-kept", key, p.pos, "%s", okOr(b, "the stored value is the database's"))
		}
		if r.kind == "bytes" || r.kind == "runes" {
			bad, n := r.judgeElems()
			c.Check(bad == "", "value-elements", r.name, r.pos, "%s", okOr(bad, fmt.Sprintf("%d element stores keep element and position", n)))
		}
		c.Check(len(forms) > 0, "value-forms", r.name, r.pos, "driver forms stored: %s", strings.Join(sortedKeys(forms), ", "))
	}
	c.Min("value-run", 8)
	c.Min("value-kept", 20)
}
