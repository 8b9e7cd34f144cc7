package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"strings"
)

func (e *absEngine) call(c *ctx, x *ast.CallExpr, st *state, k func(*state, []val)) {
	info := c.info()
	fun := ast.Unparen(x.Fun)
	if tv, ok := info.Types[fun]; ok && tv.IsType() {
		e.eval(c, x.Args[0], st, func(st *state, v val) { k(st, []val{e.convert(v, c.typeOf(x.Args[0]), tv.Type)}) })
		return
	}
	if tv, ok := info.Types[fun]; ok && tv.IsBuiltin() {
		name := ""
		switch f := fun.(type) {
		case *ast.Ident:
			name = f.Name
		case *ast.SelectorExpr:
			name = f.Sel.Name
		}
		e.builtin(c, x, name, st, k)
		return
	}
	withFn := func(st *state, f val) {
		e.args(c, x, st, func(st *state, args []val) { e.apply(c, x, f, args, st, k) })
	}
	if se, ok := fun.(*ast.SelectorExpr); ok {
		if s := info.Selections[se]; s != nil && s.Kind() == types.MethodVal {
			e.recvOf(c, se, st, func(st *state, r val) {
				withFn(st, e.funcVal(c, s.Obj().(*types.Func), r))
			})
			return
		}
	}
	e.eval(c, fun, st, withFn)
}

// args evaluates the arguments of a call, one value per parameter.
func (e *absEngine) args(c *ctx, x *ast.CallExpr, st *state, k func(*state, []val)) {
	e.evalList(c, x.Args, st, func(st *state, vs []val) {
		if len(vs) == 1 {
			if t, ok := vs[0].(vTuple); ok {
				vs = t
			}
		}
		sig, _ := c.typeOf(x.Fun).Underlying().(*types.Signature)
		if sig != nil && sig.Variadic() && !x.Ellipsis.IsValid() {
			n := sig.Params().Len() - 1
			if n > len(vs) {
				n = len(vs)
			}
			l := &vList{typ: sig.Params().At(sig.Params().Len() - 1).Type()}
			for _, v := range vs[n:] {
				l.segs = append(l.segs, seg{kind: segOne, v: v})
			}
			vs = append(append([]val{}, vs[:n]...), l)
		}
		k(st, vs)
	})
}

func isBytes(t types.Type) bool {
	if t == nil {
		return false
	}
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Byte || b.Kind() == types.Uint8)
}

func (e *absEngine) convert(v val, from, to types.Type) val {
	if e.exact && isNumeric(from) && isNumeric(to) && !types.Identical(from, to) {
		_, constant := v.(vInt)
		if constant {
			_, constant = v.(vInt).p.constant()
		}
		if !constant && !(basicKind(from) == types.Int64 && basicKind(to) == types.Int) {
			return mkSym("conv", to, v)
		}
	}
	if isStringType(to) && isIntType(from) {
		if i, ok := v.(vInt); ok {
			if n, ok := i.p.constant(); ok {
				return vStr{lit(string(rune(n)))}
			}
		}
		return mkSym("runestr", to, v)
	}
	if l, ok := v.(*vList); ok && isStringType(to) && len(l.segs) == 0 {
		return vStr{}
	}
	if _, ok := v.(vNil); ok {
		if _, isSl := to.Underlying().(*types.Slice); isSl {
			return &vList{typ: to}
		}
	}
	if l, ok := v.(*vList); ok && l.typ == nil {
		return &vList{segs: l.segs, typ: to}
	}
	if s, ok := v.(*vStruct); ok && !types.IsInterface(to) {
		if _, isStruct := to.Underlying().(*types.Struct); isStruct {
			return &vStruct{base: s.base, f: s.f, typ: to}
		}
	}
	return v
}

// isNumeric: a number type, or a type parameter for one.
func isNumeric(t types.Type) bool {
	if t == nil {
		return false
	}
	ts := typeSet(t)
	for _, u := range ts {
		b, ok := u.Underlying().(*types.Basic)
		if !ok || b.Info()&types.IsNumeric == 0 {
			return false
		}
	}
	return len(ts) > 0
}

// runeText is the text of one character.
func runeText(v val) doc {
	if i, ok := v.(vInt); ok {
		if n, ok := i.p.constant(); ok {
			return lit(string(rune(n)))
		}
	}
	return hole(mkSym("runestr", nil, v))
}

func (e *absEngine) builtin(c *ctx, x *ast.CallExpr, name string, st *state, k func(*state, []val)) {
	one := func(st *state, v val) { k(st, []val{v}) }
	switch name {
	case "make":
		t := c.typeOf(x)
		switch t.Underlying().(type) {
		case *types.Map:
			one(st, vMapRef{e.alloc(st, &vMap{}).l})
			return
		case *types.Slice:
			e.eval(c, x.Args[1], st, func(st *state, n val) {
				p, ok := asPoly(n)
				if !ok {
					one(st, e.unknown("make", t))
					return
				}
				l := &vList{typ: t}
				if len(p) > 0 {
					l.segs = []seg{{kind: segFill, to: p}}
				}
				one(st, l)
			})
			return
		}
		one(st, e.unknown("make", t))
		return
	case "new":
		t := c.typeOf(x.Args[0])
		one(st, e.alloc(st, e.zero(t)))
		return
	case "panic":
		return
	}
	e.evalList(c, x.Args, st, func(st *state, vs []val) {
		for i := range vs {
			if p, ok := vs[i].(vPtr); ok && name != "append" {
				vs[i] = e.load(st, p)
			}
		}
		switch name {
		case "len":
			if m, ok := vs[0].(vMapRef); ok {
				one(st, vInt{ps("len(" + keysOf(st.heap[m.l]) + ")")})
				return
			}
			one(st, vInt{e.length(st, vs[0])})
		case "append":
			if isBytes(c.typeOf(x)) {
				d := toDoc(vs[0])
				if l, ok := vs[0].(*vList); ok && len(l.segs) == 0 {
					d = nil
				}
				for i, v := range vs[1:] {
					if x.Ellipsis.IsValid() && i == len(vs)-2 {
						d = d.cat(toDoc(v))
					} else {
						d = d.cat(runeText(v))
					}
				}
				one(st, vStr{d})
				return
			}
			segs := append([]seg{}, e.toSegs(st, vs[0])...)
			for i, v := range vs[1:] {
				if x.Ellipsis.IsValid() && i == len(vs)-2 {
					segs = append(segs, e.toSegs(st, v)...)
				} else {
					segs = append(segs, seg{kind: segOne, v: v})
				}
			}
			one(st, &vList{segs: segs, typ: c.typeOf(x)})
		case "copy":
			e.copyInto(c, x.Args[0], vs[1], st, one)
		case "clear":
			if m, ok := vs[0].(vMapRef); ok {
				st.heap[m.l] = &vMap{}
			} else {
				e.lvalue(c, x.Args[0], st, func(st *state, lv lval) {
					if lv.ok && lv.idx == nil {
						e.store(st, lv.p, &vList{segs: []seg{{kind: segFill, to: e.length(st, vs[0])}}})
					}
				})
			}
			k(st, nil)
		case "delete":
			if m, ok := vs[0].(vMapRef); ok {
				st.heap[m.l] = &vMap{segs: []seg{{kind: segUnknown, id: fmt.Sprint(e.freshN())}}}
			}
			k(st, nil)
		case "min", "max", "cap":
			one(st, mkSym(name, c.typeOf(x), vs...))
		case "String", "StringData", "Slice", "SliceData": // unsafe views of the same bytes
			if e.exact && len(vs) == 2 {
				if n, ok := asPoly(vs[1]); !ok || !n.eq(e.length(st, vs[0])) {
					one(st, mkSym("part", c.typeOf(x), vs...))
					return
				}
			}
			one(st, vs[0])
		default:
			k(st, []val{e.unknown(name, c.typeOf(x))})
		}
	})
}

// copyInto models copy(dst, src).
func (e *absEngine) copyInto(c *ctx, dst ast.Expr, src val, st *state, done func(*state, val)) {
	k := func(st *state) { done(st, e.unknown("copied", types.Typ[types.Int])) }
	off := poly{}
	base := ast.Unparen(dst)
	finish := func(st *state, off poly, ok bool) {
		e.lvalue(c, base, st, func(st *state, lv lval) {
			if !lv.ok || lv.idx != nil {
				k(st)
				return
			}
			cur := e.load(st, lv.p)
			unknown := func() {
				e.store(st, lv.p, &vList{segs: []seg{{kind: segUnknown, id: fmt.Sprint(e.freshN())}}})
			}
			segs := e.toSegs(st, cur)
			if !ok {
				unknown()
				k(st)
				return
			}
			i := 0
			for ; i < len(segs) && len(off) > 0; i++ {
				n := e.segLen(st, segs[i])
				if n.eq(off) {
					off = poly{}
					continue
				}
				if segs[i].kind == segFill {
					break
				}
				off = off.sub(n)
			}
			n := e.length(st, src)
			if i >= len(segs) || segs[i].kind != segFill || i != len(segs)-1 {
				if i == len(segs) && len(n) == 0 {
					k(st)
					return
				}
				unknown()
				k(st)
				return
			}
			out := append([]seg{}, segs[:i]...)
			if len(off) > 0 {
				out = append(out, seg{kind: segFill, to: off})
			}
			out = append(out, e.toSegs(st, src)...)
			rest := segs[i].to.sub(off).sub(n)
			if len(rest) > 0 {
				out = append(out, seg{kind: segFill, to: rest})
			}
			e.store(st, lv.p, &vList{segs: out})
			if nonNegSyms(rest) && rest[""] >= 0 {
				// everything fits
				done(st, vInt{n})
				return
			}
			k(st)
		})
	}
	if sl, ok := base.(*ast.SliceExpr); ok && sl.High == nil {
		base = ast.Unparen(sl.X)
		if sl.Low != nil {
			e.eval(c, sl.Low, st, func(st *state, v val) {
				p, ok := asPoly(v)
				finish(st, p, ok)
			})
			return
		}
	} else if ok {
		base = ast.Unparen(sl.X)
		finish(st, nil, false)
		return
	}
	finish(st, off, true)
}

// apply calls a function value.
func (e *absEngine) apply(c *ctx, x *ast.CallExpr, f val, args []val, st *state, k func(*state, []val)) {
	if e.steps++; e.steps > e.limit {
		return
	}
	fn, ok := f.(*vFunc)
	if !ok {
		e.unknownCall(c, x, f, args, st, k)
		return
	}
	if fn.lit != nil {
		e.enter(&frame{parent: fn.fr, pkg: fn.pkg, name: fn.name}, fn.lit.Type, nil, nil, fn.lit.Body, args, st, k)
		return
	}
	obj := e.funcObj(c, x)
	if fn.recv != nil {
		if r, ok := st.builderAt(fn.recv); ok {
			e.builderCall(c, x, r, lastName(fn.name), args, st, k)
			return
		}
		// a method of an interface, called on a value whose type is known
		if fn.decl == nil {
			if d, recv, ok := e.dispatch(fn.recv, lastName(fn.name), st); ok {
				fn = &vFunc{decl: d, recv: recv, name: d.fd.Name.Name, pkg: d.pkg}
			}
		}
	}
	if e.external != nil && e.external(e, c, x, fn, args, st, k) {
		return
	}
	if fn.decl != nil && (e.opaque == nil || !e.opaque(fn)) && e.active[fn.decl.fd] < 2 && e.inl < 60 {
		d := fn.decl
		e.instantiate(c, x, d)
		e.active[d.fd]++
		e.inl++
		var recvObj types.Object
		if d.fd.Recv != nil && len(d.fd.Recv.List) > 0 && len(d.fd.Recv.List[0].Names) > 0 {
			recvObj = d.pkg.TypesInfo.Defs[d.fd.Recv.List[0].Names[0]]
		}
		e.enter(&frame{pkg: d.pkg, name: d.fd.Name.Name}, d.fd.Type, recvObj, fn.recv, d.fd.Body, args, st, func(st *state, vs []val) {
			e.active[d.fd]--
			e.inl--
			k(st, vs)
			e.active[d.fd]++
			e.inl++
		})
		e.active[d.fd]--
		e.inl--
		return
	}
	e.externalCall(c, x, fn, obj, args, st, k)
}

func lastName(full string) string {
	if i := strings.LastIndex(full, "."); i >= 0 {
		return full[i+1:]
	}
	return full
}

func (e *absEngine) funcObj(c *ctx, x *ast.CallExpr) *types.Func {
	if x == nil {
		return nil
	}
	switch f := ast.Unparen(x.Fun).(type) {
	case *ast.Ident:
		o, _ := c.info().Uses[f].(*types.Func)
		return o
	case *ast.SelectorExpr:
		o, _ := c.info().Uses[f.Sel].(*types.Func)
		return o
	}
	return nil
}

func (st *state) builderAt(v val) (vPtr, bool) {
	p, ok := v.(vPtr)
	if !ok {
		return p, false
	}
	var cur val = st.heap[p.l]
	if p.path != "" {
		for _, f := range strings.Split(p.path, ".") {
			s, ok := cur.(*vStruct)
			if !ok {
				return p, false
			}
			nx, ok := s.f[f]
			if !ok {
				if ft := fieldType(s.typ, f); ft != nil && s.base == nil && isBuilderType(ft) {
					return p, true
				}
				return p, false
			}
			cur = nx
		}
	}
	_, ok = cur.(vBuilder)
	return p, ok
}

// dispatch finds the method a dynamic call reaches.
func (e *absEngine) dispatch(recv val, name string, st *state) (*declSite, val, bool) {
	var t types.Type
	v := recv
	isPtr := false
	if p, ok := recv.(vPtr); ok {
		v = e.load(st, p)
		isPtr = true
	}
	switch v := v.(type) {
	case *vStruct:
		t = v.typ
	case *sym:
		if v.typ != nil && !types.IsInterface(v.typ) {
			t = v.typ
		}
	}
	if t == nil {
		return nil, nil, false
	}
	lt := t
	if isPtr {
		if _, already := t.Underlying().(*types.Pointer); !already {
			lt = types.NewPointer(t)
		}
	}
	o, index, _ := types.LookupFieldOrMethod(lt, true, nil, name)
	if o == nil {
		if n, ok := derefNamed(t); ok && n.Obj().Pkg() != nil {
			o, index, _ = types.LookupFieldOrMethod(lt, true, n.Obj().Pkg(), name)
		}
	}
	m, ok := o.(*types.Func)
	if !ok {
		return nil, nil, false
	}
	d, ok := e.l.declOf[m.Origin()]
	if !ok {
		return nil, nil, false
	}
	if len(index) > 1 { // promoted from an embedded field
		for _, i := range index[:len(index)-1] {
			var sty *types.Struct
			if n, ok := derefNamed(t); ok {
				sty, _ = n.Underlying().(*types.Struct)
			}
			if sty == nil || i >= sty.NumFields() {
				return nil, nil, false
			}
			f := sty.Field(i)
			t = f.Type()
			v = e.field(st, v, f.Name(), t)
			if p, ok := recv.(vPtr); ok {
				q := f.Name()
				if p.path != "" {
					q = p.path + "." + q
				}
				recv = vPtr{p.l, q}
			} else {
				recv = v
			}
			if p, ok := v.(vPtr); ok {
				recv, isPtr = p, true
				v = e.load(st, p)
			}
		}
	}
	r := recv
	if _, wantPtr := m.Type().(*types.Signature).Recv().Type().Underlying().(*types.Pointer); !wantPtr && isPtr {
		r = v
	}
	return &d, r, true
}

func derefNamed(t types.Type) (*types.Named, bool) {
	t = types.Unalias(t)
	if p, ok := t.(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	n, ok := t.(*types.Named)
	return n, ok
}

// enter interprets a body with its parameters bound.
func (e *absEngine) enter(fr *frame, ft *ast.FuncType, recvObj types.Object, recv val, body *ast.BlockStmt, args []val, st *state, k func(*state, []val)) {
	e.acts++
	fr.act = e.acts
	fr.decl = ft
	fr.ret = k
	c := &ctx{fr: fr}
	if recvObj != nil {
		e.declare(c, st, recvObj, recv)
	}
	i := 0
	if ft.Params != nil {
		for _, f := range ft.Params.List {
			if len(f.Names) == 0 {
				i++
				continue
			}
			for _, n := range f.Names {
				o := fr.pkg.TypesInfo.Defs[n]
				e.declare(c, st, o, e.at(args, i, o))
				i++
			}
		}
	}
	if ft.Results != nil {
		for _, f := range ft.Results.List {
			for _, n := range f.Names {
				o := fr.pkg.TypesInfo.Defs[n]
				if o == nil || n.Name == "_" {
					continue
				}
				e.declare(c, st, o, e.zero(o.Type()))
				fr.results = append(fr.results, o)
			}
		}
	}
	e.stmts(c, body.List, st, func(st *state) {
		var vs []val
		for _, o := range fr.results {
			vs = append(vs, st.heap[loc{act: fr.act, obj: o}])
		}
		fr.ret(st, vs)
	})
}

func (e *absEngine) resultTypes(c *ctx, x *ast.CallExpr) []types.Type {
	if x == nil {
		return nil
	}
	switch t := c.typeOf(x).(type) {
	case nil:
		return nil
	case *types.Tuple:
		var out []types.Type
		for i := 0; i < t.Len(); i++ {
			out = append(out, t.At(i).Type())
		}
		return out
	default:
		return []types.Type{t}
	}
}

// pure results: the same call yields the same values.
func (e *absEngine) pureResults(c *ctx, x *ast.CallExpr, op string, args []val) []val {
	ts := e.resultTypes(c, x)
	var out []val
	for i, t := range ts {
		n := op
		if len(ts) > 1 {
			n = fmt.Sprintf("%s#%d", op, i)
		}
		if isErrorType(t) {
			out = append(out, e.freshSym("err:"+op, t))
			continue
		}
		out = append(out, mkSym(n, t, args...))
	}
	return out
}

func (e *absEngine) freshResults(c *ctx, x *ast.CallExpr, op string) []val {
	var out []val
	for i, t := range e.resultTypes(c, x) {
		out = append(out, e.freshSym(fmt.Sprintf("new:%s#%d", op, i), t))
	}
	return out
}

// unknownCall calls a function value the caller of the analysed code supplied.
// Such a function may write any text to a statement it is given, with
// placeholders for values it binds, as the StmtWriter contract says.
func (e *absEngine) unknownCall(c *ctx, x *ast.CallExpr, f val, args []val, st *state, k func(*state, []val)) {
	var rec func(i int, st *state)
	rec = func(i int, st *state) {
		if i == len(args) {
			ts := e.resultTypes(c, x)
			if len(ts) == 1 {
				if b, ok := ts[0].Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
					k(st, e.freshResults(c, x, "callback"))
					return
				}
			}
			var plain []val
			for _, a := range args {
				if _, isPtr := e.plain(st, a).(vPtr); !isPtr {
					plain = append(plain, e.plain(st, a))
				}
			}
			k(st, e.pureResults(c, x, "call", append([]val{f}, plain...)))
			return
		}
		p, ok := args[i].(vPtr)
		if !ok {
			rec(i+1, st)
			return
		}
		if _, _, isWriter := e.dispatch(p, "Vars", st); isWriter {
			id := mkSym("bound", types.NewSlice(types.NewInterfaceType(nil, nil)), f)
			e.method(c, p, "Vars", []val{id}, st, func(st *state, vs []val) {
				var d doc
				if len(vs) == 1 {
					d = toDoc(vs[0])
				}
				e.method(c, p, "WriteString", []val{vStr{doc{{kind: pOpaque, s: f.key(), d: d}}}}, st, func(st *state, _ []val) { rec(i+1, st) })
			})
			return
		}
		if _, isB := st.builderAt(p); isB {
			e.write(c, x, p, hole(e.freshSym("?callback", nil)), st)
			rec(i+1, st)
			return
		}
		e.store(st, p, e.freshSym("set", typeOfVal(e.load(st, p))))
		rec(i+1, st)
	}
	rec(0, st)
}

// method calls a method by name on a value of known type.
func (e *absEngine) method(c *ctx, recv val, name string, args []val, st *state, k func(*state, []val)) {
	if p, ok := st.builderAt(recv); ok {
		e.builderCall(c, nil, p, name, args, st, k)
		return
	}
	d, r, ok := e.dispatch(recv, name, st)
	if !ok {
		k(st, nil)
		return
	}
	e.apply(c, nil, &vFunc{decl: d, recv: r, name: name, pkg: d.pkg}, args, st, k)
}

func (e *absEngine) write(c *ctx, x *ast.CallExpr, p vPtr, d doc, st *state) {
	cur, ok := e.load(st, p).(vBuilder)
	if !ok {
		cur = vBuilder{}
	}
	nd := cur.d.cat(d)
	e.store(st, p, vBuilder{nd})
}

func (e *absEngine) builderCall(c *ctx, x *ast.CallExpr, p vPtr, name string, args []val, st *state, k func(*state, []val)) {
	cur, _ := e.load(st, p).(vBuilder)
	switch name {
	case "WriteString", "Write":
		e.write(c, x, p, toDoc(args[0]), st)
		k(st, []val{vInt{e.length(st, args[0])}, vNil{}})
	case "WriteByte":
		e.write(c, x, p, runeText(args[0]), st)
		k(st, []val{vNil{}})
	case "WriteRune":
		e.write(c, x, p, runeText(args[0]), st)
		k(st, []val{e.unknown("n", types.Typ[types.Int]), vNil{}})
	case "String", "Bytes":
		k(st, []val{vStr{cur.d}})
	case "Len":
		k(st, []val{vInt{e.length(st, vStr{cur.d})}})
	case "Reset":
		e.store(st, p, vBuilder{})
		k(st, nil)
	case "Grow":
		k(st, nil)
	case "Flush":
		k(st, []val{vNil{}})
	case "Truncate":
		if n, ok := args[0].(vInt); ok {
			v := e.sliceVal(st, vStr{cur.d}, nil, n.p, types.Typ[types.String])
			e.store(st, p, vBuilder{toDoc(v)})
		}
		k(st, nil)
	case "WriteTo", "ReadFrom":
		from, to := val(p), args[0]
		if name == "ReadFrom" {
			from, to = to, from
		}
		if e.moveText(c, x, to, from, st) {
			k(st, []val{e.unknown("n", types.Typ[types.Int64]), vNil{}})
			return
		}
		e.store(st, p, vBuilder{hole(e.freshSym("?builder", nil))})
		k(st, e.freshResults(c, x, "builder."+name))
	default:
		e.store(st, p, vBuilder{hole(e.freshSym("?builder", nil))})
		k(st, e.freshResults(c, x, "builder."+name))
	}
}

// moveText writes the text of one buffer to another and empties the first.
func (e *absEngine) moveText(c *ctx, x *ast.CallExpr, to, from val, st *state) bool {
	dst, ok := st.builderAt(to)
	src, ok2 := st.builderAt(from)
	if !ok || !ok2 || dst == src {
		return false
	}
	b, ok := e.load(st, src).(vBuilder)
	if !ok {
		return false
	}
	e.write(c, x, dst, append(doc{}, b.d...), st)
	e.store(st, src, vBuilder{})
	return true
}

// format renders a printf format with its operands. Parts of the format that
// are not constant are names, which hold no verbs.
func (e *absEngine) format(f val, list val) doc {
	l, okl := list.(*vList)
	fd := toDoc(f)
	if !okl || !allOnes(l.segs) {
		return hole(mkSym("?format", nil, f))
	}
	for _, p := range fd {
		if p.kind != pLit && p.kind != pHole && p.kind != pNum {
			return hole(mkSym("?format", nil, f))
		}
	}
	var d doc
	n := 0
	verbAt := false // inside a verb
	plain := false
	for _, p := range fd {
		if p.kind != pLit {
			if verbAt { // a computed width
				plain = false
				continue
			}
			d = d.cat(doc{p})
			continue
		}
		s := p.s
		for i := 0; i < len(s); i++ {
			if !verbAt {
				if s[i] != '%' {
					d = d.cat(lit(s[i : i+1]))
					continue
				}
				verbAt, plain = true, true
				continue
			}
			verb := s[i]
			if strings.IndexByte("+-# 0123456789.", verb) >= 0 {
				plain = false
				continue
			}
			verbAt = false
			if verb == '%' {
				d = d.cat(lit("%"))
				continue
			}
			if n >= len(l.segs) || verb == '[' || verb == '*' {
				d = d.cat(hole(mkSym("?format", nil, f)))
				n++
				continue
			}
			a := l.segs[n].v
			n++
			switch {
			case plain && (verb == 's' || verb == 'v' || verb == 'd'):
				d = d.cat(toDoc(a))
			case plain && verb == 'q':
				if t, ok := constText(a); ok {
					d = d.cat(lit(fmt.Sprintf("%q", t)))
				} else {
					d = d.cat(lit("\"")).cat(toDoc(a)).cat(lit("\""))
				}
			case plain && verb == 'c':
				d = d.cat(runeText(a))
			default:
				d = d.cat(hole(mkSym("fmt%"+string(verb), nil, a)))
			}
		}
	}
	if n < len(l.segs) {
		d = d.cat(hole(mkSym("?format", nil, f)))
	}
	return d
}

var purePkgs = map[string]bool{"strings": true, "strconv": true, "fmt": true, "unicode": true, "unicode/utf8": true, "slices": true, "maps": true, "path": true, "path/filepath": true, "errors": true, "bytes": true, "reflect": true, "math": true, "go/types": true, "go/ast": true, "go/token": true, "github.com/samber/lo": true}

func pkgPathOf(full string) string {
	s := strings.TrimPrefix(full, "(")
	if i := strings.LastIndex(s, "/"); i >= 0 {
		if j := strings.Index(s[i:], "."); j >= 0 {
			return s[:i+j]
		}
		return s
	}
	if j := strings.Index(s, "."); j >= 0 {
		return s[:j]
	}
	return s
}

func (e *absEngine) externalCall(c *ctx, x *ast.CallExpr, fn *vFunc, obj *types.Func, args []val, st *state, k func(*state, []val)) {
	one := func(v val) { k(st, []val{v}) }
	switch fn.name {
	case "strings.Join":
		sep, ok := constText(args[1])
		if !ok {
			one(mkSym("call:strings.Join", types.Typ[types.String], args...))
			return
		}
		one(vStr{e.join(st, args[0], sep)})
		return
	case "strings.Repeat":
		p, ok := asPoly(args[1])
		if !ok {
			break
		}
		d := toDoc(args[0])
		if n, ok := p.constant(); ok {
			var r doc
			for ; n > 0 && len(r) < 400; n-- {
				r = r.cat(d)
			}
			one(vStr{r})
			return
		}
		one(vStr{doc{{kind: pRep, d: d, p: p}}})
		return
	case "strconv.Itoa":
		if _, ok := asPoly(args[0]); ok {
			one(vStr{numDoc(args[0])})
			return
		}
	case "strconv.FormatInt", "strconv.FormatUint":
		if b, ok := args[1].(vInt); ok && b.p.eq(pc(10)) {
			if _, ok := asPoly(args[0]); ok {
				one(vStr{numDoc(args[0])})
				return
			}
		}
	case "strconv.AppendInt", "strconv.AppendUint":
		if b, ok := args[2].(vInt); ok && b.p.eq(pc(10)) {
			if _, ok := asPoly(args[1]); ok {
				d := toDoc(args[0])
				if l, isL := args[0].(*vList); isL && len(l.segs) == 0 {
					d = nil
				}
				one(vStr{d.cat(numDoc(args[1]))})
				return
			}
		}
	case "strconv.Quote":
		if s, ok := constText(args[0]); ok {
			one(vStr{lit(fmt.Sprintf("%q", s))})
			return
		}
	case "strings.Clone", "slices.Clone", "slices.Clip":
		one(args[0])
		return
	case "slices.Concat":
		if l, ok := args[0].(*vList); ok && allOnes(l.segs) {
			var segs []seg
			for _, s := range l.segs {
				segs = append(segs, e.toSegs(st, s.v)...)
			}
			one(&vList{segs: segs, typ: c.typeOf(x)})
			return
		}
	case "slices.Grow":
		one(args[0])
		return
	case "cmp.Or":
		// the first of the values that is not the zero value
		if len(args) == 1 {
			if l, ok := args[0].(*vList); ok && allOnes(l.segs) && len(l.segs) > 0 {
				t := c.typeOf(x)
				var rec func(i int, st *state)
				rec = func(i int, st *state) {
					v := l.segs[i].v
					if i == len(l.segs)-1 {
						k(st, []val{v})
						return
					}
					e.compareVals(v, e.zero(t), tokEQL, st, func(st *state) { rec(i+1, st) }, func(st *state) { k(st, []val{v}) })
				}
				rec(0, st)
				return
			}
		}
	case "slices.Contains":
		if l, ok := args[0].(*vList); ok && len(l.segs) <= 12 && allOnes(l.segs) {
			// walked one by one
			var rec func(i int, st *state)
			rec = func(i int, st *state) {
				if i == len(l.segs) {
					k(st, []val{vBool(false)})
					return
				}
				e.compareVals(l.segs[i].v, args[1], tokEQL, st, func(st *state) { k(st, []val{vBool(true)}) }, func(st *state) { rec(i+1, st) })
			}
			rec(0, st)
			return
		}
		src := args[0]
		if l, ok := src.(*vList); ok && len(l.segs) == 1 && l.segs[0].kind == segAll {
			e.fork("in("+args[1].key()+","+segsKey(l.segs)+")", st, func(st *state) { k(st, []val{vBool(true)}) }, func(st *state) { k(st, []val{vBool(false)}) })
			return
		}
		e.fork("in("+args[1].key()+","+segsKey(e.toSegs(st, src))+")", st, func(st *state) { k(st, []val{vBool(true)}) }, func(st *state) { k(st, []val{vBool(false)}) })
		return
	case "slices.ContainsFunc", "github.com/samber/lo.ContainsBy", "github.com/samber/lo.SomeBy":
		if l, ok := args[0].(*vList); ok && len(l.segs) <= 12 && allOnes(l.segs) {
			if f, ok := args[1].(*vFunc); ok {
				var rec func(i int, st *state)
				rec = func(i int, st *state) {
					if i == len(l.segs) {
						k(st, []val{vBool(false)})
						return
					}
					e.apply(c, nil, f, []val{l.segs[i].v}, st, func(st *state, vs []val) {
						e.branchVal(vs[0], st, func(st *state) { k(st, []val{vBool(true)}) }, func(st *state) { rec(i+1, st) })
					})
				}
				rec(0, st)
				return
			}
		}
	case "slices.Index":
		one(mkSym("call:slices.Index", types.Typ[types.Int], args...))
		return
	case "strings.TrimSuffix", "strings.TrimRight", "strings.TrimPrefix", "strings.TrimLeft", "strings.TrimSpace", "strings.Trim":
		if d, ok := trimDoc(lastName(fn.name), toDoc(args[0]), args); ok {
			one(vStr{d})
			return
		}
	case "strings.NewReplacer":
	case "strings.ReplaceAll", "strings.Replace":
	case "fmt.Sprintf":
		one(vStr{e.format(args[0], args[1])})
		return
	case "fmt.Sprint":
		if l, ok := args[0].(*vList); ok && len(l.segs) == 1 && l.segs[0].kind == segOne {
			one(vStr{toDoc(l.segs[0].v)})
			return
		}
	case "fmt.Errorf", "errors.New":
		// an error is never nil
		one(e.alloc(st, mkSym("error", nil)))
		return
	case "errors.Join":
		one(e.freshSym("errjoin", c.typeOf(x)))
		return
	case "fmt.Fprintf", "fmt.Fprint", "io.WriteString", "fmt.Fprintln":
		var d doc
		switch fn.name {
		case "fmt.Fprintf":
			d = e.format(args[1], args[2])
		case "io.WriteString":
			d = toDoc(args[1])
		default:
			l, ok := args[1].(*vList)
			if !ok || !allOnes(l.segs) {
				d = hole(mkSym("?print", nil))
				break
			}
			for i, s := range l.segs {
				if i > 0 && (fn.name == "fmt.Fprintln" || !isText(s.v) && !isText(l.segs[i-1].v)) {
					d = d.cat(lit(" "))
				}
				d = d.cat(toDoc(s.v))
			}
			if fn.name == "fmt.Fprintln" {
				d = d.cat(lit("\n"))
			}
		}
		e.method(c, args[0], "WriteString", []val{vStr{d}}, st, func(st *state, _ []val) {
			k(st, []val{e.unknown("n", types.Typ[types.Int]), vNil{}})
		})
		return
	case "(sync.Pool).Get":
		one(e.freshSymOp("pool.Get", c, x))
		return
	case "bytes.NewBufferString":
		one(e.alloc(st, vBuilder{toDoc(args[0])}))
		return
	case "bytes.NewBuffer":
		d := toDoc(args[0])
		if l, ok := args[0].(*vList); ok && len(l.segs) == 0 {
			d = nil
		}
		if _, ok := args[0].(vNil); ok {
			d = nil
		}
		one(e.alloc(st, vBuilder{d}))
		return
	case "bufio.NewWriter", "bufio.NewWriterSize":
		one(args[0])
		return
	case "github.com/samber/lo.Map", "github.com/samber/lo.Filter", "github.com/samber/lo.ForEach", "github.com/samber/lo.FilterMap", "github.com/samber/lo.Reject":
		if f, ok := args[1].(*vFunc); ok && f.lit != nil {
			e.loMap(c, x, lastName(fn.name), args[0], f, st, k)
			return
		}
	}
	if x == nil {
		k(st, nil)
		return
	}
	// pointers handed out may be written through
	pure := purePkgs[pkgPathOf(fn.name)] || strings.HasPrefix(pkgPathOf(fn.name), seqPath) || strings.HasPrefix(pkgPathOf(fn.name), modPath) && fn.decl == nil
	all := args
	if fn.recv != nil {
		all = append([]val{fn.recv}, args...)
	}
	var plain []val
	for i, a := range all {
		pl := e.plain(st, a)
		plain = append(plain, pl)
		p, ok := a.(vPtr)
		if !ok {
			continue
		}
		if b, isB := st.builderAt(p); isB {
			e.write(c, x, b, hole(e.freshSym("?"+fn.name, nil)), st)
			continue
		}
		if i == 0 && fn.recv != nil && pure && lastName(fn.name) != "Addrs" && lastName(fn.name) != "ScanAutoIncr" {
			continue
		}
		if _, isErr := e.load(st, p).(*sym); isErr && typeOfVal(e.load(st, p)) == nil {
			continue
		}
		e.store(st, p, e.freshSym("set", typeOfVal(e.load(st, p))))
	}
	op := "call:" + fn.name
	if fn.recv != nil {
		op = "m:" + lastName(fn.name)
	}
	if pure {
		k(st, e.pureResults(c, x, op, plain))
		return
	}
	k(st, e.freshResults(c, x, op))
}

func isText(v val) bool {
	switch v := v.(type) {
	case vStr:
		return true
	case *sym:
		return isStringType(v.typ)
	}
	return false
}

func (e *absEngine) freshSymOp(op string, c *ctx, x *ast.CallExpr) val {
	return mkSym(op, nil)
}

func numDoc(v val) doc {
	p, _ := asPoly(v)
	if n, ok := p.constant(); ok {
		return lit(fmt.Sprint(n))
	}
	return doc{{kind: pNum, p: p}}
}

func (e *absEngine) join(st *state, list val, sep string) doc {
	segs := e.toSegs(st, list)
	if len(segs) == 0 {
		return nil
	}
	if allOnes(segs) {
		var d doc
		for i, s := range segs {
			if i > 0 {
				d = d.cat(lit(sep))
			}
			d = d.cat(toDoc(s.v))
		}
		return d
	}
	return doc{{kind: pJoin, list: segs, s: sep}}
}

// trimDoc removes separators at the ends of a text. A separator at the end of
// a loop is left in place: separators are not what the analysis decides.
func trimDoc(name string, d doc, args []val) (doc, bool) {
	cut := " \t\n"
	if len(args) > 1 {
		s, ok := constText(args[1])
		if !ok {
			return nil, false
		}
		cut = s
	}
	if strings.Trim(cut, " ,\t\n") != "" {
		return nil, false
	}
	out := append(doc{}, d...)
	if len(out) == 0 {
		return out, true
	}
	if !strings.HasSuffix(name, "Prefix") && name != "TrimLeft" {
		if l := &out[len(out)-1]; l.kind == pLit {
			n := *l
			if name == "TrimSuffix" {
				n.s = strings.TrimSuffix(n.s, cut)
			} else {
				n.s = strings.TrimRight(n.s, cut)
			}
			out[len(out)-1] = n
		}
	}
	if !strings.HasSuffix(name, "Suffix") && name != "TrimRight" {
		if l := &out[0]; l.kind == pLit {
			n := *l
			if name == "TrimPrefix" {
				n.s = strings.TrimPrefix(n.s, cut)
			} else {
				n.s = strings.TrimLeft(n.s, cut)
			}
			out[0] = n
		}
	}
	var r doc
	for _, p := range out {
		if p.kind == pLit && p.s == "" {
			continue
		}
		r = append(r, p)
	}
	return r, true
}

// loMap interprets the list helpers of the lo library as loops.
func (e *absEngine) loMap(c *ctx, x *ast.CallExpr, name string, list val, f *vFunc, st *state, k func(*state, []val)) {
	if p, ok := list.(vPtr); ok {
		list = e.load(st, p)
	}
	idx := fmt.Sprintf("i$%d", c.depth+1)
	var et types.Type
	if s, ok := c.typeOf(x.Args[0]).Underlying().(*types.Slice); ok {
		et = s.Elem()
	}
	out := e.alloc(st, &vList{typ: c.typeOf(x)})
	sp := &loopSpec{idx: idx, from: poly{}, to: e.length(st, list), exact: true}
	sp.bind = func(c *ctx, st *state, k func(*state)) { k(st) }
	each := func(c *ctx, el, at val, st *state, k func(*state)) {
		e.apply(c, nil, f, []val{el, at}, st, func(st *state, vs []val) {
			add := func(st *state, v val) {
				cur := e.load(st, out)
				e.store(st, out, &vList{segs: append(append([]seg{}, e.toSegs(st, cur)...), seg{kind: segOne, v: v})})
				k(st)
			}
			switch name {
			case "Map":
				add(st, vs[0])
			case "Filter":
				e.branchVal(vs[0], st, func(st *state) { add(st, el) }, k)
			case "Reject":
				e.branchVal(vs[0], st, k, func(st *state) { add(st, el) })
			case "FilterMap":
				e.branchVal(vs[1], st, func(st *state) { add(st, vs[0]) }, k)
			default:
				k(st)
			}
		})
	}
	sp.run = func(c *ctx, st *state, k func(*state)) {
		each(c, e.elem(list, ps(idx), et), vInt{ps(idx)}, st, k)
	}
	done := func(st *state) {
		if name == "ForEach" {
			k(st, nil)
			return
		}
		k(st, []val{e.load(st, out)})
	}
	if l, ok := list.(*vList); ok && composed(l.segs) && secondBlank(f) {
		e.eachOf(c, l.segs, et, func(c *ctx, el val, st *state, k func(*state)) {
			each(c, el, e.unknown("index", types.Typ[types.Int]), st, k)
		}, st, done)
		return
	}
	e.loop(c, sp, st, done)
}

// secondBlank: a function literal that does not use its second parameter.
func secondBlank(f *vFunc) bool {
	if f.lit == nil {
		return false
	}
	n := 0
	for _, p := range f.lit.Type.Params.List {
		for _, id := range p.Names {
			if n++; n == 2 {
				return id.Name == "_"
			}
		}
	}
	return false
}
