package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"strings"
)

func (e *absEngine) evalList(c *ctx, xs []ast.Expr, st *state, k func(*state, []val)) {
	var rec func(i int, st *state, acc []val)
	rec = func(i int, st *state, acc []val) {
		if i == len(xs) {
			k(st, acc)
			return
		}
		e.eval(c, xs[i], st, func(st *state, v val) {
			rec(i+1, st, append(append([]val{}, acc...), v))
		})
	}
	rec(0, st, nil)
}

func constVal(v constant.Value) (val, bool) {
	switch v.Kind() {
	case constant.String:
		return vStr{lit(constant.StringVal(v))}, true
	case constant.Int:
		if n, ok := constant.Int64Val(v); ok {
			return vInt{pc(n)}, true
		}
	case constant.Bool:
		return vBool(constant.BoolVal(v)), true
	}
	return nil, false
}

// eval evaluates an expression of one value (a tuple for a call of several).
func (e *absEngine) eval(c *ctx, x ast.Expr, st *state, k func(*state, val)) {
	if e.steps++; e.steps > e.limit {
		return
	}
	e.cur = st
	info := c.info()
	if tv, ok := info.Types[x]; ok && tv.Value != nil {
		if v, ok := constVal(tv.Value); ok {
			k(st, v)
			return
		}
		k(st, mkSym("const:"+tv.Value.ExactString(), tv.Type))
		return
	}
	switch x := x.(type) {
	case *ast.ParenExpr:
		e.eval(c, x.X, st, k)
	case *ast.Ident:
		e.ident(c, x, st, k)
	case *ast.FuncLit:
		k(st, &vFunc{lit: x, fr: c.fr, pkg: c.fr.pkg, name: c.fr.name + "$lit"})
	case *ast.CompositeLit:
		e.composite(c, x, st, k)
	case *ast.SelectorExpr:
		e.selector(c, x, st, k)
	case *ast.IndexExpr:
		if tv, ok := info.Types[x.X]; ok {
			if _, isSig := tv.Type.Underlying().(*types.Signature); isSig && !tv.IsType() { // instantiation
				if _, isVar := info.Types[x.Index]; isVar && info.Types[x.Index].IsType() {
					e.eval(c, x.X, st, k)
					return
				}
			}
		}
		e.eval(c, x.X, st, func(st *state, l val) {
			e.eval(c, x.Index, st, func(st *state, i val) {
				e.index(c, x, l, i, st, func(st *state, v val, ok bool) { k(st, v) }, false)
			})
		})
	case *ast.IndexListExpr:
		e.eval(c, x.X, st, k)
	case *ast.SliceExpr:
		e.slice(c, x, st, k)
	case *ast.StarExpr:
		e.eval(c, x.X, st, func(st *state, v val) {
			switch p := v.(type) {
			case vPtr:
				k(st, e.load(st, p))
			default:
				k(st, v)
			}
		})
	case *ast.TypeAssertExpr:
		e.eval(c, x.X, st, func(st *state, v val) {
			if x.Type == nil {
				k(st, v)
				return
			}
			k(st, e.asserted(c, v, c.typeOf(x.Type), st))
		})
	case *ast.UnaryExpr:
		switch x.Op {
		case token.AND:
			e.address(c, x.X, st, k)
		case token.NOT:
			e.branch(c, x, st, func(st *state) { k(st, vBool(true)) }, func(st *state) { k(st, vBool(false)) })
		case token.SUB:
			e.eval(c, x.X, st, func(st *state, v val) {
				if i, ok := v.(vInt); ok {
					k(st, vInt{poly{}.sub(i.p)})
					return
				}
				k(st, mkSym("neg", c.typeOf(x), v))
			})
		default:
			e.eval(c, x.X, st, func(st *state, v val) { k(st, mkSym(x.Op.String(), c.typeOf(x), v)) })
		}
	case *ast.BinaryExpr:
		switch x.Op {
		case token.LAND, token.LOR, token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			e.branch(c, x, st, func(st *state) { k(st, vBool(true)) }, func(st *state) { k(st, vBool(false)) })
			return
		}
		e.eval(c, x.X, st, func(st *state, a val) {
			e.eval(c, x.Y, st, func(st *state, b val) {
				k(st, e.arith(c, x, x.Op, a, b))
			})
		})
	case *ast.CallExpr:
		e.call(c, x, st, func(st *state, vs []val) {
			switch len(vs) {
			case 1:
				k(st, vs[0])
			default:
				k(st, vTuple(vs))
			}
		})
	case *ast.KeyValueExpr:
		e.eval(c, x.Value, st, k)
	default:
		k(st, e.unknown(fmt.Sprintf("%T", x), c.typeOf(x)))
	}
}

func isStringType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isIntType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func asPoly(v val) (poly, bool) {
	switch v := v.(type) {
	case vInt:
		return v.p, true
	case *sym:
		if isIntType(v.typ) {
			return ps(v.k), true
		}
	}
	return nil, false
}

func (e *absEngine) arith(c *ctx, x ast.Expr, op token.Token, a, b val) val {
	t := c.typeOf(x)
	if isStringType(t) && op == token.ADD {
		return vStr{toDoc(a).cat(toDoc(b))}
	}
	p, ok1 := asPoly(a)
	q, ok2 := asPoly(b)
	if ok1 && ok2 {
		switch op {
		case token.ADD:
			return vInt{p.add(q)}
		case token.SUB:
			return vInt{p.sub(q)}
		case token.MUL:
			return vInt{p.mul(q)}
		}
	}
	return mkSym(op.String(), t, a, b)
}

func (e *absEngine) ident(c *ctx, x *ast.Ident, st *state, k func(*state, val)) {
	info := c.info()
	o := info.Uses[x]
	if o == nil {
		o = info.Defs[x]
	}
	switch o := o.(type) {
	case *types.Nil:
		k(st, vNil{})
	case *types.Var:
		if p, ok := e.lookup(c, st, o); ok {
			k(st, st.heap[p.l])
			return
		}
		if o.Pkg() != nil && o.Parent() == o.Pkg().Scope() {
			k(st, e.globalVar(o))
			return
		}
		k(st, mkSym("var:"+o.Name(), o.Type()))
	case *types.Func:
		k(st, e.funcVal(c, o, nil))
	case *types.Const:
		if v, ok := constVal(o.Val()); ok {
			k(st, v)
			return
		}
		k(st, mkSym("const:"+o.Val().ExactString(), o.Type()))
	default:
		k(st, e.unknown("ident "+x.Name, c.typeOf(x)))
	}
}

func (e *absEngine) funcVal(c *ctx, o *types.Func, recv val) val {
	o = o.Origin()
	f := &vFunc{recv: recv, name: fullName(o), pkg: c.fr.pkg}
	if d, ok := e.l.declOf[o]; ok {
		f.decl = &d
	}
	return f
}

func (e *absEngine) globalVar(o *types.Var) val {
	name := "global:" + o.Pkg().Name() + "." + o.Name()
	if e.globalHook != nil {
		if v := e.globalHook(name); v != nil {
			return v
		}
	}
	return mkSym(name, o.Type())
}

func (e *absEngine) composite(c *ctx, x *ast.CompositeLit, st *state, k func(*state, val)) {
	t := c.typeOf(x)
	u := t.Underlying()
	if p, ok := u.(*types.Pointer); ok { // an element spelled without &T
		t, u = p.Elem(), p.Elem().Underlying()
		by := k
		k = func(st *state, v val) { by(st, e.alloc(st, v)) }
	}
	switch u := u.(type) {
	case *types.Slice, *types.Array:
		var xs []ast.Expr
		plain := true
		for _, el := range x.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				plain = false
				xs = append(xs, kv.Value)
				continue
			}
			xs = append(xs, el)
		}
		e.evalList(c, xs, st, func(st *state, vs []val) {
			if !plain {
				k(st, e.unknown("indexed literal", t))
				return
			}
			l := &vList{typ: t}
			for _, v := range vs {
				l.segs = append(l.segs, seg{kind: segOne, v: v})
			}
			if a, ok := u.(*types.Array); ok && int64(len(vs)) < a.Len() {
				l.segs = append(l.segs, seg{kind: segFill, to: pc(a.Len() - int64(len(vs)))})
			}
			k(st, l)
		})
	case *types.Map:
		var xs []ast.Expr
		for _, el := range x.Elts {
			kv := el.(*ast.KeyValueExpr)
			xs = append(xs, kv.Key, kv.Value)
		}
		e.evalList(c, xs, st, func(st *state, vs []val) {
			m := &vMap{}
			for i := 0; i+1 < len(vs); i += 2 {
				m.segs = append(m.segs, seg{kind: segOne, v: vEntry{vs[i], vs[i+1]}})
			}
			p := e.alloc(st, m)
			k(st, vMapRef{p.l})
		})
	case *types.Struct:
		var xs []ast.Expr
		var names []string
		for i, el := range x.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				names = append(names, kv.Key.(*ast.Ident).Name)
				xs = append(xs, kv.Value)
			} else {
				names = append(names, u.Field(i).Name())
				xs = append(xs, el)
			}
		}
		e.evalList(c, xs, st, func(st *state, vs []val) {
			if isBuilderType(t) {
				k(st, vBuilder{})
				return
			}
			s := &vStruct{typ: t, f: map[string]val{}}
			for i, n := range names {
				s.f[n] = vs[i]
			}
			k(st, s)
		})
	default:
		k(st, e.unknown("composite", t))
	}
}

// address evaluates &x.
func (e *absEngine) address(c *ctx, x ast.Expr, st *state, k func(*state, val)) {
	x = ast.Unparen(x)
	if cl, ok := x.(*ast.CompositeLit); ok {
		e.composite(c, cl, st, func(st *state, v val) { k(st, e.alloc(st, v)) })
		return
	}
	e.lvalue(c, x, st, func(st *state, lv lval) {
		if lv.ok && lv.idx == nil {
			k(st, lv.p)
			return
		}
		e.eval(c, x, st, k)
	})
}

type lval struct {
	ok  bool
	p   vPtr
	idx val // element of the list at p
	lst bool
	m   *vMapRef
	key val
}

// lvalue resolves an assignable expression to a place.
func (e *absEngine) lvalue(c *ctx, x ast.Expr, st *state, k func(*state, lval)) {
	switch x := ast.Unparen(x).(type) {
	case *ast.Ident:
		o := c.info().Uses[x]
		if o == nil {
			o = c.info().Defs[x]
		}
		if o != nil {
			if p, ok := e.lookup(c, st, o); ok {
				k(st, lval{ok: true, p: p})
				return
			}
		}
		k(st, lval{})
	case *ast.StarExpr:
		e.eval(c, x.X, st, func(st *state, v val) {
			if p, ok := v.(vPtr); ok {
				k(st, lval{ok: true, p: p})
				return
			}
			k(st, lval{})
		})
	case *ast.SelectorExpr:
		if s := c.info().Selections[x]; s == nil || s.Kind() != types.FieldVal {
			k(st, lval{})
			return
		}
		path := selPath(c, x)
		if _, isPtr := c.typeOf(x.X).Underlying().(*types.Pointer); isPtr {
			e.eval(c, x.X, st, func(st *state, v val) {
				if p, ok := v.(vPtr); ok {
					k(st, lval{ok: true, p: p.sub(path)})
					return
				}
				k(st, lval{})
			})
			return
		}
		e.lvalue(c, x.X, st, func(st *state, b lval) {
			if b.ok && b.idx == nil {
				k(st, lval{ok: true, p: b.p.sub(path)})
				return
			}
			k(st, lval{})
		})
	case *ast.IndexExpr:
		if _, isMap := c.typeOf(x.X).Underlying().(*types.Map); isMap {
			e.eval(c, x.X, st, func(st *state, m val) {
				e.eval(c, x.Index, st, func(st *state, key val) {
					if r, ok := m.(vMapRef); ok {
						k(st, lval{ok: true, m: &r, key: key, idx: key})
						return
					}
					k(st, lval{})
				})
			})
			return
		}
		e.lvalue(c, x.X, st, func(st *state, b lval) {
			e.eval(c, x.Index, st, func(st *state, i val) {
				if b.ok && b.idx == nil {
					k(st, lval{ok: true, p: b.p, idx: i, lst: true})
					return
				}
				k(st, lval{})
			})
		})
	default:
		k(st, lval{})
	}
}

func (p vPtr) sub(path []string) vPtr {
	n := strings.Join(path, ".")
	if p.path != "" {
		n = p.path + "." + n
	}
	return vPtr{l: p.l, path: n}
}

// selPath names the fields a selection walks through, embedded ones included.
func selPath(c *ctx, x *ast.SelectorExpr) []string {
	s := c.info().Selections[x]
	var out []string
	t := s.Recv()
	for _, i := range s.Index() {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		stt, ok := t.Underlying().(*types.Struct)
		if !ok || i >= stt.NumFields() {
			return append(out, x.Sel.Name)
		}
		out = append(out, stt.Field(i).Name())
		t = stt.Field(i).Type()
	}
	return out
}

func (e *absEngine) selector(c *ctx, x *ast.SelectorExpr, st *state, k func(*state, val)) {
	info := c.info()
	s := info.Selections[x]
	if s == nil { // qualified identifier
		switch o := info.Uses[x.Sel].(type) {
		case *types.Func:
			k(st, e.funcVal(c, o, nil))
		case *types.Var:
			k(st, e.globalVar(o))
		case *types.Const:
			if v, ok := constVal(o.Val()); ok {
				k(st, v)
				return
			}
			k(st, mkSym("const:"+o.Val().ExactString(), o.Type()))
		default:
			k(st, e.unknown("selector "+x.Sel.Name, c.typeOf(x)))
		}
		return
	}
	switch s.Kind() {
	case types.FieldVal:
		e.eval(c, x.X, st, func(st *state, v val) {
			for _, f := range selPath(c, x) {
				v = e.field(st, v, f, nil)
			}
			if sv, ok := v.(*sym); ok && sv.typ == nil {
				v = &sym{op: sv.op, args: sv.args, typ: c.typeOf(x), k: sv.k}
			}
			k(st, v)
		})
	case types.MethodVal:
		e.recvOf(c, x, st, func(st *state, v val) {
			k(st, e.funcVal(c, s.Obj().(*types.Func), v))
		})
	default:
		k(st, e.unknown("method expression", c.typeOf(x)))
	}
}

// recvOf evaluates the receiver of a method selection, taking its address when
// the method needs it.
func (e *absEngine) recvOf(c *ctx, x *ast.SelectorExpr, st *state, k func(*state, val)) {
	s := c.info().Selections[x]
	fn := s.Obj().(*types.Func)
	want := fn.Type().(*types.Signature).Recv().Type()
	_, wantPtr := want.Underlying().(*types.Pointer)
	finish := func(st *state, v val) {
		if _, known := v.(*vGo); known {
			k(st, v) // methods of known values are looked up by name
			return
		}
		if len(s.Index()) > 1 { // promoted
			t := s.Recv()
			for _, i := range s.Index()[:len(s.Index())-1] {
				if p, ok := t.Underlying().(*types.Pointer); ok {
					t = p.Elem()
				}
				stt, ok := t.Underlying().(*types.Struct)
				if !ok {
					break
				}
				f := stt.Field(i)
				if p, ok := v.(vPtr); ok {
					v = p.sub([]string{f.Name()})
					if !wantPtr || true {
						if _, isP := f.Type().Underlying().(*types.Pointer); isP {
							v = e.load(st, v.(vPtr))
						}
					}
				} else {
					v = e.field(st, v, f.Name(), f.Type())
				}
				t = f.Type()
			}
		}
		if p, ok := v.(vPtr); ok && !wantPtr && !types.IsInterface(want) {
			if _, isBuilder := st.heap[p.l].(vBuilder); !isBuilder {
				v = e.load(st, p)
			}
		}
		k(st, v)
	}
	_, isPtr := c.typeOf(x.X).Underlying().(*types.Pointer)
	if _, isTP := types.Unalias(c.typeOf(x.X)).(*types.TypeParam); isTP {
		isPtr = false
	}
	if wantPtr && !isPtr && !types.IsInterface(c.typeOf(x.X)) {
		e.address(c, x.X, st, finish)
		return
	}
	e.eval(c, x.X, st, finish)
}

// index evaluates l[i]; ok says the key was found, for maps.
func (e *absEngine) index(c *ctx, x *ast.IndexExpr, l, i val, st *state, k func(*state, val, bool), commaOk bool) {
	t := c.typeOf(x)
	if tt, ok := t.(*types.Tuple); ok {
		t = tt.At(0).Type()
	}
	if p, ok := l.(vPtr); ok {
		l = e.load(st, p)
	}
	mt := c.typeOf(x.X).Underlying()
	if m, isMap := mt.(*types.Map); isMap {
		t = m.Elem()
		var got val
		r, known := l.(vMapRef)
		if known {
			if mv, ok := st.heap[r.l].(*vMap); ok {
				got = e.mapGet(mv, i, t)
				l = mv
			}
		}
		if got == nil {
			got = mkSym("mapget", t, l, i)
		}
		if mv, isMap := l.(*vMap); isMap && known {
			if has, ok := knownKey(mv, i); ok {
				if !has {
					got = e.zero(t)
				}
				k(st, got, has)
				return
			}
		}
		if !commaOk {
			if mv, ok := l.(*vMap); ok && isBoolType(t) && allTrue(mv.segs) {
				// a set spelled as a map to bool
				if b, isBool := got.(vBool); isBool {
					k(st, b, true)
				} else if len(mv.segs) == 0 {
					k(st, vBool(false), true)
				} else {
					e.fork("in("+i.key()+","+keysOf(l)+")", st, func(st *state) { k(st, vBool(true), true) }, func(st *state) { k(st, vBool(false), true) })
				}
				return
			}
			k(st, got, true)
			return
		}
		if mv, ok := l.(*vMap); ok && len(mv.segs) == 0 {
			k(st, e.zero(t), false)
			return
		}
		e.fork("in("+i.key()+","+keysOf(l)+")", st, func(st *state) { k(st, got, true) }, func(st *state) { k(st, e.zero(t), false) })
		return
	}
	p, ok := asPoly(i)
	if !ok {
		k(st, mkSym("elem", t, l, i), true)
		return
	}
	if s, isStr := l.(vStr); isStr {
		if n, c := p.constant(); c {
			if txt, c := s.d.constString(); c && int(n) < len(txt) {
				k(st, vInt{pc(int64(txt[n]))}, true)
				return
			}
		}
		k(st, mkSym("byte", t, l, i), true)
		return
	}
	k(st, e.elem(l, p, t), true)
}

// allTrue: every value a map is known to hold is true.
func allTrue(in []seg) bool {
	for _, s := range in {
		switch s.kind {
		case segOne:
			en, ok := s.v.(vEntry)
			if !ok {
				return false
			}
			if b, ok := en.v.(vBool); !ok || !bool(b) {
				return false
			}
		case segLoop:
			for _, p := range s.paths {
				if !allTrue(p) {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

// keysOf is the canonical spelling of the key set of a map, or of a list used
// as a set.
func keysOf(m val) string {
	mv, ok := m.(*vMap)
	if !ok {
		return m.key()
	}
	return segsKey(keySegs(mv.segs))
}

func keySegs(in []seg) []seg {
	var out []seg
	for _, s := range in {
		switch s.kind {
		case segOne:
			if en, ok := s.v.(vEntry); ok {
				s.v = en.k
			}
		case segLoop:
			ps := make([][]seg, len(s.paths))
			for i := range s.paths {
				ps[i] = keySegs(s.paths[i])
			}
			s.paths = ps
			// every element of a list, in order: the list itself
			if a, ok := loopAsAll(s); ok {
				s = a
			}
		}
		out = append(out, s)
	}
	return out
}

// loopAsAll recognises a loop that contributes exactly the elements of a list.
func loopAsAll(s seg) (seg, bool) {
	if s.kind != segLoop || s.lp.partial || len(s.paths) == 0 {
		return s, false
	}
	var first string
	var src val
	for i, p := range s.paths {
		if len(p) != 1 || p[0].kind != segOne {
			return s, false
		}
		el, ok := p[0].v.(*sym)
		if !ok || el.op != "elem" {
			return s, false
		}
		ix, ok := el.args[1].(vInt)
		if !ok || !ix.p.eq(ps(s.lp.idx)) {
			return s, false
		}
		if i == 0 {
			first, src = el.k, el.args[0]
		} else if el.k != first {
			return s, false
		}
	}
	return seg{kind: segAll, v: src, from: s.lp.from, to: s.lp.to}, true
}

// mapGet looks a key up in a map whose entries are known.
func (e *absEngine) mapGet(m *vMap, k val, t types.Type) val {
	for i := len(m.segs) - 1; i >= 0; i-- {
		s := m.segs[i]
		if s.kind == segOne {
			if en, ok := s.v.(vEntry); ok && en.k.key() == k.key() {
				return en.v
			}
		}
	}
	return mkSym("mapget", t, m, k)
}

func (e *absEngine) slice(c *ctx, x *ast.SliceExpr, st *state, k func(*state, val)) {
	e.eval(c, x.X, st, func(st *state, v val) {
		if p, ok := v.(vPtr); ok {
			v = e.load(st, p)
		}
		lo, hi := ast.Expr(nil), ast.Expr(nil)
		lo, hi = x.Low, x.High
		get := func(y ast.Expr, st *state, k func(*state, poly, bool)) {
			if y == nil {
				k(st, nil, true)
				return
			}
			e.eval(c, y, st, func(st *state, v val) {
				p, ok := asPoly(v)
				k(st, p, ok)
			})
		}
		get(lo, st, func(st *state, a poly, ok1 bool) {
			get(hi, st, func(st *state, b poly, ok2 bool) {
				if !ok1 || !ok2 {
					k(st, e.unknown("slice bounds", c.typeOf(x)))
					return
				}
				k(st, e.sliceVal(st, v, a, b, c.typeOf(x)))
			})
		})
	})
}

func (e *absEngine) sliceVal(st *state, v val, a, b poly, t types.Type) val {
	if a == nil {
		a = poly{}
	}
	if isStringType(t) {
		d := toDoc(v)
		n, ok := a.constant()
		if b != nil {
			m, okm := e.length(st, v).sub(b).constant()
			if ok && okm && m >= 0 {
				good := true
				for ; m > 0 && good; m-- {
					d, good = d.dropLast()
				}
				if !good {
					return e.unknown("substring", t)
				}
			} else {
				return mkSym("substr", t, v, vInt{a}, vInt{b})
			}
		}
		if !ok {
			return mkSym("substr", t, v, vInt{a})
		}
		for ; n > 0; n-- {
			var good bool
			if d, good = d.dropFirst(); !good {
				return e.unknown("substring", t)
			}
		}
		return vStr{d}
	}
	full := b == nil
	if b == nil {
		b = e.length(st, v)
	}
	if len(a) == 0 && full {
		return v
	}
	if c, ok := b.sub(a).constant(); ok && c == 0 {
		return &vList{typ: t}
	}
	switch v := v.(type) {
	case *sym:
		return &vList{segs: []seg{{kind: segAll, v: v, from: a, to: b}}, typ: t}
	case *vList:
		segs := append([]seg{}, v.segs...)
		// cut from the front
		for len(a) != 0 && len(segs) > 0 {
			s := segs[0]
			n := e.segLen(st, s)
			if s.kind == segAll && len(segs) == 1 {
				segs[0].from = s.from.add(a)
				b, a = b.sub(a), poly{}
				break
			}
			ca, ok1 := a.constant()
			cn, ok2 := n.constant()
			if ok1 && ok2 && cn <= ca {
				segs = segs[1:]
				a = a.sub(n)
				b = b.sub(n)
				continue
			}
			if s.kind == segFill && ok1 {
				segs[0].to = s.to.sub(a)
				b, a = b.sub(a), poly{}
				break
			}
			return e.unknown("list slice", t)
		}
		var out []seg
		for _, s := range segs {
			if full {
				out = append(out, s)
				continue
			}
			if len(b) == 0 {
				break
			}
			n := e.segLen(st, s)
			if d, ok := b.sub(n).constant(); ok && d >= 0 {
				out = append(out, s)
				b = b.sub(n)
				continue
			}
			if s.kind == segAll {
				s.to = s.from.add(b)
				out = append(out, s)
				b = poly{}
				continue
			}
			return e.unknown("list slice", t)
		}
		return &vList{segs: out, typ: t}
	case vNil:
		return v
	}
	return e.unknown("slice", t)
}

// asserted gives the value of x.(T) once the assertion holds.
func (e *absEngine) asserted(c *ctx, v val, t types.Type, st *state) val {
	if s, ok := v.(*sym); ok && s.op == "pool.Get" {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			return e.alloc(st, e.zero(p.Elem()))
		}
	}
	if s, ok := v.(*sym); ok && s.typ == nil {
		return &sym{op: s.op, args: s.args, typ: t, k: s.k}
	}
	if s, ok := v.(*sym); ok && !types.IsInterface(t) {
		return &sym{op: s.op, args: s.args, typ: t, k: s.k}
	}
	return v
}

// branch evaluates a condition.
func (e *absEngine) branch(c *ctx, x ast.Expr, st *state, kt, kf func(*state)) {
	if e.steps++; e.steps > e.limit {
		return
	}
	x = ast.Unparen(x)
	if tv, ok := c.info().Types[x]; ok && tv.Value != nil && tv.Value.Kind() == constant.Bool {
		if constant.BoolVal(tv.Value) {
			kt(st)
		} else {
			kf(st)
		}
		return
	}
	switch x := x.(type) {
	case *ast.UnaryExpr:
		if x.Op == token.NOT {
			e.branch(c, x.X, st, kf, kt)
			return
		}
	case *ast.BinaryExpr:
		switch x.Op {
		case token.LAND:
			e.branch(c, x.X, st, func(st *state) { e.branch(c, x.Y, st, kt, kf) }, kf)
			return
		case token.LOR:
			e.branch(c, x.X, st, kt, func(st *state) { e.branch(c, x.Y, st, kt, kf) })
			return
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			e.eval(c, x.X, st, func(st *state, a val) {
				e.eval(c, x.Y, st, func(st *state, b val) {
					e.compareVals(a, b, x.Op, st, kt, kf)
				})
			})
			return
		}
	}
	e.eval(c, x, st, func(st *state, v val) { e.branchVal(v, st, kt, kf) })
}

func (e *absEngine) branchVal(v val, st *state, kt, kf func(*state)) {
	if b, ok := v.(vBool); ok {
		if b {
			kt(st)
		} else {
			kf(st)
		}
		return
	}
	e.fork(v.key(), st, kt, kf)
}

func (e *absEngine) compareVals(a, b val, op token.Token, st *state, kt, kf func(*state)) {
	if op == token.NEQ {
		e.compareVals(a, b, token.EQL, st, kf, kt)
		return
	}
	p, ok1 := asPoly(a)
	q, ok2 := asPoly(b)
	if ok1 && ok2 {
		e.compare(p.sub(q), op, st, kt, kf)
		return
	}
	if op == token.EQL {
		if _, ok := a.(vNil); ok {
			a, b = b, a
		}
		if _, ok := b.(vNil); ok {
			switch a := a.(type) {
			case vNil:
				kt(st)
			case vPtr, *vFunc, vMapRef, *vStruct, vStr, *vGo:
				kf(st)
			case *vList:
				one := false
				for _, s := range a.segs {
					one = one || s.kind == segOne
				}
				switch {
				case len(a.segs) == 0:
					kt(st)
				case one:
					kf(st)
				default:
					e.fork("nil:"+a.key(), st, kt, kf)
				}
			default:
				e.fork("nil:"+a.key(), st, kt, kf)
			}
			return
		}
		if x, ok := a.(vBool); ok {
			if y, ok := b.(vBool); ok {
				if x == y {
					kt(st)
				} else {
					kf(st)
				}
				return
			}
			a, b = b, a
		}
		if y, ok := b.(vBool); ok {
			if y {
				e.branchVal(a, st, kt, kf)
			} else {
				e.branchVal(a, st, kf, kt)
			}
			return
		}
		if x, ok := a.(*vGo); ok {
			if y, ok := b.(*vGo); ok {
				if x.x == y.x {
					kt(st)
				} else {
					kf(st)
				}
				return
			}
		}
		s, c1 := constText(a)
		t, c2 := constText(b)
		if c1 && c2 {
			if s == t {
				kt(st)
			} else {
				kf(st)
			}
			return
		}
		if c1 && s == "" || c2 && t == "" {
			// emptiness of a text
			x := a
			if c1 && s == "" {
				x = b
			}
			if str, ok := x.(vStr); ok {
				for _, pc := range str.d {
					if pc.kind == pLit && pc.s != "" {
						kf(st)
						return
					}
				}
			}
			e.fork("empty:"+x.key(), st, kt, kf)
			return
		}
		x, y := a.key(), b.key()
		if x == y {
			kt(st)
			return
		}
		if y < x {
			x, y = y, x
		}
		e.fork("eq("+x+","+y+")", st, kt, kf)
		return
	}
	e.fork(fmt.Sprintf("cmp%s(%s,%s)", op, a.key(), b.key()), st, kt, kf)
}

func constText(v val) (string, bool) {
	if s, ok := v.(vStr); ok {
		return s.d.constString()
	}
	return "", false
}

func isBoolType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
