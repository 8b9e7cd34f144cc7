package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
)

// absEngine interprets Go functions over abstract texts and lists. Paths are
// followed separately; a loop is summarised by what one iteration contributes
// to each text, list and counter, so the result covers any number of
// iterations. Conditions are uninterpreted facts.

type state struct {
	heap  map[loc]val
	atoms map[string]bool
	is    []isFact
}

type isFact struct {
	k   string
	t   types.Type
	yes bool
}

func (s *state) clone() *state {
	n := &state{heap: make(map[loc]val, len(s.heap)), atoms: make(map[string]bool, len(s.atoms)), is: append([]isFact{}, s.is...)}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k, v := range s.atoms {
		n.atoms[k] = v
	}
	return n
}

type frame struct {
	act     int
	parent  *frame
	pkg     *packages.Package
	name    string
	ret     func(*state, []val)
	results []types.Object // named results
	decl    *ast.FuncType
}

type ctx struct {
	fr    *frame
	brk   func(*state)
	cont  func(*state)
	lbl   map[string]*ctx         // labelled loops
	jump  map[string]func(*state) // labels further down, for goto
	label string                  // label of the statement about to run
	depth int                     // loop nesting
}

const tokEQL = token.EQL

type absEngine struct {
	l        *Loaded
	acts     int
	fresh    int
	steps    int
	limit    int
	explore  int // >0 while a loop body is only being measured
	lenOf    map[string]val
	inl      int
	active   map[*ast.FuncDecl]int
	problems []string
	inst     map[*types.TypeParam]types.Type // when set: the last instantiation of each type parameter
	cur      *state                          // the state of the latest step

	// hooks
	external   func(e *absEngine, c *ctx, call *ast.CallExpr, fn *vFunc, args []val, st *state, k func(*state, []val)) bool
	opaque     func(fn *vFunc) bool // do not inline
	globalHook func(name string) val
	lenHook    func(st *state, s *sym) (poly, bool)
	onWrite    func(pos token.Pos, d doc, st *state)
	trackW     bool
	assume     func(atom string) (value, ok bool)       // facts every input has
	skip       func(c *ctx, s ast.Stmt, st *state) bool // a loop replaced by its effect
	drop       func(c *ctx, s ast.Stmt, st *state) bool // a statement left out
	made       map[loc]val                              // what iterations of loops allocated
	peel       bool                                     // follow loops while their condition is decided
	conc       bool                                     // fold what is known, see absconc.go
	elemStores []elemStore                              // element stores seen, in exact mode
	exact      bool                                     // keep numeric conversions and pointers apart, see rules_value.go
}

func newAbs(l *Loaded) *absEngine {
	return &absEngine{l: l, lenOf: map[string]val{}, made: map[loc]val{}, limit: 30000000, active: map[*ast.FuncDecl]int{}}
}

func (e *absEngine) freshN() int { e.fresh++; return e.fresh }

func (e *absEngine) freshSym(what string, t types.Type) *sym {
	return mkSym(fmt.Sprintf("%s#%d", what, e.freshN()), t)
}

func (e *absEngine) unknown(why string, t types.Type) *sym {
	return mkSym(fmt.Sprintf("?%s#%d", why, e.freshN()), t)
}

func isUnknown(v val) bool {
	s, ok := v.(*sym)
	return ok && strings.HasPrefix(s.op, "?")
}

func (e *absEngine) rebuild(s *sym, args []val) val {
	switch s.op {
	case "elem":
		if i, ok := args[1].(vInt); ok {
			return e.elem(args[0], i.p, s.typ)
		}
	}
	return mkSym(s.op, s.typ, args...)
}

// length of a list or text.
func (e *absEngine) length(st *state, v val) poly {
	if st == nil {
		st = e.cur
	}
	switch v := v.(type) {
	case *vList:
		return e.segsLen(st, v.segs)
	case vNil:
		return poly{}
	case vStr:
		if s, ok := v.d.constString(); ok {
			return pc(int64(len(s)))
		}
		n := "len(" + v.d.key() + ")"
		return ps(n)
	case *sym:
		if e.lenHook != nil {
			if p, ok := e.lenHook(st, v); ok {
				return p
			}
		}
		n := "len(" + v.k + ")"
		e.lenOf[n] = v
		return ps(n)
	}
	return ps(fmt.Sprintf("len?%d", e.freshN()))
}

func (e *absEngine) segsLen(st *state, segs []seg) poly {
	p := poly{}
	for _, s := range segs {
		p = p.add(e.segLen(st, s))
	}
	return p
}

func (e *absEngine) segLen(st *state, s seg) poly {
	switch s.kind {
	case segOne:
		return pc(1)
	case segAll:
		return s.to.sub(s.from)
	case segFill:
		return s.to
	case segUpd:
		return poly{}
	case segLoop:
		var counts []poly
		for _, p := range s.paths {
			counts = append(counts, e.segsLen(st, p))
		}
		return e.loopSum(s.lp, counts)
	case segCarried:
		return ps("clen:" + s.id)
	}
	return ps("len?" + s.id)
}

// loopSum is the sum of a quantity over the iterations of a loop, given how
// much each kind of iteration adds.
func (e *absEngine) loopSum(lp *loopInfo, per []poly) poly {
	groups := map[string][]pathCond{}
	amount := map[string]poly{}
	var order []string
	for i, p := range per {
		k := p.String()
		if _, ok := groups[k]; !ok {
			order = append(order, k)
		}
		groups[k] = append(groups[k], lp.conds[i])
		amount[k] = p
	}
	sort.Strings(order)
	total := poly{}
	for _, k := range order {
		amt := amount[k]
		if len(amt) == 0 {
			continue
		}
		var n poly
		if len(order) == 1 && !lp.partial {
			n = lp.to.sub(lp.from)
		} else {
			n = ps("N{" + lp.from.String() + "|" + simplify(groups[k]) + "}@" + lp.to.String())
		}
		if amt.has(lp.idx) {
			// a sum over the index: left symbolic
			n = ps("S{" + lp.from.String() + "|" + k + "|" + simplify(groups[k]) + "}@" + lp.to.String())
			amt = pc(1)
		}
		total = total.add(n.mul(amt))
	}
	return total
}

// elem is the i-th element of a list.
func (e *absEngine) elem(l val, i poly, t types.Type) val {
	if x, ok := l.(*vList); ok {
		off := poly{}
		for _, s := range x.segs {
			d := i.sub(off)
			n := e.segLen(nil, s)
			c, isC := d.constant()
			nc, nIsC := n.constant()
			switch s.kind {
			case segOne:
				if isC && c == 0 {
					return s.v
				}
			case segAll:
				if len(x.segs) == 1 || isC && c == 0 {
					return e.elem(s.v, s.from.add(d), t)
				}
			case segLoop:
				if len(x.segs) == 1 && !s.lp.partial {
					same := len(s.paths) > 0 && len(s.paths[0]) == 1
					for _, p := range s.paths {
						if !same || len(p) != 1 || p[0].kind != segOne || p[0].key() != s.paths[0][0].key() {
							same = false
						}
					}
					if same {
						sb := &subst{e: e, ints: map[string]poly{s.lp.idx: s.lp.from.add(d)}}
						return sb.val(s.paths[0][0].v)
					}
				}
			}
			if isC && nIsC && c < nc {
				break
			}
			off = off.add(n)
			if !nIsC && !isC {
				// the element may lie in this segment
				break
			}
		}
		return mkSym("elem", t, l, vInt{i})
	}
	if s, ok := l.(*sym); ok && t == nil && s.typ != nil {
		if sl, ok := types.Unalias(s.typ).Underlying().(*types.Slice); ok {
			t = sl.Elem()
		}
	}
	return mkSym("elem", t, l, vInt{i})
}

func (e *absEngine) toSegs(st *state, v val) []seg {
	switch v := v.(type) {
	case *vList:
		return v.segs
	case vNil:
		return nil
	case *sym:
		return []seg{{kind: segAll, v: v, from: poly{}, to: e.length(st, v)}}
	}
	return []seg{{kind: segUnknown, id: fmt.Sprint(e.freshN())}}
}

func toDoc(v val) doc {
	switch v := v.(type) {
	case vStr:
		return v.d
	case vInt:
		if n, ok := v.p.constant(); ok {
			return lit(strconv.FormatInt(n, 10))
		}
		return doc{{kind: pNum, p: v.p}}
	case vBool:
		return lit(fmt.Sprint(bool(v)))
	case vPtr, nil:
		return hole(mkSym("?ptr", nil))
	}
	return hole(v)
}

// ---- facts

func (st *state) assume(atom string, truth bool) bool {
	if v, ok := st.atoms[atom]; ok {
		return v == truth
	}
	st.atoms[atom] = truth
	return true
}

func (e *absEngine) fork(atom string, st *state, kt, kf func(*state)) {
	if e.steps++; e.steps > e.limit {
		return
	}
	if v, ok := st.atoms[atom]; ok {
		if v {
			kt(st)
		} else {
			kf(st)
		}
		return
	}
	if e.assume != nil {
		if v, ok := e.assume(atom); ok {
			st.atoms[atom] = v
			if v {
				kt(st)
			} else {
				kf(st)
			}
			return
		}
	}
	b := st.clone()
	st.atoms[atom] = true
	kt(st)
	b.atoms[atom] = false
	kf(b)
}

// compare decides or forks on p <op> 0.
func (e *absEngine) compare(p poly, op token.Token, st *state, kt, kf func(*state)) {
	if c, ok := p.constant(); ok {
		var r bool
		switch op {
		case token.EQL:
			r = c == 0
		case token.NEQ:
			r = c != 0
		case token.LSS:
			r = c < 0
		case token.LEQ:
			r = c <= 0
		case token.GTR:
			r = c > 0
		case token.GEQ:
			r = c >= 0
		}
		if r {
			kt(st)
		} else {
			kf(st)
		}
		return
	}
	switch op {
	case token.NEQ:
		e.compare(p, token.EQL, st, kf, kt)
		return
	case token.GEQ:
		e.compare(p, token.LSS, st, kf, kt)
		return
	case token.LEQ:
		e.compare(p, token.GTR, st, kf, kt)
		return
	}
	// a sum of lengths is zero when every one is
	if len(p) > 1 && p[""] == 0 && nonNegSyms(p) && op != token.LSS {
		rest := poly{}
		for m, c := range p {
			v, known := st.atoms["zero:"+poly{m: 1}.String()]
			if !known {
				v, known = st.atoms["zero:"+poly{m: c}.String()]
			}
			if known && !v {
				if op == token.EQL {
					kf(st)
				} else {
					kt(st)
				}
				return
			}
			if !known {
				rest[m] = c
			}
		}
		if len(rest) < len(p) {
			e.compare(rest, op, st, kt, kf)
			return
		}
	}
	neg := poly{}.sub(p)
	// lengths and counts are never negative
	if len(p) <= 2 && nonNegSyms(p) {
		c := p[""]
		switch op {
		case token.EQL:
			if c > 0 {
				kf(st)
				return
			}
			if c == 0 {
				e.fork("zero:"+p.String(), st, kt, kf)
				return
			}
		case token.LSS:
			if c >= 0 {
				kf(st)
				return
			}
			if c == -1 && singleUnit(p) {
				e.fork("zero:"+p.add(pc(1)).String(), st, kt, kf)
				return
			}
		case token.GTR:
			if c > 0 {
				kt(st)
				return
			}
			if c == 0 {
				e.fork("zero:"+p.String(), st, kf, kt)
				return
			}
		}
	}
	if len(neg) <= 2 && nonNegSyms(neg) {
		c := neg[""]
		switch op {
		case token.EQL:
			if c > 0 {
				kf(st)
				return
			}
			if c == 0 {
				e.fork("zero:"+neg.String(), st, kt, kf)
				return
			}
		case token.GTR: // -neg > 0
			if c >= 0 {
				kf(st)
				return
			}
			if c == -1 && singleUnit(neg) {
				e.fork("zero:"+neg.add(pc(1)).String(), st, kt, kf)
				return
			}
		case token.LSS:
			if c > 0 {
				kt(st)
				return
			}
			if c == 0 {
				e.fork("zero:"+neg.String(), st, kf, kt)
				return
			}
		}
	}
	switch op {
	case token.EQL:
		a, b := p.String(), neg.String()
		if b < a {
			a = b
		}
		e.fork("eq0:"+a, st, kt, kf)
	case token.LSS:
		e.fork("lt0:"+p.String(), st, kt, kf)
	case token.GTR:
		e.fork("lt0:"+neg.String(), st, kt, kf)
	}
}

func singleUnit(p poly) bool {
	n := 0
	for m, c := range p {
		if m == "" {
			continue
		}
		if c != 1 {
			return false
		}
		n++
	}
	return n == 1
}

func nonNegSyms(p poly) bool {
	for m, c := range p {
		if m == "" {
			continue
		}
		if c < 0 {
			return false
		}
		for _, f := range strings.Split(m, "\x00") {
			if !(strings.HasPrefix(f, "len") || strings.HasPrefix(f, "N{") || strings.HasPrefix(f, "clen:") || strings.HasPrefix(f, "NC") || strings.HasPrefix(f, "NK") || strings.HasPrefix(f, "i$") || strings.HasPrefix(f, "c+:")) {
				return false
			}
		}
	}
	return true
}

// forkIs decides or forks on whether a symbolic value has a type.
func (e *absEngine) forkIs(v val, t types.Type, st *state, kt, kf func(*state)) {
	t = e.instance(t)
	s, ok := v.(*sym)
	if !ok {
		switch v := v.(type) {
		case *vGo:
			if v.is(t) {
				kt(st)
			} else {
				kf(st)
			}
			return
		case vBool:
			if e.conc {
				if isBoolType(t) {
					kt(st)
				} else {
					kf(st)
				}
				return
			}
		case *vStruct:
			if v.typ != nil && types.Identical(v.typ, t) {
				kt(st)
			} else {
				kf(st)
			}
			return
		case vStr:
			if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				kt(st)
			} else {
				kf(st)
			}
			return
		case vNil:
			kf(st)
			return
		}
		s = mkSym("val", nil, v)
	}
	if r, ok := e.decideIs(s, t, st); ok {
		if r {
			kt(st)
		} else {
			kf(st)
		}
		return
	}
	if e.steps++; e.steps > e.limit {
		return
	}
	b := st.clone()
	name := "is(" + s.k + "," + typeKey(t) + ")"
	st.is = append(st.is, isFact{s.k, t, true})
	st.atoms[name] = true
	kt(st)
	b.is = append(b.is, isFact{s.k, t, false})
	b.atoms[name] = false
	kf(b)
}

// instance replaces the type parameters of a type by what they stand for.
func (e *absEngine) instance(t types.Type) types.Type {
	switch u := types.Unalias(t).(type) {
	case *types.TypeParam:
		if r, ok := e.inst[u]; ok {
			return r
		}
	case *types.Pointer:
		if r := e.instance(u.Elem()); r != u.Elem() {
			return types.NewPointer(r)
		}
	}
	return t
}

// instantiate notes what the type parameters of a called function stand for.
func (e *absEngine) instantiate(c *ctx, x *ast.CallExpr, d *declSite) {
	if e.inst == nil || x == nil {
		return
	}
	f := ast.Unparen(x.Fun)
	if i, ok := f.(*ast.IndexExpr); ok {
		f = i.X
	}
	id, ok := f.(*ast.Ident)
	if !ok {
		return
	}
	in, ok := c.info().Instances[id]
	if !ok {
		return
	}
	o, ok := d.pkg.TypesInfo.Defs[d.fd.Name].(*types.Func)
	if !ok {
		return
	}
	ps := o.Type().(*types.Signature).TypeParams()
	for i := 0; i < ps.Len() && i < in.TypeArgs.Len(); i++ {
		e.inst[ps.At(i)] = in.TypeArgs.At(i)
	}
}

func typeKey(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func (e *absEngine) decideIs(s *sym, t types.Type, st *state) (bool, bool) {
	ti, isIface := t.Underlying().(*types.Interface)
	if s.typ != nil {
		if types.Identical(s.typ, t) && !types.IsInterface(s.typ) {
			return true, true
		}
		if isIface {
			if types.Implements(s.typ, ti) {
				return true, true
			}
			if p, ok := s.typ.(*types.Pointer); ok && types.Implements(p, ti) {
				return true, true
			}
		}
	}
	for _, f := range st.is {
		if f.k != s.k {
			continue
		}
		if types.Identical(f.t, t) {
			return f.yes, true
		}
		fi, fIface := f.t.Underlying().(*types.Interface)
		if f.yes && isIface && types.Implements(f.t, ti) {
			return true, true
		}
		if f.yes && !fIface && !isIface {
			return false, true
		}
		if !f.yes && fIface && types.Implements(t, fi) {
			return false, true
		}
	}
	return false, false
}

// ---- heap access

func (e *absEngine) load(st *state, p vPtr) val {
	v, ok := st.heap[p.l]
	if !ok {
		return e.unknown("unset", nil)
	}
	if p.path == "" {
		return v
	}
	for _, f := range strings.Split(p.path, ".") {
		v = e.field(st, v, f, nil)
	}
	return v
}

func (e *absEngine) store(st *state, p vPtr, v val) {
	if p.path == "" {
		st.heap[p.l] = v
		return
	}
	st.heap[p.l] = e.withField(st, st.heap[p.l], strings.Split(p.path, "."), v)
}

func (e *absEngine) withField(st *state, b val, path []string, v val) val {
	var s *vStruct
	switch b := b.(type) {
	case *vStruct:
		s = &vStruct{base: b.base, typ: b.typ, f: map[string]val{}}
		for k, x := range b.f {
			s.f[k] = x
		}
	case *sym:
		s = &vStruct{base: b, typ: b.typ, f: map[string]val{}}
	default:
		s = &vStruct{base: e.unknown("struct", nil), f: map[string]val{}}
	}
	if len(path) == 1 {
		s.f[path[0]] = v
	} else {
		s.f[path[0]] = e.withField(st, e.field(st, b, path[0], nil), path[1:], v)
	}
	return s
}

func fieldType(t types.Type, name string) types.Type {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if s, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == name {
				return s.Field(i).Type()
			}
		}
	}
	return nil
}

func (e *absEngine) field(st *state, v val, name string, t types.Type) val {
	switch x := v.(type) {
	case *vStruct:
		if f, ok := x.f[name]; ok {
			return f
		}
		if t == nil {
			t = fieldType(x.typ, name)
		}
		if x.base != nil {
			return e.field(st, x.base, name, t)
		}
		if t != nil {
			return e.zero(t)
		}
		return e.unknown("field "+name, nil)
	case vPtr:
		return e.field(st, e.load(st, x), name, t)
	case *sym:
		if t == nil {
			t = fieldType(x.typ, name)
		}
		return mkSym("."+name, t, x)
	}
	return e.unknown("field "+name, t)
}

func isBuilderType(t types.Type) bool {
	return namedIs(t, "strings", "Builder") || namedIs(t, "bytes", "Buffer") || namedIs(t, "bufio", "Writer")
}

func (e *absEngine) zero(t types.Type) val {
	if isBuilderType(t) {
		return vBuilder{}
	}
	if _, ok := types.Unalias(t).(*types.TypeParam); ok {
		return mkSym("zero", t)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return vStr{}
		case u.Info()&types.IsInteger != 0:
			return vInt{poly{}}
		case u.Info()&types.IsBoolean != 0:
			return vBool(false)
		}
	case *types.Slice:
		return &vList{typ: t}
	case *types.Struct:
		return &vStruct{f: map[string]val{}, typ: t}
	case *types.Array:
		return &vList{segs: []seg{{kind: segFill, to: pc(u.Len())}}, typ: t}
	case *types.Pointer, *types.Interface, *types.Map, *types.Signature, *types.Chan:
		return vNil{}
	}
	return mkSym("zero:"+typeKey(t), t)
}

func (e *absEngine) alloc(st *state, v val) vPtr {
	p := vPtr{l: loc{n: e.freshN()}}
	st.heap[p.l] = v
	return p
}

func (e *absEngine) lookup(c *ctx, st *state, o types.Object) (vPtr, bool) {
	for fr := c.fr; fr != nil; fr = fr.parent {
		l := loc{act: fr.act, obj: o}
		if _, ok := st.heap[l]; ok {
			return vPtr{l: l}, true
		}
	}
	return vPtr{}, false
}

func (e *absEngine) declare(c *ctx, st *state, o types.Object, v val) {
	if o == nil || o.Name() == "_" {
		return
	}
	st.heap[loc{act: c.fr.act, obj: o}] = v
}

func (c *ctx) info() *types.Info { return c.fr.pkg.TypesInfo }

func (c *ctx) typeOf(x ast.Expr) types.Type { return c.info().TypeOf(x) }
