package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
)

// This file holds the abstract values of the statement analysis: polynomials
// over symbolic lengths and loop indices, symbolic terms, documents (abstract
// text) and abstract lists.

// ---- polynomials

type poly map[string]int64 // monomial (symbols joined by \x00) -> coefficient

func pc(n int64) poly {
	if n == 0 {
		return poly{}
	}
	return poly{"": n}
}
func ps(s string) poly { return poly{s: 1} }

func (p poly) add(q poly) poly { return p.addk(q, 1) }
func (p poly) sub(q poly) poly { return p.addk(q, -1) }
func (p poly) addk(q poly, k int64) poly {
	r := poly{}
	for m, c := range p {
		r[m] = c
	}
	for m, c := range q {
		if r[m] += c * k; r[m] == 0 {
			delete(r, m)
		}
	}
	return r
}
func (p poly) mul(q poly) poly {
	r := poly{}
	for a, x := range p {
		for b, y := range q {
			var f []string
			if a != "" {
				f = append(f, strings.Split(a, "\x00")...)
			}
			if b != "" {
				f = append(f, strings.Split(b, "\x00")...)
			}
			sort.Strings(f)
			m := strings.Join(f, "\x00")
			if r[m] += x * y; r[m] == 0 {
				delete(r, m)
			}
		}
	}
	return r
}
func (p poly) constant() (int64, bool) {
	switch len(p) {
	case 0:
		return 0, true
	case 1:
		if c, ok := p[""]; ok {
			return c, true
		}
	}
	return 0, false
}
func (p poly) eq(q poly) bool { return len(p.sub(q)) == 0 }
func (p poly) has(sym string) bool {
	for m := range p {
		for _, f := range strings.Split(m, "\x00") {
			if f == sym {
				return true
			}
		}
	}
	return false
}
func (p poly) String() string {
	if len(p) == 0 {
		return "0"
	}
	var ks []string
	for m := range p {
		ks = append(ks, m)
	}
	sort.Strings(ks)
	var sb strings.Builder
	for i, m := range ks {
		c := p[m]
		if i > 0 && c > 0 {
			sb.WriteByte('+')
		}
		switch {
		case m == "":
			sb.WriteString(strconv.FormatInt(c, 10))
			continue
		case c == 1:
		case c == -1:
			sb.WriteByte('-')
		default:
			sb.WriteString(strconv.FormatInt(c, 10) + "*")
		}
		sb.WriteString(strings.ReplaceAll(m, "\x00", "*"))
	}
	return sb.String()
}

// ---- values

type val interface{ key() string }

type sym struct {
	op   string
	args []val
	typ  types.Type
	k    string
}

func mkSym(op string, typ types.Type, args ...val) *sym {
	s := &sym{op: op, args: args, typ: typ}
	var sb strings.Builder
	sb.WriteString(op)
	if len(args) > 0 {
		sb.WriteByte('(')
		for i, a := range args {
			if i > 0 {
				sb.WriteByte(',')
			}
			sb.WriteString(a.key())
		}
		sb.WriteByte(')')
	}
	s.k = sb.String()
	return s
}
func (s *sym) key() string { return s.k }

type vInt struct{ p poly }

func (v vInt) key() string { return v.p.String() }

type vBool bool

func (v vBool) key() string { return fmt.Sprint(bool(v)) }

type vNil struct{}

func (vNil) key() string { return "nil" }

type vStr struct{ d doc }

func (v vStr) key() string { return v.d.key() }

type vBuilder struct{ d doc }

func (v vBuilder) key() string { return "builder:" + v.d.key() }

type vList struct {
	segs []seg
	typ  types.Type
}

func (v *vList) key() string { return segsKey(v.segs) }

type vTuple []val

func (v vTuple) key() string {
	var n []string
	for _, x := range v {
		n = append(n, x.key())
	}
	return "(" + strings.Join(n, ";") + ")"
}

type loc struct {
	act int
	obj any
	n   int
}

type vPtr struct {
	l    loc
	path string // dotted field names
}

func (v vPtr) key() string {
	name := ""
	if o, ok := v.l.obj.(types.Object); ok {
		name = o.Name()
	}
	return fmt.Sprintf("&%d.%s%d.%s", v.l.act, name, v.l.n, v.path)
}

type vStruct struct {
	base *sym // fields not listed belong to this symbol; nil means zero
	f    map[string]val
	typ  types.Type
}

func (v *vStruct) key() string {
	var n []string
	for k, x := range v.f {
		n = append(n, k+":"+x.key())
	}
	sort.Strings(n)
	b := ""
	if v.base != nil {
		b = v.base.k
	}
	return "{" + b + "|" + strings.Join(n, ",") + "}"
}

// vMap is the content of a map: the entries in the order they were stored.
type vMap struct{ segs []seg }

func (v *vMap) key() string { return "map" + segsKey(v.segs) }

type vMapRef struct{ l loc }

func (v vMapRef) key() string { return fmt.Sprintf("mapref%d.%d", v.l.act, v.l.n) }

type vFunc struct {
	lit  *ast.FuncLit
	decl *declSite
	fr   *frame
	recv val
	name string
	pkg  *packages.Package
}

func (v *vFunc) key() string {
	if v.lit != nil {
		return fmt.Sprintf("func@%d", v.lit.Pos())
	}
	r := ""
	if v.recv != nil {
		r = v.recv.key()
	}
	return "func:" + v.name + "<" + r
}

type vEntry struct{ k, v val }

func (v vEntry) key() string { return v.k.key() + "=>" + v.v.key() }

// ---- loops

// loopInfo describes one loop: the range of its index and the ways one
// iteration can go.
type loopInfo struct {
	idx      string // index symbol inside the bodies
	from, to poly
	conds    []pathCond
	rangeKey string
	partial  bool // may stop early
}

type literal struct {
	atom string
	pos  bool
}

type pathCond []literal // sorted

func (c pathCond) key() string {
	var n []string
	for _, l := range c {
		if l.pos {
			n = append(n, l.atom)
		} else {
			n = append(n, "!"+l.atom)
		}
	}
	return strings.Join(n, "&")
}

// simplify reduces a disjunction of path conditions.
func simplify(cs []pathCond) string {
	set := map[string]pathCond{}
	for _, c := range cs {
		set[c.key()] = c
	}
	for changed := true; changed; {
		changed = false
		var ks []string
		for k := range set {
			ks = append(ks, k)
		}
		sort.Strings(ks)
	outer:
		for i := 0; i < len(ks); i++ {
			for j := i + 1; j < len(ks); j++ {
				a, b := set[ks[i]], set[ks[j]]
				if m, ok := mergeCond(a, b); ok {
					delete(set, ks[i])
					delete(set, ks[j])
					set[m.key()] = m
					changed = true
					break outer
				}
				if subsumes(a, b) {
					delete(set, ks[j])
					changed = true
					break outer
				}
				if subsumes(b, a) {
					delete(set, ks[i])
					changed = true
					break outer
				}
			}
		}
	}
	var ks []string
	for k := range set {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	if len(ks) == 1 && ks[0] == "" {
		return ""
	}
	return strings.Join(ks, " | ")
}

func subsumes(a, b pathCond) bool { // every literal of a is in b
	for _, l := range a {
		f := false
		for _, m := range b {
			if l == m {
				f = true
			}
		}
		if !f {
			return false
		}
	}
	return true
}

func mergeCond(a, b pathCond) (pathCond, bool) {
	if len(a) != len(b) {
		// (x & R) | (!x & R & S) with R a prefix set: drop x from the longer
		if len(a) > len(b) {
			a, b = b, a
		}
		return nil, false
	}
	diff := -1
	for i := range a {
		if a[i].atom != b[i].atom {
			return nil, false
		}
		if a[i].pos != b[i].pos {
			if diff >= 0 {
				return nil, false
			}
			diff = i
		}
	}
	if diff < 0 {
		return a, true
	}
	m := append(pathCond{}, a[:diff]...)
	return append(m, a[diff+1:]...), true
}

// ---- lists

type segKind int

const (
	segOne segKind = iota
	segAll
	segLoop
	segFill
	segCarried
	segUnknown
	segUpd // an element store into the list built so far
)

type seg struct {
	kind     segKind
	v        val  // one, all (the source list), upd (value)
	from, to poly // all; fill: to is the count; upd: from is the index
	lp       *loopInfo
	paths    [][]seg
	prefix   bool // the iterations before the current one
	id       string
}

func (s seg) key() string {
	switch s.kind {
	case segOne:
		return s.v.key()
	case segAll:
		return s.v.key() + "[" + s.from.String() + ":" + s.to.String() + "]"
	case segLoop:
		var n []string
		for i, p := range s.paths {
			n = append(n, s.lp.conds[i].key()+"->"+segsKey(p))
		}
		pre := "for"
		if s.prefix {
			pre = "before"
		}
		return pre + " " + s.lp.idx + "=" + s.lp.from.String() + ".." + s.lp.to.String() + "{" + strings.Join(n, ";") + "}"
	case segFill:
		return "zero*" + s.to.String()
	case segCarried:
		return "carried:" + s.id
	case segUpd:
		return "[" + s.from.String() + "]:=" + s.v.key()
	}
	return "unknown:" + s.id
}

func segsKey(s []seg) string {
	var n []string
	for _, x := range s {
		n = append(n, x.key())
	}
	return "[" + strings.Join(n, ", ") + "]"
}

// ---- documents

type pieceKind int

const (
	pLit pieceKind = iota
	pHole
	pNum
	pJoin
	pLoop
	pRep
	pCarried
	pOpaque
)

type piece struct {
	kind   pieceKind
	s      string // lit, join separator, carried id
	v      val    // hole
	p      poly   // num, rep count
	list   []seg  // join
	lp     *loopInfo
	paths  []doc
	prefix bool
	d      doc // rep, opaque
}

type doc []piece

func lit(s string) doc {
	if s == "" {
		return nil
	}
	return doc{{kind: pLit, s: s}}
}

func hole(v val) doc { return doc{{kind: pHole, v: v}} }

func (d doc) cat(e doc) doc {
	out := append(doc{}, d...)
	for _, p := range e {
		if n := len(out); n > 0 && p.kind == pLit && out[n-1].kind == pLit {
			out[n-1] = piece{kind: pLit, s: out[n-1].s + p.s}
			continue
		}
		out = append(out, p)
	}
	return out
}

func (p piece) key() string {
	switch p.kind {
	case pLit:
		return strconv.Quote(p.s)
	case pHole:
		return p.v.key()
	case pNum:
		return "#" + p.p.String()
	case pJoin:
		return "join(" + segsKey(p.list) + "," + strconv.Quote(p.s) + ")"
	case pLoop:
		var n []string
		for i, x := range p.paths {
			n = append(n, p.lp.conds[i].key()+"->"+x.key())
		}
		pre := "for"
		if p.prefix {
			pre = "before"
		}
		return pre + " " + p.lp.idx + "=" + p.lp.from.String() + ".." + p.lp.to.String() + "{" + strings.Join(n, ";") + "}"
	case pRep:
		return "rep(" + p.d.key() + "," + p.p.String() + ")"
	case pCarried:
		return "carried:" + p.s
	case pOpaque:
		return "opaque(" + p.d.key() + ")"
	}
	return "?"
}

func (d doc) key() string {
	if len(d) == 1 && d[0].kind == pHole {
		return d[0].key()
	}
	var n []string
	for _, p := range d {
		n = append(n, p.key())
	}
	return "«" + strings.Join(n, " ") + "»"
}

// constString returns the text when it is fully known.
func (d doc) constString() (string, bool) {
	switch len(d) {
	case 0:
		return "", true
	case 1:
		if d[0].kind == pLit {
			return d[0].s, true
		}
		if d[0].kind == pNum {
			if n, ok := d[0].p.constant(); ok {
				return strconv.FormatInt(n, 10), true
			}
		}
	}
	s := ""
	for _, p := range d {
		switch p.kind {
		case pLit:
			s += p.s
		case pNum:
			n, ok := p.p.constant()
			if !ok {
				return "", false
			}
			s += strconv.FormatInt(n, 10)
		default:
			return "", false
		}
	}
	return s, true
}

// dropFirst removes the first byte.
func (d doc) dropFirst() (doc, bool) {
	for i, p := range d {
		switch p.kind {
		case pLit:
			if p.s == "" {
				continue
			}
			return lit(p.s[1:]).cat(d[i+1:]), true
		case pRep:
			head, ok := p.d.dropFirst()
			if !ok {
				return nil, false
			}
			return head.cat(doc{{kind: pRep, d: p.d, p: p.p.sub(pc(1))}}).cat(d[i+1:]), true
		}
		return nil, false
	}
	return nil, false
}

// dropLast removes the last byte.
func (d doc) dropLast() (doc, bool) {
	if len(d) == 0 {
		return nil, false
	}
	p := d[len(d)-1]
	switch p.kind {
	case pLit:
		return append(doc{}, d[:len(d)-1]...).cat(lit(p.s[:len(p.s)-1])), true
	case pRep:
		tail, ok := p.d.dropLast()
		if !ok {
			return nil, false
		}
		return append(doc{}, d[:len(d)-1]...).cat(doc{{kind: pRep, d: p.d, p: p.p.sub(pc(1))}}).cat(tail), true
	}
	return nil, false
}

// ---- substitution

// subst replaces symbols in polynomials, carried lists and carried texts.
type subst struct {
	e     *absEngine
	ints  map[string]poly
	lists map[string][]seg
	docs  map[string]doc
	vals  map[string]val // carried values by symbol key
}

func (s *subst) poly(p poly) poly {
	r := poly{}
	for m, c := range p {
		t := pc(c)
		if m != "" {
			for _, f := range strings.Split(m, "\x00") {
				t = t.mul(s.symPoly(f))
			}
		}
		r = r.add(t)
	}
	return r
}

func (s *subst) symPoly(name string) poly {
	if q, ok := s.ints[name]; ok {
		return q
	}
	if v, ok := s.e.lenOf[name]; ok {
		n := s.val(v)
		if n.key() != v.key() {
			return s.e.length(nil, n)
		}
	}
	return ps(name)
}

func (s *subst) val(v val) val {
	switch v := v.(type) {
	case *sym:
		if r, ok := s.vals[v.k]; ok {
			return r
		}
		if len(v.args) == 0 {
			if q, ok := s.ints[v.op]; ok {
				return vInt{q}
			}
			return v
		}
		ch := false
		args := make([]val, len(v.args))
		for i, a := range v.args {
			args[i] = s.val(a)
			if args[i].key() != a.key() {
				ch = true
			}
		}
		if !ch {
			return v
		}
		return s.e.rebuild(v, args)
	case vInt:
		return vInt{s.poly(v.p)}
	case vStr:
		return vStr{s.doc(v.d)}
	case vBuilder:
		return vBuilder{s.doc(v.d)}
	case *vList:
		return &vList{s.segs(v.segs), v.typ}
	case *vMap:
		return &vMap{s.segs(v.segs)}
	case vEntry:
		return vEntry{s.val(v.k), s.val(v.v)}
	case vTuple:
		var out vTuple
		for _, x := range v {
			out = append(out, s.val(x))
		}
		return out
	case *vStruct:
		n := &vStruct{base: v.base, f: map[string]val{}, typ: v.typ}
		for k, x := range v.f {
			n.f[k] = s.val(x)
		}
		return n
	}
	return v
}

func (s *subst) cond(c pathCond) pathCond { return c }

func (s *subst) loop(lp *loopInfo) *loopInfo {
	f, t := s.poly(lp.from), s.poly(lp.to)
	if f.eq(lp.from) && t.eq(lp.to) {
		return lp
	}
	n := *lp
	n.from, n.to = f, t
	return &n
}

// without leaves the bound index of a loop alone.
func (s *subst) without(idx string) *subst {
	if _, ok := s.ints[idx]; !ok {
		return s
	}
	n := &subst{e: s.e, ints: map[string]poly{}, lists: s.lists, docs: s.docs, vals: s.vals}
	for k, v := range s.ints {
		if k != idx {
			n.ints[k] = v
		}
	}
	return n
}

func (s *subst) segs(in []seg) []seg {
	var out []seg
	for _, x := range in {
		switch x.kind {
		case segOne:
			x.v = s.val(x.v)
		case segAll:
			src := s.val(x.v)
			x.from, x.to = s.poly(x.from), s.poly(x.to)
			x.v = src
		case segFill:
			x.to = s.poly(x.to)
		case segUpd:
			x.from = s.poly(x.from)
			x.v = s.val(x.v)
		case segLoop:
			x.lp = s.loop(x.lp)
			in := s
			if !x.prefix {
				in = s.without(x.lp.idx)
			}
			ps := make([][]seg, len(x.paths))
			for i := range x.paths {
				ps[i] = in.segs(x.paths[i])
			}
			x.paths = ps
		case segCarried:
			if r, ok := s.lists[x.id]; ok {
				out = append(out, r...)
				continue
			}
		}
		out = append(out, x)
	}
	return out
}

func (s *subst) doc(in doc) doc {
	var out doc
	for _, p := range in {
		switch p.kind {
		case pHole:
			v := s.val(p.v)
			if str, ok := v.(vStr); ok {
				out = out.cat(str.d)
				continue
			}
			p.v = v
		case pNum:
			p.p = s.poly(p.p)
		case pJoin:
			p.list = s.segs(p.list)
		case pRep:
			p.d, p.p = s.doc(p.d), s.poly(p.p)
		case pOpaque:
			p.d = s.doc(p.d)
		case pLoop:
			p.lp = s.loop(p.lp)
			in := s
			if !p.prefix {
				in = s.without(p.lp.idx)
			}
			ps := make([]doc, len(p.paths))
			for i := range p.paths {
				ps[i] = in.doc(p.paths[i])
			}
			p.paths = ps
		case pCarried:
			if r, ok := s.docs[p.s]; ok {
				out = out.cat(r)
				continue
			}
		}
		out = out.cat(doc{p})
	}
	return out
}

// mentions says a value still contains a carried symbol.
func mentionsCarried(k string) bool {
	return strings.Contains(k, "carried:")
}
