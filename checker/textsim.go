package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// textsim is an abstract interpreter (over SSA) for functions that walk a text
// byte by byte. The text is not a string but every word of a small grammar: it is
// kept as a sequence of stretches between marks (a stretch is one character or
// one or more, with the set of bytes it may consist of) followed by the state the
// grammar is in. Reading a character which is not there yet splits the state over
// the transitions of the grammar. Positions are marks, and everything that is no
// longer referred to is forgotten, so that there are finitely many states.
//
// Two questions are put to it: does a function which splits list texts find, in
// every text of the grammar, exactly the elements in order; and does a function
// which quotes a text escape every character that has to be.

type byteSet [4]uint64

func bytesOf(s string) (b byteSet) {
	for i := 0; i < len(s); i++ {
		b[s[i]>>6] |= 1 << (s[i] & 63)
	}
	return
}

func allBytes() byteSet { return byteSet{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)} }

func (b byteSet) and(o byteSet) (r byteSet) {
	for i := range b {
		r[i] = b[i] & o[i]
	}
	return
}

func (b byteSet) or(o byteSet) (r byteSet) {
	for i := range b {
		r[i] = b[i] | o[i]
	}
	return
}

func (b byteSet) minus(o byteSet) (r byteSet) {
	for i := range b {
		r[i] = b[i] &^ o[i]
	}
	return
}

func (b byteSet) empty() bool { return b == byteSet{} }

func (b byteSet) has(c byte) bool { return b[c>>6]&(1<<(c&63)) != 0 }

func (b byteSet) only() (byte, bool) {
	n, at := 0, 0
	for i := 0; i < 256; i++ {
		if b.has(byte(i)) {
			n++
			at = i
		}
	}
	return byte(at), n == 1
}

// tArc is a transition of the grammar of the input.
type tArc struct {
	set     byteSet
	to      int
	content bool // a character of the current element
	esc     bool // an escape character: belongs to the element's text, not to its content
	start   bool // the element starts behind this character
	first   bool // this character is the first of an element (no quote before it)
	end     bool // the element ended before this character
	term    bool // terminates an element
}

type tGrammar struct {
	arcs  [][]tArc
	final []bool
	loop  int // the state of arbitrary text, or -1
}

// ---- values

type tv interface{ k() string }

type tInt struct {
	c, rel   *int64 // known value; value minus the number of terminators seen
	base, at int    // distance between two marks (at -1: none)
}

func p64(n int64) *int64 { return &n }

func (v tInt) k() string {
	s := "i"
	if v.c != nil {
		s += fmt.Sprintf("=%d", *v.c)
	}
	if v.rel != nil {
		s += fmt.Sprintf("K%+d", *v.rel)
	}
	if v.at >= 0 {
		s += fmt.Sprintf("@%d-%d", v.base, v.at)
	}
	return s
}

type tChar struct{ m int }

func (v tChar) k() string { return fmt.Sprintf("ch%d", v.m) }

type tWin struct{ lo, hi int } // a part of the input; hi may be endMark

func (v tWin) k() string { return fmt.Sprintf("win%d-%d", v.lo, v.hi) }

type tConst struct{ s string } // known text or bytes

func (v tConst) k() string { return fmt.Sprintf("%q", v.s) }

type tBuilt struct { // the content of element q up to a mark
	q  int64
	at int
}

func (v tBuilt) k() string { return fmt.Sprintf("built%d@%d", v.q, v.at) }

type tEls struct{ rel int64 } // list of the first elements: number minus terminators seen

func (v tEls) k() string { return fmt.Sprintf("els%+d", v.rel) }

type tOut struct { // text written so far
	phase int // 0 before the quote, 1 inside, 2 behind a backslash, 3 closed
	at    int
}

func (v tOut) k() string { return fmt.Sprintf("out%d@%d", v.phase, v.at) }

type tNil struct{}

func (tNil) k() string { return "nil" }

type tErr struct{}

func (tErr) k() string { return "err" }

type tBool struct{ b bool }

func (v tBool) k() string { return fmt.Sprint(v.b) }

type tTup struct{ v []tv }

func (v tTup) k() string {
	var s []string
	for _, x := range v.v {
		s = append(s, x.k())
	}
	return "(" + strings.Join(s, ",") + ")"
}

type tRef struct { // a memory cell, or a part of one
	cell   int
	lo, hi int // slice of an array cell (hi -1: the whole cell itself, a pointer)
}

func (v tRef) k() string { return fmt.Sprintf("ref%d[%d:%d]", v.cell, v.lo, v.hi) }

type tElemPtr struct{ cell, i int }

func (v tElemPtr) k() string { return fmt.Sprintf("ptr%d.%d", v.cell, v.i) }

type tCharPtr struct{ m int }

func (v tCharPtr) k() string { return fmt.Sprintf("chp%d", v.m) }

type tFn struct {
	fn   *ssa.Function
	free []tv
}

func (v tFn) k() string {
	s := "fn " + v.fn.String()
	for _, x := range v.free {
		s += "," + x.k()
	}
	return s
}

type tAny struct{}

func (tAny) k() string { return "?" }

// tCmp is a comparison that is decided where it is branched on.
type tCmp struct {
	op   token.Token
	x, y tv
}

func (v tCmp) k() string { return "(" + v.x.k() + v.op.String() + v.y.k() + ")" }

// ---- states

const endMark = 1 << 20

type tGap struct {
	one     bool
	set     byteSet
	content bool // all characters are content
	nocont  bool // no character is content
}

type tMark struct {
	id         int
	start, end bool // an element starts or ends here
	sq, eq     int64
	gap        tGap // the stretch behind it (last mark: none yet)
}

type tFrame struct {
	fn    *ssa.Function
	block *ssa.BasicBlock
	at    int
	prev  *ssa.BasicBlock
	env   map[ssa.Value]tv
	call  ssa.Value // in the caller's frame
}

type tState struct {
	frames []*tFrame
	heap   map[int][]tv
	marks  []tMark
	g      int
	ended  bool
	kzero  bool // no terminator seen yet
	nextM  int
	nextC  int
	trail  []string
}

func (s *tState) clone() *tState {
	n := *s
	n.frames = make([]*tFrame, len(s.frames))
	for i, f := range s.frames {
		g := *f
		g.env = make(map[ssa.Value]tv, len(f.env))
		for k, v := range f.env {
			g.env[k] = v
		}
		n.frames[i] = &g
	}
	n.heap = map[int][]tv{}
	for k, v := range s.heap {
		n.heap[k] = append([]tv{}, v...)
	}
	n.marks = append([]tMark{}, s.marks...)
	n.trail = append([]string{}, s.trail...)
	return &n
}

func (s *tState) top() *tFrame { return s.frames[len(s.frames)-1] }

func (s *tState) idx(id int) int {
	for i := range s.marks {
		if s.marks[i].id == id {
			return i
		}
	}
	return -1
}

func (s *tState) last() int { return s.marks[len(s.marks)-1].id }

// ---- the interpreter

type textSim struct {
	l        *Loaded
	g        *tGrammar
	writing  bool
	problems map[string]token.Pos
	returns  int
	seen     map[string]bool
	work     []*tState
	states   int
	live     map[*ssa.BasicBlock]map[ssa.Value]bool
	done     map[*ssa.Function]bool
	atReturn func(s *tState, v []tv) string
	fns      map[*ssa.Function]bool
	list     *listSpec
	loading  bool
	recv     bool // cell 0 is what the result is kept in
}

func newTextSim(l *Loaded, g *tGrammar, writing bool) *textSim {
	return &textSim{l: l, g: g, writing: writing, problems: map[string]token.Pos{}, seen: map[string]bool{},
		live: map[*ssa.BasicBlock]map[ssa.Value]bool{}, done: map[*ssa.Function]bool{}, fns: map[*ssa.Function]bool{}}
}

func (t *textSim) problem(pos token.Pos, f string, a ...any) {
	m := fmt.Sprintf(f, a...)
	if _, had := t.problems[m]; !had {
		t.problems[m] = pos
	}
}

// liveness of values at block entry
func (t *textSim) liveIn(fn *ssa.Function) {
	if t.done[fn] {
		return
	}
	t.done[fn] = true
	for _, b := range fn.Blocks {
		t.live[b] = map[ssa.Value]bool{}
	}
	var ops []*ssa.Value
	for ch := true; ch; {
		ch = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			l := t.liveOut(b)
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				in := b.Instrs[j]
				if v, ok := in.(ssa.Value); ok {
					delete(l, v)
				}
				if _, ok := in.(*ssa.Phi); ok {
					continue
				}
				ops = in.Operands(ops[:0])
				for _, o := range ops {
					if *o != nil {
						l[*o] = true
					}
				}
			}
			for v := range l {
				if !t.live[b][v] {
					t.live[b][v] = true
					ch = true
				}
			}
		}
	}
}

func (t *textSim) liveOut(b *ssa.BasicBlock) map[ssa.Value]bool {
	l := map[ssa.Value]bool{}
	for _, s := range b.Succs {
		for v := range t.live[s] {
			l[v] = true
		}
		for _, in := range s.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			for i, p := range s.Preds {
				if p == b {
					l[ph.Edges[i]] = true
				}
			}
		}
	}
	return l
}

// liveAt is what is needed from instruction i of a block on.
func (t *textSim) liveAt(b *ssa.BasicBlock, i int) map[ssa.Value]bool {
	l := t.liveOut(b)
	var ops []*ssa.Value
	for j := len(b.Instrs) - 1; j >= i; j-- {
		in := b.Instrs[j]
		if v, ok := in.(ssa.Value); ok {
			delete(l, v)
		}
		ops = in.Operands(ops[:0])
		for _, o := range ops {
			if *o != nil {
				l[*o] = true
			}
		}
	}
	return l
}

// run explores every path of fn on the given arguments.
func (t *textSim) run(fn *ssa.Function, args []tv, s *tState) {
	s.frames = []*tFrame{{fn: fn, env: map[ssa.Value]tv{}}}
	for i, p := range fn.Params {
		s.top().env[p] = args[i]
	}
	t.enterBlock(s, nil, fn.Blocks[0])
	for len(t.work) > 0 {
		n := t.work[len(t.work)-1]
		t.work = t.work[:len(t.work)-1]
		t.states++
		if t.states > 20000 {
			t.problem(fn.Pos(), "too many states")
			return
		}
		if len(t.problems) > 4 {
			return
		}
		had := len(t.problems)
		tr := append([]string{}, n.trail...)
		t.exec(n)
		if os.Getenv("TDBG") != "" && had == 0 && len(t.problems) > 0 {
			fmt.Println("FIRST", t.problems)
			for _, l := range tr {
				fmt.Println("    ", l)
			}
		}
	}
}

func (t *textSim) newState() *tState {
	return &tState{heap: map[int][]tv{}, marks: []tMark{{id: 0, gap: tGap{}}}, nextM: 1, kzero: true}
}

// enterBlock moves the top frame to a block: phis, then forget what is dead.
func (t *textSim) enterBlock(s *tState, from, to *ssa.BasicBlock) {
	f := s.top()
	t.liveIn(f.fn)
	t.fns[f.fn] = true
	var phis []tv
	n := 0
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		n++
		for i, p := range to.Preds {
			if p == from {
				phis = append(phis, t.val(s, ph.Edges[i]))
				break
			}
		}
	}
	for i := 0; i < n; i++ {
		f.env[to.Instrs[i].(*ssa.Phi)] = phis[i]
	}
	f.block, f.prev, f.at = to, from, n
	keep := t.live[to]
	for v := range f.env {
		if _, isPhi := v.(*ssa.Phi); isPhi && v.(*ssa.Phi).Block() == to {
			continue
		}
		if !keep[v] {
			delete(f.env, v)
		}
	}
	t.canon(s)
	key := t.key(s)
	if t.seen[key] {
		return
	}
	t.seen[key] = true
	if os.Getenv("TDBG") != "" {
		line := fmt.Sprintf("%s#%d %s:", f.fn.Name(), to.Index, to.Comment)
		for _, v := range t.ordered(f) {
			line += " " + v.Name() + "=" + f.env[v].k()
		}
		line += " /g" + fmt.Sprint(s.g, s.kzero)
		for _, m := range s.marks {
			line += fmt.Sprintf(" %d", m.id)
			if m.start {
				line += fmt.Sprintf("s%d", m.sq)
			}
			if m.end {
				line += fmt.Sprintf("e%d", m.eq)
			}
			if m.gap.one {
				line += "."
			} else {
				line += "*"
			}
		}
		s.trail = append(s.trail, line)
	}
	t.work = append(t.work, s)
}

// canon forgets marks and cells nothing refers to and renumbers the others.
func (t *textSim) canon(s *tState) {
	cells := map[int]bool{}
	var order []int
	used := map[int]bool{0: true}
	var visit func(v tv)
	visit = func(v tv) {
		cell := func(c int) {
			if !cells[c] {
				cells[c] = true
				order = append(order, c)
				for _, x := range s.heap[c] {
					visit(x)
				}
			}
		}
		switch v := v.(type) {
		case tInt:
			if v.at >= 0 {
				used[v.base], used[v.at] = true, true
			}
		case tChar:
			used[v.m] = true
			used[s.next(v.m)] = true
		case tWin:
			used[v.lo], used[v.hi] = true, true
		case tBuilt:
			used[v.at] = true
		case tOut:
			used[v.at] = true
		case tCharPtr:
			used[v.m] = true
			used[s.next(v.m)] = true
		case tRef:
			cell(v.cell)
		case tElemPtr:
			cell(v.cell)
		case tTup:
			for _, x := range v.v {
				visit(x)
			}
		case tFn:
			for _, x := range v.free {
				visit(x)
			}
		case tCmp:
			visit(v.x)
			visit(v.y)
		case tDyn:
			visit(v.v)
		default:
			ms, chs, c := marksOf(v)
			for _, m := range ms {
				used[m] = true
			}
			for _, m := range chs {
				used[m] = true
				used[s.next(m)] = true
			}
			if c >= 0 {
				cell(c)
			}
		}
	}
	if t.recv {
		visit(tRef{cell: 0, hi: -1})
	}
	for _, f := range s.frames {
		for _, v := range t.ordered(f) {
			visit(f.env[v])
		}
	}
	// the marks which stay: what is referred to, and what was only looked ahead at
	for i := len(s.marks) - 1; i >= 0 && !used[s.marks[i].id]; i-- {
		used[s.marks[i].id] = true
	}
	used[s.last()] = true
	var out []tMark
	for i, m := range s.marks {
		if used[m.id] || m.start && m.sq >= 0 || m.end && m.eq >= 0 {
			out = append(out, m)
			continue
		}
		if i == 0 {
			out = append(out, m)
			continue
		}
		p := &out[len(out)-1]
		g := m.gap
		p.gap = tGap{set: p.gap.set.or(g.set), content: p.gap.content && g.content, nocont: p.gap.nocont && g.nocont}
	}
	ren := map[int]int{endMark: endMark}
	for i := range out {
		ren[out[i].id] = i
		out[i].id = i
	}
	s.marks, s.nextM = out, len(out)
	cren := map[int]int{}
	for i, c := range order {
		cren[c] = i
	}
	heap := map[int][]tv{}
	for c, i := range cren {
		heap[i] = s.heap[c]
	}
	s.heap, s.nextC = heap, len(order)
	var sub func(v tv) tv
	sub = func(v tv) tv {
		switch v := v.(type) {
		case tInt:
			if v.at >= 0 {
				v.base, v.at = ren[v.base], ren[v.at]
			}
			return v
		case tChar:
			return tChar{ren[v.m]}
		case tWin:
			return tWin{ren[v.lo], ren[v.hi]}
		case tBuilt:
			return tBuilt{v.q, ren[v.at]}
		case tOut:
			return tOut{v.phase, ren[v.at]}
		case tCharPtr:
			return tCharPtr{ren[v.m]}
		case tRef:
			v.cell = cren[v.cell]
			return v
		case tElemPtr:
			v.cell = cren[v.cell]
			return v
		case tTup:
			n := make([]tv, len(v.v))
			for i, x := range v.v {
				n[i] = sub(x)
			}
			return tTup{n}
		case tFn:
			n := make([]tv, len(v.free))
			for i, x := range v.free {
				n[i] = sub(x)
			}
			return tFn{v.fn, n}
		case tCmp:
			return tCmp{v.op, sub(v.x), sub(v.y)}
		case tDyn:
			return tDyn{v.typ, sub(v.v)}
		}
		return remarked(v, func(m int) int { return ren[m] }, func(c int) int { return cren[c] })
	}
	for _, f := range s.frames {
		for v, x := range f.env {
			f.env[v] = sub(x)
		}
	}
	for _, xs := range s.heap {
		for i := range xs {
			xs[i] = sub(xs[i])
		}
	}
}

func (t *textSim) ordered(f *tFrame) []ssa.Value {
	var vs []ssa.Value
	for v := range f.env {
		vs = append(vs, v)
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i].Name() < vs[j].Name() })
	return vs
}

func (t *textSim) key(s *tState) string {
	var b strings.Builder
	val := func(v tv) {
		b.WriteString(v.k())
	}
	for _, f := range s.frames {
		fmt.Fprintf(&b, "|%p %d:", f.block, f.at)
		for _, v := range t.ordered(f) {
			b.WriteString(v.Name() + "=")
			val(f.env[v])
			b.WriteString(" ")
		}
	}
	for c := 0; c < s.nextC; c++ {
		fmt.Fprintf(&b, "#%d", c)
		for _, v := range s.heap[c] {
			val(v)
			b.WriteString(" ")
		}
	}
	fmt.Fprintf(&b, "/%d %v", s.g, s.ended)
	fmt.Fprint(&b, s.kzero)
	for _, m := range s.marks {
		fmt.Fprintf(&b, " %d%v%v", m.id, m.start, m.end)
		if m.start {
			fmt.Fprint(&b, m.sq)
		}
		if m.end {
			fmt.Fprint(&b, m.eq)
		}
		if m.id != s.last() {
			fmt.Fprintf(&b, "%v%v%v%x", m.gap.one, m.gap.content, m.gap.nocont, m.gap.set)
		}
	}
	return b.String()
}

// next is the mark behind a character.
func (s *tState) next(m int) int {
	i := s.idx(m)
	if i < 0 || i+1 >= len(s.marks) {
		return m
	}
	return s.marks[i+1].id
}

// look makes the character behind mark m known: kc runs for each way it can be,
// ke where the text ends there.
func (t *textSim) look(s *tState, m int, kc, ke func(*tState)) {
	if m == endMark {
		ke(s)
		return
	}
	i := s.idx(m)
	if i < 0 {
		return
	}
	if i+1 < len(s.marks) {
		if s.marks[i].gap.one {
			kc(s)
			return
		}
		// one character of a longer stretch: it is the whole of it, or the first
		a := s.clone()
		a.marks[i].gap.one = true
		kc(a)
		b := s.clone()
		g := b.marks[i].gap
		b.marks[i].gap.one = true
		nm := tMark{id: b.nextM, gap: g}
		b.nextM++
		b.marks = append(b.marks[:i+1], append([]tMark{nm}, b.marks[i+1:]...)...)
		kc(b)
		return
	}
	if s.ended {
		ke(s)
		return
	}
	if t.g.final[s.g] {
		e := s.clone()
		e.ended = true
		ke(e)
	}
	for _, a := range t.g.arcs[s.g] {
		n := s.clone()
		l := &n.marks[i]
		l.gap = tGap{one: true, set: a.set, content: a.content, nocont: !a.content}
		if a.first {
			l.start, l.sq = true, 0
		}
		if a.end {
			l.end, l.eq = true, 0
		}
		nm := tMark{id: n.nextM}
		n.nextM++
		if a.start {
			nm.start, nm.sq = true, 0
		}
		n.marks = append(n.marks, nm)
		n.g = a.to
		if a.term {
			n.bump()
		}
		kc(n)
	}
}

// bump counts a terminator.
func (s *tState) bump() {
	var sub func(v tv) tv
	sub = func(v tv) tv {
		switch v := v.(type) {
		case tInt:
			if v.rel != nil {
				if *v.rel < -1 {
					v.rel = nil
				} else {
					v.rel = p64(*v.rel - 1)
				}
			}
			return v
		case tBuilt:
			v.q--
			return v
		case tEls:
			if v.rel > -4 {
				v.rel--
			}
			return v
		case tTup:
			n := make([]tv, len(v.v))
			for i, x := range v.v {
				n[i] = sub(x)
			}
			return tTup{n}
		case tCmp:
			return tCmp{v.op, sub(v.x), sub(v.y)}
		}
		return v
	}
	for _, f := range s.frames {
		for v, x := range f.env {
			f.env[v] = sub(x)
		}
	}
	for _, xs := range s.heap {
		for i := range xs {
			xs[i] = sub(xs[i])
		}
	}
	for i := range s.marks {
		m := &s.marks[i]
		if m.start {
			m.sq--
			if m.sq < -2 {
				m.start, m.sq = false, 0
			}
		}
		if m.end {
			m.eq--
			if m.eq < -2 {
				m.end, m.eq = false, 0
			}
		}
	}
	s.kzero = false
}

// num is a known number.
func (s *tState) num(n int64) tInt {
	v := tInt{c: p64(n), at: -1}
	if n == 0 {
		v.at = 0 // also the beginning of the text
	}
	if s.kzero {
		v.rel = p64(n)
	}
	return v
}

func (t *textSim) val(s *tState, v ssa.Value) tv {
	if x, ok := s.top().env[v]; ok {
		return x
	}
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				return tConst{""}
			}
			return s.zero(v.Type())
		}
		switch v.Value.Kind() {
		case constant.Bool:
			return tBool{constant.BoolVal(v.Value)}
		case constant.String:
			return tConst{constant.StringVal(v.Value)}
		case constant.Int:
			if n, ok := constant.Int64Val(v.Value); ok {
				return s.num(n)
			}
		}
	case *ssa.Function:
		return tFn{fn: v}
	}
	return tAny{}
}

func (t *textSim) set(s *tState, v ssa.Value, x tv) { s.top().env[v] = x }

func (s *tState) zero(ty types.Type) tv {
	if tp, ok := types.Unalias(ty).(*types.TypeParam); ok {
		return s.num0(tp)
	}
	switch u := ty.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return s.num(0)
		case u.Info()&types.IsString != 0:
			return tConst{""}
		case u.Info()&types.IsBoolean != 0:
			return tBool{false}
		}
	case *types.Slice:
		if isBytes(u.Elem()) && s.kzero {
			return tEls{0}
		}
		return tNil{}
	case *types.Pointer, *types.Interface, *types.Map, *types.Signature:
		return tNil{}
	}
	return tAny{}
}

// num0 is the zero value of a type parameter that stands for numbers only.
func (s *tState) num0(tp *types.TypeParam) tv {
	u, ok := tp.Constraint().Underlying().(*types.Interface)
	if !ok {
		return tAny{}
	}
	for i := 0; i < u.NumEmbeddeds(); i++ {
		un, ok := u.EmbeddedType(i).(*types.Union)
		if !ok {
			return tAny{}
		}
		for j := 0; j < un.Len(); j++ {
			if _, ok := un.Term(j).Type().Underlying().(*types.Slice); ok {
				return tNil{}
			}
			b, ok := un.Term(j).Type().Underlying().(*types.Basic)
			if !ok || b.Info()&types.IsInteger == 0 {
				return tAny{}
			}
		}
		return s.num(0)
	}
	return tAny{}
}

// exec runs a state from its position to the next block entries.
func (t *textSim) exec(s *tState) {
	for {
		f := s.top()
		in := f.block.Instrs[f.at]
		f.at++
		switch in := in.(type) {
		case *ssa.If:
			t.branch(s, t.val(s, in.Cond), in.Pos(), func(s *tState, b bool) {
				f := s.top()
				to := f.block.Succs[1]
				if b {
					to = f.block.Succs[0]
				}
				t.enterBlock(s, f.block, to)
			})
			return
		case *ssa.Jump:
			t.enterBlock(s, f.block, f.block.Succs[0])
			return
		case *ssa.Panic:
			t.problem(in.Pos(), "it panics on such a text")
			return
		case *ssa.Return:
			var rs []tv
			for _, r := range in.Results {
				rs = append(rs, t.val(s, r))
			}
			if len(s.frames) == 1 {
				t.returns++
				if b := t.atReturn(s, rs); b != "" {
					t.problem(in.Pos(), "%s", b)
				}
				return
			}
			call := f.call
			s.frames = s.frames[:len(s.frames)-1]
			if call != nil {
				switch {
				case len(rs) == 1:
					t.set(s, call, rs[0])
				default:
					t.set(s, call, tTup{rs})
				}
			}
			continue
		case *ssa.Store:
			p, v := t.val(s, in.Addr), t.val(s, in.Val)
			switch p := p.(type) {
			case tRef:
				if p.hi < 0 {
					s.heap[p.cell] = []tv{v}
					continue
				}
			case tElemPtr:
				if p.i < len(s.heap[p.cell]) {
					s.heap[p.cell][p.i] = v
					continue
				}
			case tBufPtr:
				if t.bufStore(s, p, v, in.Pos()) {
					continue
				}
				return
			case tSlotPtr:
				if t.seqStore(s, p, v, in.Pos()) {
					return
				}
				continue
			case tDstPtr:
				if t.dstStore(s, p, v, in.Pos()) {
					continue
				}
				return
			}
			t.problem(in.Pos(), "a store that is not understood")
			return
		case *ssa.DebugRef:
			continue
		case *ssa.RunDefers:
			continue
		case *ssa.Call:
			if done := t.call(s, in); done {
				return
			}
			continue
		case ssa.Value:
			if done := t.value(s, in.(ssa.Value)); done {
				return
			}
			continue
		default:
			t.problem(in.Pos(), "%T is not understood", in)
			return
		}
	}
}

// resume continues a state behind its current instruction with a value for it.
func (t *textSim) resume(s *tState, v ssa.Value, x tv) {
	t.set(s, v, x)
	t.exec(s)
}

// value computes one instruction; true when the state has been taken over.
func (t *textSim) value(s *tState, in ssa.Value) bool {
	switch in := in.(type) {
	case *ssa.Alloc:
		c := s.nextC
		s.nextC++
		el := in.Type().(*types.Pointer).Elem()
		if a, ok := el.Underlying().(*types.Array); ok && a.Len() <= 64 {
			var vs []tv
			for i := int64(0); i < a.Len(); i++ {
				vs = append(vs, s.zero(a.Elem()))
			}
			s.heap[c] = vs
		} else if t.writing && isBuilderType(el) {
			s.heap[c] = []tv{tOut{0, 0}}
		} else {
			s.heap[c] = []tv{s.zero(el)}
		}
		t.set(s, in, tRef{cell: c, hi: -1})
	case *ssa.MakeSlice:
		n, ok := t.val(s, in.Len).(tInt)
		el := in.Type().Underlying().(*types.Slice).Elem()
		if isBytes(in.Type()) {
			if ok && n.c != nil && *n.c == 0 {
				if t.writing {
					t.set(s, in, tOut{0, 0})
				} else {
					t.set(s, in, tConst{""})
				}
				return false
			}
			if ok && n.c != nil && *n.c > 0 && *n.c <= 4 && t.list != nil && !t.loading {
				c := s.nextC
				s.nextC++
				for i := int64(0); i < *n.c; i++ {
					s.heap[c] = append(s.heap[c], s.num(0))
				}
				t.set(s, in, tRef{c, 0, int(*n.c)})
				return false
			}
			if n, ok := t.val(s, in.Len).(tLin); ok && t.list != nil && !t.loading && n == (tLin{2, endMark, 1}) {
				c := s.nextC
				s.nextC++
				s.heap[c] = []tv{tBuf{first: -1}}
				t.set(s, in, tBufRef{c})
				return false
			}
			if t.list != nil && t.list.kind == "bytes" && !t.loading {
				c := s.nextC
				s.nextC++
				s.heap[c] = []tv{tSeq{first: -1}}
				t.set(s, in, tSlot{c, -1})
				return false
			}
			if n, ok := t.val(s, in.Len).(tLenOf); ok && t.list != nil && t.list.kind == "bytes" && n.m >= 0 {
				c := s.nextC
				s.nextC++
				s.heap[c] = []tv{tDec{n.m, false}}
				t.set(s, in, tDecRef{c})
				return false
			}
			t.set(s, in, tAny{})
			return false
		}
		if t.list != nil && t.loading && ok && !types.Identical(el, types.Typ[types.String]) || t.list != nil && t.loading && ok && t.list.kind == "text" {
			// the list that is read
			full := n.at == endMark && n.base == 0
			if full || n.c != nil && *n.c == 0 {
				c := s.nextC
				s.nextC++
				s.heap[c] = []tv{tDst{0, !full}}
				t.set(s, in, tDstRef{c})
				return false
			}
		}
		if isBytes(el) {
			if ok && n.c != nil && *n.c == 0 {
				if s.kzero {
					t.set(s, in, tEls{0})
					return false
				}
			}
			t.set(s, in, tAny{})
			return false
		}
		if m, okc := t.exact(s, n); ok && okc && m <= 8 {
			c := s.nextC
			s.nextC++
			for i := int64(0); i < m; i++ {
				s.heap[c] = append(s.heap[c], s.zero(el))
			}
			t.set(s, in, tRef{c, 0, int(m)})
			return false
		}
		t.set(s, in, tAny{})
	case *ssa.UnOp:
		x := t.val(s, in.X)
		switch in.Op {
		case token.MUL:
			switch p := x.(type) {
			case tRef:
				if p.hi < 0 && len(s.heap[p.cell]) == 1 {
					t.set(s, in, s.heap[p.cell][0])
					return false
				}
			case tElemPtr:
				if p.i < len(s.heap[p.cell]) {
					t.set(s, in, s.heap[p.cell][p.i])
					return false
				}
			case tCharPtr:
				t.set(s, in, tChar{p.m})
				return false
			case tSpell:
				p.ptr = false
				t.set(s, in, p)
				return false
			}
			if g, ok := in.X.(*ssa.Global); ok {
				if v, ok := t.global(s, g); ok {
					t.set(s, in, v)
					return false
				}
			}
			t.set(s, in, tAny{})
		case token.XOR:
			if n, ok := x.(tInt); ok && n.c != nil {
				t.set(s, in, t.wrapped(in.Type(), tInt{c: p64(^*n.c), at: -1}))
				return false
			}
			t.set(s, in, tAny{})
		case token.NOT:
			t.set(s, in, tCmp{token.NOT, x, tNil{}})
		case token.SUB:
			if n, ok := x.(tInt); ok && n.c != nil {
				t.set(s, in, tInt{c: p64(-*n.c), at: -1})
				return false
			}
			t.set(s, in, tAny{})
		default:
			t.set(s, in, tAny{})
		}
	case *ssa.BinOp:
		x, y := t.val(s, in.X), t.val(s, in.Y)
		switch in.Op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			t.set(s, in, tCmp{in.Op, x, y})
		default:
			return t.arith(s, in, in.Op, x, y)
		}
	case *ssa.IndexAddr:
		return t.indexAddr(s, in, in.X, in.Index, true)
	case *ssa.Index:
		return t.indexAddr(s, in, in.X, in.Index, false)
	case *ssa.Lookup:
		return t.indexAddr(s, in, in.X, in.Index, false)
	case *ssa.Slice:
		return t.slice(s, in)
	case *ssa.Convert:
		t.set(s, in, t.convert(s, in, t.val(s, in.X)))
	case *ssa.ChangeType:
		t.set(s, in, t.val(s, in.X))
	case *ssa.MultiConvert:
		t.set(s, in, t.convert(s, in, t.val(s, in.X)))
	case *ssa.SliceToArrayPointer:
		t.set(s, in, tAny{})
	case *ssa.MakeInterface:
		t.set(s, in, t.val(s, in.X))
	case *ssa.ChangeInterface:
		t.set(s, in, t.val(s, in.X))
	case *ssa.MakeClosure:
		fv := tFn{fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			fv.free = append(fv.free, t.val(s, b))
		}
		t.set(s, in, fv)
	case *ssa.Extract:
		if tu, ok := t.val(s, in.Tuple).(tTup); ok && in.Index < len(tu.v) {
			t.set(s, in, tu.v[in.Index])
		} else {
			t.set(s, in, tAny{})
		}
	case *ssa.TypeAssert:
		d, ok := t.val(s, in.X).(tDyn)
		if _, isNil := t.val(s, in.X).(tNil); isNil && in.CommaOk {
			t.set(s, in, tTup{[]tv{tAny{}, tBool{false}}})
			return false
		}
		if !ok || types.IsInterface(in.AssertedType) {
			t.set(s, in, tAny{})
			return false
		}
		same := types.Identical(d.typ, in.AssertedType)
		switch {
		case in.CommaOk && same:
			t.set(s, in, tTup{[]tv{d.v, tBool{true}}})
		case in.CommaOk:
			t.set(s, in, tTup{[]tv{s.zero(in.AssertedType), tBool{false}}})
		case same:
			t.set(s, in, d.v)
		default:
			t.problem(in.Pos(), "it panics on such a value")
			return true
		}
	case *ssa.FieldAddr, *ssa.Field, *ssa.Range, *ssa.Next, *ssa.MakeMap:
		t.set(s, in.(ssa.Value), tAny{})
	default:
		t.set(s, in, tAny{})
	}
	return false
}

func (t *textSim) global(s *tState, g *ssa.Global) (tv, bool) {
	for _, f := range []*ssa.Function{g.Pkg.Func("init")} {
		if f == nil {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok && st.Addr == g {
					v := st.Val
					if cv, ok := v.(*ssa.Convert); ok {
						v = cv.X
					}
					if c, ok := v.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String {
						return tConst{constant.StringVal(c.Value)}, true
					}
				}
			}
		}
	}
	return nil, false
}

// exact is the value of a number when it is known.
func (t *textSim) exact(s *tState, n tInt) (int64, bool) {
	if n.c != nil {
		return *n.c, true
	}
	if n.at >= 0 && n.at != endMark {
		i, j := s.idx(n.base), s.idx(n.at)
		if i < 0 || j < i {
			return 0, false
		}
		for k := i; k < j; k++ {
			if !s.marks[k].gap.one {
				return 0, false
			}
		}
		return int64(j - i), true
	}
	return 0, false
}

func (t *textSim) arith(s *tState, in *ssa.BinOp, op token.Token, x, y tv) bool {
	if a, ok := x.(tConst); ok && op == token.ADD {
		if b, ok := y.(tConst); ok {
			t.set(s, in, tConst{a.s + b.s})
			return false
		}
	}
	if o, ok := x.(tOut); ok && op == token.ADD && t.writing {
		t.emit(s, o, y, in.Pos(), func(s *tState, o tOut) { t.resume(s, in, o) })
		return true
	}
	if t.list != nil && t.writing && op == token.ADD {
		if v, ok := t.concat(x, y); ok {
			t.set(s, in, v)
			return false
		}
	}
	if a, ok := x.(tConst); ok && op == token.ADD && t.writing {
		t.emit(s, tOut{0, 0}, a, in.Pos(), func(s *tState, o tOut) {
			t.emit(s, o, y, in.Pos(), func(s *tState, o tOut) { t.resume(s, in, o) })
		})
		return true
	}
	if t.list != nil {
		if _, ok := x.(tInt); ok {
			switch y.(type) {
			case tLin, tBits:
				if op == token.ADD || op == token.MUL {
					x, y = y, x
				}
			}
		}
		if a, ok := x.(tOutLen); ok && op == token.ADD {
			if b, ok := y.(tOutLen); ok && a.b == b.a {
				t.set(s, in, tOutLen{a.a, b.b})
				return false
			}
			if b, ok := y.(tOutLen); ok && b.b == a.a {
				t.set(s, in, tOutLen{b.a, a.b})
				return false
			}
		}
		if a, ok := y.(tOutLen); ok && op == token.ADD {
			if _, isInt := x.(tInt); isInt {
				x, y = a, x
			}
		}
		if n, ok := y.(tInt); ok && n.c != nil {
			switch v := x.(type) {
			case tOutLen:
				// further writes of known sizes
				d := *n.c
				for _, xs := range s.heap {
					q, ok := xs[0].(tSeq)
					if !ok || op != token.ADD {
						continue
					}
					for d > 0 && v.b > 0 && v.b-1 < len(q.sizes) {
						sz := int64(q.sizes[v.b-1] - '0')
						if sz == 0 || sz > d {
							break
						}
						d -= sz
						v.b--
					}
				}
				if d == 0 {
					t.set(s, in, v)
					return false
				}
			case tLin:
				switch op {
				case token.ADD:
					v.add += *n.c
				case token.SUB:
					v.add -= *n.c
				default:
					v.mul = 0
				}
				if v.mul != 0 && v.add >= -4 && v.add <= 4 {
					t.set(s, in, v)
					return false
				}
			case tBits:
				if op == token.MUL {
					t.set(s, in, tBits{v.n * *n.c})
					return false
				}
				if op == token.SHL && *n.c < 8 {
					t.set(s, in, tBits{v.n << *n.c})
					return false
				}
			}
		}
		if op == token.MUL || op == token.SHL {
			u, ok1 := x.(tInt)
			w, ok2 := y.(tInt)
			if ok1 && ok2 {
				if op == token.MUL && (u.c != nil && u.at < 0) {
					u, w = w, u
				}
				if u.at >= 0 && u.base == 0 && w.c != nil {
					m := *w.c
					if op == token.SHL {
						m = 1 << (m & 7)
					}
					t.set(s, in, tLin{m, u.at, 0})
					return false
				}
			}
		}
		if u, ok := x.(tInt); ok && op == token.ADD {
			// i + i
			if w, ok := y.(tInt); ok && u.c == nil && w.c == nil && u.at >= 0 && u.base == 0 && w.base == 0 && u.at == w.at {
				t.set(s, in, tLin{2, u.at, 0})
				return false
			}
		}
	}
	a, ok1 := x.(tInt)
	b, ok2 := y.(tInt)
	if !ok1 || !ok2 {
		t.set(s, in, tAny{})
		return false
	}
	if op == token.ADD && a.c != nil && b.c == nil {
		a, b = b, a
	}
	r := tInt{at: -1}
	ac, bc := a.c, b.c
	if ac == nil {
		if m, ok := t.exact(s, a); ok {
			ac = &m
		}
	}
	if ac != nil && bc != nil {
		switch op {
		case token.ADD:
			r.c = p64(*ac + *bc)
		case token.SUB:
			r.c = p64(*ac - *bc)
		case token.MUL:
			r.c = p64(*ac * *bc)
		case token.REM:
			if *bc != 0 {
				r.c = p64(*ac % *bc)
			}
		}
	}
	if op == token.REM && a.rel != nil && b.rel != nil && *a.rel == *b.rel {
		r.c = p64(0)
	}
	if bc != nil && a.rel != nil && (op == token.ADD || op == token.SUB) {
		d := *bc
		if op == token.SUB {
			d = -d
		}
		if n := *a.rel + d; n >= -4 && n <= 4 {
			r.rel = p64(n)
		}
	}
	if bc != nil && a.at >= 0 && (op == token.ADD || op == token.SUB) {
		d := *bc
		if op == token.SUB {
			d = -d
		}
		if d >= 0 && a.at != endMark && a.base == 0 && a.c != nil {
			// perhaps no position at all: nothing is read for it
			i, m := s.idx(a.at), a.at
			ok := i >= 0
			for ; d > 0 && ok; d-- {
				ok = i+1 < len(s.marks) && s.marks[i].gap.one
				i++
				if ok {
					m = s.marks[i].id
				}
			}
			if ok {
				r.base, r.at = 0, m
			}
		} else if d >= 0 && a.at != endMark {
			t.advance(s, a.at, d, func(s *tState, m int, ok bool) {
				r := r
				r.c, r.rel = nil, nil
				if ok {
					r.base, r.at = a.base, m
				}
				t.resume(s, in, r)
			})
			return true
		}
		if d < 0 && a.at != endMark {
			i := s.idx(a.at)
			ok := true
			for ; d < 0 && ok; d++ {
				i--
				ok = i >= 0 && s.marks[i].gap.one
			}
			if ok {
				r.base, r.at = a.base, s.marks[i].id
			}
		}
	}
	// what is counted further is only known relative to the text
	if r.c != nil && (*r.c > 3 || *r.c < -3) {
		r.c = nil
	}
	if r.c != nil && *r.c == 0 && r.at < 0 {
		r.base, r.at = 0, 0
	}
	t.set(s, in, t.wrapped(in.Type(), r))
	return false
}

// wrapped is a number as a value of an element type: below zero an unsigned one
// is the largest.
func (t *textSim) wrapped(ty types.Type, n tInt) tInt {
	if _, ok := types.Unalias(ty).(*types.TypeParam); !ok || t.list == nil || n.c == nil || *n.c >= 0 {
		return n
	}
	for _, e := range t.list.elems {
		if b, ok := e.Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
			n.c = p64(1 << 40)
			n.rel = nil
		}
	}
	return n
}

// advance walks d characters from a mark.
func (t *textSim) advance(s *tState, m int, d int64, k func(*tState, int, bool)) {
	if d == 0 {
		k(s, m, true)
		return
	}
	t.look(s, m, func(s *tState) { t.advance(s, s.next(m), d-1, k) }, func(s *tState) { k(s, 0, false) })
}

// place is the mark an index into a window denotes.
func (t *textSim) place(s *tState, w tWin, i tv, k func(*tState, int, bool)) {
	n, ok := i.(tInt)
	if !ok {
		k(s, 0, false)
		return
	}
	if n.at >= 0 && n.base == w.lo {
		k(s, n.at, true)
		return
	}
	if n.c != nil && *n.c >= 0 && *n.c <= 8 {
		t.advance(s, w.lo, *n.c, k)
		return
	}
	k(s, 0, false)
}

func (t *textSim) indexAddr(s *tState, in ssa.Value, x, ix ssa.Value, addr bool) bool {
	v, i := t.val(s, x), t.val(s, ix)
	switch v := v.(type) {
	case tBufRef:
		if addr {
			switch i.(type) {
			case tInt, tLin:
				t.set(s, in, tBufPtr{v.cell, i})
				return false
			}
		}
		t.problem(in.Pos(), "a character is written at a place that is not understood")
		return true
	case tSlot:
		if addr {
			return t.seqIndex(s, in, v, x, ix, i)
		}
	case tDstRef:
		d := s.heap[v.cell][0].(tDst)
		if addr && !d.app {
			t.place(s, tWin{0, endMark}, i, func(s *tState, m int, ok bool) {
				if !ok {
					t.problem(in.Pos(), "a value is kept at a place that is not understood")
					return
				}
				t.look(s, m, func(s *tState) {
					t.anchor(s, ix, i, 0, m)
					t.resume(s, in, tDstPtr{v.cell, m})
				}, func(s *tState) { t.problem(in.Pos(), "a value is kept behind the end of the list") })
			})
			return true
		}
		t.problem(in.Pos(), "a value is kept at a place that is not understood")
		return true
	case tChar:
		if n, ok := i.(tInt); ok && n.c != nil && *n.c >= 0 && t.list != nil && t.loading {
			t.set(s, in, tSpell{v.m, int(*n.c), addr})
			return false
		}
	case tWin:
		t.place(s, v, i, func(s *tState, m int, ok bool) {
			if !ok {
				t.problem(in.Pos(), "it reads a position that is not understood")
				return
			}
			if m == v.hi {
				t.problem(in.Pos(), "it reads behind the end of the text")
				return
			}
			t.look(s, m, func(s *tState) {
				t.anchor(s, ix, i, v.lo, m)
				if addr {
					t.resume(s, in, tCharPtr{m})
				} else {
					t.resume(s, in, tChar{m})
				}
			}, func(s *tState) { t.problem(in.Pos(), "it reads behind the end of the text") })
		})
		return true
	case tRef:
		n, ok := i.(tInt)
		if ok {
			if m, ok := t.exact(s, n); ok {
				at := int(m) + v.lo
				if at < 0 || at >= len(s.heap[v.cell]) || v.hi >= 0 && at >= v.hi {
					t.problem(in.Pos(), "an index is out of range on such a text")
					return true
				}
				if addr {
					t.set(s, in, tElemPtr{v.cell, at})
				} else {
					t.set(s, in, s.heap[v.cell][at])
				}
				return false
			}
		}
	case tConst:
		if n, ok := i.(tInt); ok && n.c != nil && *n.c >= 0 && int(*n.c) < len(v.s) && !addr {
			t.set(s, in, s.num(int64(v.s[*n.c])))
			return false
		}
	}
	t.set(s, in, tAny{})
	return false
}

// anchor remembers which element a small number denotes.
func (t *textSim) anchor(s *tState, ix ssa.Value, i tv, base, m int) {
	if t.list == nil {
		return
	}
	n, ok := i.(tInt)
	if _, has := s.top().env[ix]; has && ok && (n.at < 0 || n.base != base && n.c != nil) {
		n.base, n.at = base, m
		s.top().env[ix] = n
	}
}

func (t *textSim) slice(s *tState, in *ssa.Slice) bool {
	x := t.val(s, in.X)
	opt := func(v ssa.Value) tv {
		if v == nil {
			return nil
		}
		return t.val(s, v)
	}
	lo, hi := opt(in.Low), opt(in.High)
	switch v := x.(type) {
	case tOld, tDstRef:
		if h, ok := hi.(tInt); ok && h.c != nil && *h.c == 0 && (lo == nil) {
			c := s.nextC
			s.nextC++
			s.heap[c] = []tv{tDst{0, true}}
			t.set(s, in, tDstRef{c})
			return false
		}
		if lo == nil && hi == nil {
			t.set(s, in, x)
			return false
		}
	case tSlot:
		if lo == nil && hi == nil {
			t.set(s, in, x)
			return false
		}
		if at, ok := s.spot(v, lo); ok && hi == nil {
			t.set(s, in, tSlot{v.cell, at})
			return false
		}
	case tOut, tBufRef, tChar, tConv, tSrc:
		if lo == nil && hi == nil {
			t.set(s, in, x)
			return false
		}
		if e, ok := x.(tChar); ok && t.list != nil && t.loading && t.list.kind == "bytes" {
			l, okl := lo.(tInt)
			h, okh := hi.(tInt)
			if okl && l.c != nil && *l.c == int64(len(hexMark)) && hi == nil {
				t.set(s, in, tHexText{e.m})
				return false
			}
			if okh && h.c != nil && *h.c >= 0 && *h.c <= int64(len(hexMark)) && (lo == nil || okl && l.c != nil && *l.c == 0) {
				t.set(s, in, tConst{hexMark[:*h.c]})
				return false
			}
		}
	case tWin:
		fail := func() { t.problem(in.Pos(), "it cuts at a position that is not understood") }
		to := func(s *tState, a int) {
			if hi == nil {
				t.resume(s, in, tWin{a, v.hi})
				return
			}
			t.place(s, v, hi, func(s *tState, b int, ok bool) {
				if !ok {
					fail()
					return
				}
				t.resume(s, in, tWin{a, b})
			})
		}
		if lo == nil {
			to(s, v.lo)
			return true
		}
		t.place(s, v, lo, func(s *tState, a int, ok bool) {
			if !ok {
				fail()
				return
			}
			to(s, a)
		})
		return true
	case tRef:
		n := len(s.heap[v.cell])
		a, b := v.lo, v.hi
		if b < 0 {
			b = n
		}
		ok := true
		off := v.lo
		if l, isI := lo.(tInt); lo != nil {
			ok = ok && isI && l.c != nil
			if ok {
				a = off + int(*l.c)
			}
		}
		if h, isI := hi.(tInt); hi != nil {
			ok = ok && isI && h.c != nil
			if ok {
				b = off + int(*h.c)
			}
		}
		if ok && a >= 0 && a <= b && b <= n {
			// a fixed array of known bytes is a text
			if isBytes(in.Type()) {
				str := ""
				all := true
				for _, x := range s.heap[v.cell][a:b] {
					c, isI := x.(tInt)
					if !isI || c.c == nil {
						all = false
						break
					}
					str += string([]byte{byte(*c.c)})
				}
				if all {
					t.set(s, in, tConst{str})
					return false
				}
			}
			if sl, ok := in.Type().Underlying().(*types.Slice); ok && a == b && isBytes(sl.Elem()) && s.kzero {
				t.set(s, in, tEls{0})
				return false
			}
			t.set(s, in, tRef{v.cell, a, b})
			return false
		}
	case tConst:
		a, b, ok := 0, len(v.s), true
		if l, isI := lo.(tInt); lo != nil {
			if ok = isI && l.c != nil; ok {
				a = int(*l.c)
			}
		}
		if h, isI := hi.(tInt); hi != nil && ok {
			if ok = isI && h.c != nil; ok {
				b = int(*h.c)
			}
		}
		if ok && a >= 0 && a <= b && b <= len(v.s) {
			t.set(s, in, tConst{v.s[a:b]})
			return false
		}
	}
	t.set(s, in, tAny{})
	return false
}

// ---- branches

func (t *textSim) branch(s *tState, v tv, pos token.Pos, k func(*tState, bool)) {
	both := func() {
		k(s.clone(), true)
		k(s, false)
	}
	switch v := v.(type) {
	case tBool:
		k(s, v.b)
		return
	case tCmp:
		if v.op == token.NOT {
			t.branch(s, v.x, pos, func(s *tState, b bool) { k(s, !b) })
			return
		}
		t.compare(s, v, k, both)
		return
	case tChar:
		if t.list != nil && t.list.kind == "bool" && !t.loading {
			t.compare(s, tCmp{token.EQL, v, tInt{c: p64(1), at: -1}}, k, both)
			return
		}
	}
	both()
}

func cmpInts(op token.Token, a, b int64) bool {
	switch op {
	case token.EQL:
		return a == b
	case token.NEQ:
		return a != b
	case token.LSS:
		return a < b
	case token.LEQ:
		return a <= b
	case token.GTR:
		return a > b
	case token.GEQ:
		return a >= b
	}
	return false
}

func flipCmp(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GTR
	case token.LEQ:
		return token.GEQ
	case token.GTR:
		return token.LSS
	case token.GEQ:
		return token.LEQ
	}
	return op
}

func (t *textSim) compare(s *tState, v tCmp, k func(*tState, bool), both func()) {
	x, y, op := v.x, v.y, v.op
	if t.list != nil && t.listCompare(s, v, k, both) {
		return
	}
	if _, ok := y.(tChar); ok {
		if _, ok := x.(tInt); ok {
			x, y, op = y, x, flipCmp(op)
		}
	}
	// characters
	if _, isNil := y.(tNil); isNil && t.list != nil {
		if _, ok := x.(tChar); ok {
			k(s, op == token.NEQ)
			return
		}
	}
	if c, ok := x.(tChar); ok {
		if n, ok := y.(tInt); ok && n.c != nil {
			i := s.idx(c.m)
			yes, no := byteSet{}, byteSet{}
			for b := 0; b < 256; b++ {
				if !s.marks[i].gap.set.has(byte(b)) {
					continue
				}
				one := bytesOf(string([]byte{byte(b)}))
				if cmpInts(op, int64(b), *n.c) {
					yes = yes.or(one)
				} else {
					no = no.or(one)
				}
			}
			if !yes.empty() {
				a := s.clone()
				a.marks[i].gap.set = yes
				k(a, true)
			}
			if !no.empty() {
				s.marks[i].gap.set = no
				k(s, false)
			}
			return
		}
		both()
		return
	}
	isNil := func(v tv) (bool, bool) {
		if t.list != nil {
			if n, known := listNil(v); known {
				return n, known
			}
		}
		switch v := v.(type) {
		case tNil:
			return true, true
		case tErr, tWin, tBuilt, tOut, tRef, tFn, tConst:
			return false, true
		case tEls:
			return false, v.rel != 0 || !s.kzero
		}
		return false, false
	}
	if _, ok := y.(tNil); ok {
		if n, known := isNil(x); known {
			k(s, n == (op == token.EQL))
			return
		}
		both()
		return
	}
	if _, ok := x.(tNil); ok {
		t.compare(s, tCmp{flipCmp(op), y, x}, k, both)
		return
	}
	if a, ok := x.(tBool); ok {
		if b, ok := y.(tBool); ok {
			k(s, (a.b == b.b) == (op == token.EQL))
			return
		}
	}
	if a, ok := x.(tConst); ok {
		if b, ok := y.(tConst); ok {
			k(s, (a.s == b.s) == (op == token.EQL))
			return
		}
		x, y = y, x
	}
	if w, ok := x.(tWin); ok {
		if c, ok := y.(tConst); ok {
			t.equalText(s, w, c.s, func(s *tState, b bool) { k(s, b == (op == token.EQL)) })
			return
		}
	}
	a, ok1 := x.(tInt)
	b, ok2 := y.(tInt)
	if !ok1 || !ok2 {
		both()
		return
	}
	if a.c != nil && b.c != nil {
		k(s, cmpInts(op, *a.c, *b.c))
		return
	}
	if a.at >= 0 && b.at >= 0 && a.base == b.base {
		t.order(s, a.at, b.at, func(s *tState, d int64) { k(s, cmpInts(op, d, 0)) })
		return
	}
	if a.c != nil && b.at >= 0 {
		t.compare(s, tCmp{flipCmp(op), y, x}, k, both)
		return
	}
	if a.at >= 0 && b.c != nil {
		n := *b.c
		if n < 0 {
			k(s, cmpInts(op, 0, n))
			return
		}
		if op == token.LEQ || op == token.GTR {
			n++
			op = map[token.Token]token.Token{token.LEQ: token.LSS, token.GTR: token.GEQ}[op]
		}
		if n > 8 {
			both()
			return
		}
		t.atLeast(s, a.base, a.at, n, func(s *tState, short bool, m int) {
			if short {
				k(s, cmpInts(op, n-1, n))
				return
			}
			// the distance is n or more
			if op == token.LSS || op == token.GEQ {
				k(s, op == token.GEQ)
				return
			}
			if m == a.at {
				k(s, cmpInts(op, n, n))
				return
			}
			t.order(s, m, a.at, func(s *tState, d int64) { k(s, cmpInts(op, n-d, n)) })
		})
		return
	}
	if a.rel != nil && b.rel != nil {
		k(s, cmpInts(op, *a.rel, *b.rel))
		return
	}
	both()
}

// order compares two marks: k gets -1, 0 or 1.
func (t *textSim) order(s *tState, a, b int, k func(*tState, int64)) {
	switch {
	case a == b:
		k(s, 0)
	case b == endMark:
		if i := s.idx(a); i+1 < len(s.marks) {
			k(s, -1)
			return
		}
		t.look(s, a, func(s *tState) { k(s, -1) }, func(s *tState) { k(s, 0) })
	case a == endMark:
		t.order(s, b, a, func(s *tState, d int64) { k(s, -d) })
	case s.idx(a) < s.idx(b):
		k(s, -1)
	default:
		k(s, 1)
	}
}

// atLeast finds out whether there are n characters between two marks; m is the
// mark n characters behind base.
func (t *textSim) atLeast(s *tState, base, at int, n int64, k func(s *tState, short bool, m int)) {
	if n == 0 {
		k(s, false, base)
		return
	}
	if base == at {
		k(s, true, 0)
		return
	}
	t.look(s, base, func(s *tState) { t.atLeast(s, s.next(base), at, n-1, k) }, func(s *tState) { k(s, true, 0) })
}

// equalText compares a window with a known text.
func (t *textSim) equalText(s *tState, w tWin, str string, k func(*tState, bool)) {
	// quick: a character of the text cannot occur
	if i, j := s.idx(w.lo), s.idx(w.hi); w.hi != endMark && i >= 0 && j >= i {
		u := byteSet{}
		for _, m := range s.marks[i:j] {
			u = u.or(m.gap.set)
		}
		for n := 0; n < len(str); n++ {
			if !u.has(str[n]) {
				k(s, false)
				return
			}
		}
	}
	var rec func(s *tState, m int, n int)
	rec = func(s *tState, m, n int) {
		if n == len(str) {
			t.order(s, m, w.hi, func(s *tState, d int64) { k(s, d == 0) })
			return
		}
		if m == w.hi {
			k(s, false)
			return
		}
		t.look(s, m, func(s *tState) {
			t.compare(s, tCmp{token.EQL, tChar{m}, tInt{c: p64(int64(str[n])), at: -1}}, func(s *tState, b bool) {
				if !b {
					k(s, false)
					return
				}
				rec(s, s.next(m), n+1)
			}, func() {})
		}, func(s *tState) { k(s, false) })
	}
	rec(s, w.lo, 0)
}

// hasPrefix compares the beginning of a window with a known text.
func (t *textSim) hasPrefix(s *tState, w tWin, str string, k func(*tState, bool)) {
	var rec func(s *tState, m int, n int)
	rec = func(s *tState, m, n int) {
		if n == len(str) {
			k(s, true)
			return
		}
		if m == w.hi {
			k(s, false)
			return
		}
		t.look(s, m, func(s *tState) {
			t.compare(s, tCmp{token.EQL, tChar{m}, tInt{c: p64(int64(str[n])), at: -1}}, func(s *tState, b bool) {
				if !b {
					k(s, false)
					return
				}
				rec(s, s.next(m), n+1)
			}, func() {})
		}, func(s *tState) { k(s, false) })
	}
	rec(s, w.lo, 0)
}

// ---- calls

func (t *textSim) call(s *tState, in *ssa.Call) bool {
	com := in.Common()
	var args []tv
	for _, a := range com.Args {
		args = append(args, t.val(s, a))
	}
	if b, ok := com.Value.(*ssa.Builtin); ok {
		return t.builtin(s, in, b.Name(), args)
	}
	fn := com.StaticCallee()
	var free []tv
	if fn == nil && !com.IsInvoke() {
		if f, ok := t.val(s, com.Value).(tFn); ok {
			fn, free = f.fn, f.free
		}
	} else if fn != nil {
		if f, ok := t.val(s, com.Value).(tFn); ok {
			free = f.free
		}
	}
	if fn == nil {
		t.set(s, in, tAny{})
		return false
	}
	if o := fn.Origin(); o != nil && o.Blocks != nil {
		fn = o
	}
	name := ""
	if o, ok := fn.Object().(*types.Func); ok {
		name = o.FullName()
	}
	if done, handled := t.library(s, in, name, args); handled {
		return done
	}
	if fn.Pkg != nil && strings.HasPrefix(fn.Pkg.Pkg.Path(), modPath) && (t.inner(s, in, fn, args) || t.splitter(s, in, fn, args)) {
		return true
	}
	if fn.Blocks != nil && fn.Pkg != nil && strings.HasPrefix(fn.Pkg.Pkg.Path(), modPath) || fn.Blocks != nil && fn.Parent() != nil {
		if len(s.frames) > 6 {
			t.problem(in.Pos(), "calls nest too deeply")
			return true
		}
		// forget what the caller does not need any more
		f := s.top()
		keep := t.liveAt(f.block, f.at)
		nf := &tFrame{fn: fn, env: map[ssa.Value]tv{}, call: in}
		for i, p := range fn.Params {
			if i < len(args) {
				nf.env[p] = args[i]
			}
		}
		for i, p := range fn.FreeVars {
			if i < len(free) {
				nf.env[p] = free[i]
			}
		}
		for v := range f.env {
			if !keep[v] {
				delete(f.env, v)
			}
		}
		s.frames = append(s.frames, nf)
		t.enterBlock(s, nil, fn.Blocks[0])
		return true
	}
	t.set(s, in, tAny{})
	return false
}

func (t *textSim) library(s *tState, in *ssa.Call, name string, args []tv) (done, handled bool) {
	if t.list != nil {
		if done, handled = t.listCall(s, in, name, args); handled {
			return
		}
	}
	if done, handled = t.escapes(s, in, name, args); handled {
		return
	}
	switch name {
	case "fmt.Errorf", "errors.New":
		t.set(s, in, tErr{})
		return false, true
	case "bytes.HasPrefix", "strings.HasPrefix":
		w, ok1 := args[0].(tWin)
		c, ok2 := args[1].(tConst)
		if ok1 && ok2 {
			t.hasPrefix(s, w, c.s, func(s *tState, b bool) { t.resume(s, in, tBool{b}) })
			return true, true
		}
	case "bytes.Equal":
		w, ok1 := args[0].(tWin)
		c, ok2 := args[1].(tConst)
		if !ok1 {
			w, ok1 = args[1].(tWin)
			c, ok2 = args[0].(tConst)
		}
		if ok1 && ok2 {
			t.equalText(s, w, c.s, func(s *tState, b bool) { t.resume(s, in, tBool{b}) })
			return true, true
		}
	case "bytes.IndexAny", "strings.IndexAny", "bytes.IndexByte", "strings.IndexByte", "bytes.IndexRune", "strings.IndexRune", "bytes.ContainsAny", "strings.ContainsAny",
		"bytes.Index", "strings.Index":
		w, ok := args[0].(tWin)
		if !ok {
			break
		}
		var set byteSet
		switch a := args[1].(type) {
		case tConst:
			if strings.HasSuffix(name, ".Index") && len(a.s) != 1 {
				return false, false
			}
			set = bytesOf(a.s)
		case tInt:
			if a.c == nil || *a.c < 0 || *a.c > 127 {
				return false, false
			}
			set = bytesOf(string([]byte{byte(*a.c)}))
		default:
			return false, false
		}
		contains := strings.HasSuffix(name, "ContainsAny")
		t.index(s, w, set, func(s *tState, at int, found bool) {
			switch {
			case contains:
				t.resume(s, in, tBool{found})
			case found:
				t.resume(s, in, tInt{base: w.lo, at: at})
			default:
				t.resume(s, in, tInt{c: p64(-1), at: -1})
			}
		})
		return true, true
	case "bytes.Clone", "slices.Clone", "slices.Grow", "strings.Clone":
		t.set(s, in, args[0])
		return false, true
	}
	// builders
	if t.writing && len(args) > 0 {
		if r, ok := args[0].(tRef); ok && r.hi < 0 && len(s.heap[r.cell]) == 1 {
			if o, ok := s.heap[r.cell][0].(tOut); ok {
				switch lastName(name) {
				case "WriteByte", "WriteString", "Write", "WriteRune":
					t.emit(s, o, args[1], in.Pos(), func(s *tState, o tOut) {
						s.heap[r.cell] = []tv{o}
						t.resume(s, in, tAny{})
					})
					return true, true
				case "String", "Bytes":
					t.set(s, in, o)
					return false, true
				case "Grow":
					t.set(s, in, tAny{})
					return false, true
				}
			}
		}
	}
	return false, false
}

// index looks for the first character of a set in a window which reaches to the
// end of arbitrary text.
func (t *textSim) index(s *tState, w tWin, set byteSet, k func(s *tState, at int, found bool)) {
	i := s.idx(w.lo)
	if w.hi != endMark || i < 0 || i+1 != len(s.marks) || t.g.loop < 0 || s.g != t.g.loop {
		// walk what is known
		var rec func(s *tState, m int, n int)
		rec = func(s *tState, m, n int) {
			if n > 8 {
				t.problem(token.NoPos, "a search that is not understood")
				return
			}
			if m == w.hi {
				k(s, 0, false)
				return
			}
			t.look(s, m, func(s *tState) {
				j := s.idx(m)
				if in := s.marks[j].gap.set.and(set); !in.empty() {
					a := s.clone()
					a.marks[j].gap.set = in
					k(a, m, true)
				}
				if out := s.marks[j].gap.set.minus(set); !out.empty() {
					s.marks[j].gap.set = out
					rec(s, s.next(m), n+1)
				}
			}, func(s *tState) { k(s, 0, false) })
		}
		rec(s, w.lo, 0)
		return
	}
	arc := t.g.arcs[s.g][0]
	grow := func(s *tState, st byteSet, one bool) {
		l := &s.marks[len(s.marks)-1]
		l.gap = tGap{one: one, set: st, content: arc.content, nocont: !arc.content}
		s.marks = append(s.marks, tMark{id: s.nextM})
		s.nextM++
	}
	if s.ended {
		k(s, 0, false)
		return
	}
	for _, chunk := range []bool{false, true} {
		n := s.clone()
		if chunk {
			grow(n, arc.set.minus(set), false)
		}
		e := n.clone()
		e.ended = true
		k(e, 0, false)
		at := n.last()
		grow(n, arc.set.and(set), true)
		k(n, at, true)
	}
}

func (t *textSim) builtin(s *tState, in *ssa.Call, name string, args []tv) bool {
	switch name {
	case "len":
		switch v := args[0].(type) {
		case tWin:
			t.set(s, in, tInt{base: v.lo, at: v.hi})
		case tConst:
			t.set(s, in, s.num(int64(len(v.s))))
		case tNil:
			t.set(s, in, s.num(0))
		case tRef:
			n := v.hi - v.lo
			if v.hi < 0 {
				n = len(s.heap[v.cell])
			}
			t.set(s, in, s.num(int64(n)))
		case tEls:
			r := tInt{rel: p64(v.rel), at: -1}
			if s.kzero {
				r.c = p64(v.rel)
			}
			t.set(s, in, r)
		case tChar:
			t.set(s, in, tLenOf{v.m})
		case tHexText:
			t.set(s, in, tLenOf{v.m})
		case tSlot:
			t.set(s, in, tAny{})
		case tSrc:
			t.set(s, in, tLenOf{-2})
		case tOut:
			t.set(s, in, tLenOf{-1})
		case tBufRef:
			t.set(s, in, tLin{2, endMark, 1})
		case tBuilt:
			if i := s.idx(v.at); i >= 0 && s.marks[i].start {
				t.set(s, in, s.num(0))
				break
			}
			t.set(s, in, tInt{at: -1})
		default:
			t.set(s, in, tInt{at: -1})
		}
		return false
	case "copy":
		if d, ok := args[0].(tSlot); ok && t.list != nil && !t.loading {
			at, ok := s.spot(d, nil)
			size := 0
			if c, isC := args[1].(tConst); isC {
				size = len(c.s)
			}
			if !ok || at != 0 {
				t.problem(in.Pos(), "text is written at a place that is not understood")
				return true
			}
			t.put(s, d.cell, args[1], size, in.Pos(), func(s *tState) { t.resume(s, in, tOutLen{1, 0}) })
			return true
		}
		t.set(s, in, tAny{})
		return false
	case "cap":
		t.set(s, in, tInt{at: -1})
		return false
	case "append":
		return t.append(s, in, args)
	case "ssa:wrapnilchk":
		t.set(s, in, args[0])
		return false
	case "String", "Slice":
		// the whole of a text
		ok := false
		switch v := args[0].(type) {
		case tChar:
			ok = args[1] == tv(tLenOf{v.m})
		case tSrc:
			ok = args[1] == tv(tLenOf{-2})
		case tOut:
			ok = args[1] == tv(tLenOf{-1})
		case tBufRef:
			ok = args[1] == tv(tLin{2, endMark, 1})
		case tWin:
			n, isInt := args[1].(tInt)
			ok = isInt && n.at == v.hi && n.base == v.lo
		}
		if ok {
			t.set(s, in, args[0])
		} else {
			t.set(s, in, tAny{})
		}
		return false
	case "StringData", "SliceData":
		t.set(s, in, args[0])
		return false
	case "Sizeof":
		if t.list != nil {
			if _, ok := types.Unalias(in.Common().Args[0].Type()).(*types.TypeParam); ok {
				t.set(s, in, tBits{1})
				return false
			}
		}
		t.set(s, in, tAny{})
		return false
	case "min", "max":
		t.set(s, in, tInt{at: -1})
		return false
	}
	t.set(s, in, tAny{})
	return false
}

// items are the values of a variadic part.
func (t *textSim) items(s *tState, v tv) ([]tv, bool) {
	switch v := v.(type) {
	case tRef:
		hi := v.hi
		if hi < 0 {
			hi = len(s.heap[v.cell])
		}
		return s.heap[v.cell][v.lo:hi], true
	case tConst:
		var out []tv
		for i := 0; i < len(v.s); i++ {
			out = append(out, tInt{c: p64(int64(v.s[i])), at: -1})
		}
		return out, true
	}
	return nil, false
}

func (t *textSim) append(s *tState, in *ssa.Call, args []tv) bool {
	if isBytes(in.Type()) {
		if r, ok := args[0].(tRef); ok && t.writing {
			t.emitAny(s, r, args[1], in)
			return true
		}
		if t.writing {
			o, ok := args[0].(tOut)
			if !ok {
				switch c := args[0].(type) {
				case tNil:
					o, ok = tOut{0, 0}, true
				case tConst:
					if c.s == "" {
						o, ok = tOut{0, 0}, true
					} else {
						t.emit(s, tOut{0, 0}, c, in.Pos(), func(s *tState, o tOut) {
							t.emit(s, o, args[1], in.Pos(), func(s *tState, o tOut) { t.resume(s, in, o) })
						})
						return true
					}
				}
			}
			if ok {
				t.emit(s, o, args[1], in.Pos(), func(s *tState, o tOut) { t.resume(s, in, o) })
				return true
			}
			t.set(s, in, tAny{})
			return false
		}
		// reading: the content of an element is collected
		cur := args[0]
		if w, ok := args[1].(tWin); ok {
			if r, ok := t.collect(s, cur, w.lo, w.hi); ok {
				t.set(s, in, r)
				return false
			}
			t.set(s, in, tAny{})
			return false
		}
		its, ok := t.items(s, args[1])
		if !ok {
			t.set(s, in, tAny{})
			return false
		}
		for _, x := range its {
			ch, ok := x.(tChar)
			if !ok {
				t.set(s, in, tAny{})
				return false
			}
			r, ok := t.collect(s, cur, ch.m, s.next(ch.m))
			if !ok {
				t.set(s, in, tAny{})
				return false
			}
			cur = r
		}
		t.set(s, in, cur)
		return false
	}
	if t.list != nil && t.loading {
		d, ok := args[0].(tDstRef)
		if _, isNil := args[0].(tNil); isNil {
			ok = true
			d = tDstRef{s.nextC}
			s.heap[s.nextC] = []tv{tDst{0, true}}
			s.nextC++
		}
		its, ok2 := t.items(s, args[1])
		if !ok || !ok2 {
			t.set(s, in, tAny{})
			return false
		}
		x := s.heap[d.cell][0].(tDst)
		if !x.app {
			t.problem(in.Pos(), "values are added behind the end of the list")
			return true
		}
		for _, v := range its {
			if !t.isElement(s, v, x.at, in.Pos()) {
				return true
			}
			x.at = s.next(x.at)
		}
		c := s.nextC
		s.nextC++
		s.heap[c] = []tv{x}
		t.set(s, in, tDstRef{c})
		return false
	}
	// the list of elements
	var rel int64
	switch l := args[0].(type) {
	case tEls:
		rel = l.rel
	case tNil:
		if !s.kzero {
			// only before the first element is the list known to be complete
			t.problem(in.Pos(), "elements are lost")
			return true
		}
	default:
		t.set(s, in, tAny{})
		return false
	}
	its, ok := t.items(s, args[1])
	if !ok {
		t.set(s, in, tAny{})
		return false
	}
	for _, x := range its {
		if bad := t.whole(s, x, rel); bad != "" {
			t.problem(in.Pos(), "%s", bad)
			return true
		}
		rel++
	}
	t.set(s, in, tEls{rel})
	return false
}

// collect adds the characters between two marks to what was collected.
func (t *textSim) collect(s *tState, cur tv, lo, hi int) (tv, bool) {
	i, j := s.idx(lo), s.idx(hi)
	if i < 0 || j < i {
		return nil, false
	}
	for k := i; k < j; k++ {
		if !s.marks[k].gap.content {
			return nil, false
		}
	}
	from := -1
	q := int64(0)
	switch c := cur.(type) {
	case tBuilt:
		from, q = s.idx(c.at), c.q
	case tNil, tConst:
		if c, ok := c.(tConst); ok && c.s != "" {
			return nil, false
		}
		// from the start of the element
		for k := i; k >= 0; k-- {
			if s.marks[k].start {
				from, q = k, s.marks[k].sq
				break
			}
			if k > 0 && !s.marks[k-1].gap.nocont {
				return nil, false
			}
		}
	}
	if from < 0 || from > i {
		return nil, false
	}
	for k := from; k < i; k++ {
		if !s.marks[k].gap.nocont {
			return nil, false
		}
	}
	return tBuilt{q, hi}, true
}

// whole checks that a value is the complete next element.
func (t *textSim) whole(s *tState, v tv, rel int64) string {
	switch v := v.(type) {
	case tWin:
		i, j := s.idx(v.lo), s.idx(v.hi)
		if i >= 0 && j >= i && s.marks[i].start && s.marks[j].end && s.marks[i].sq == s.marks[j].eq {
			for k := i; k < j; k++ {
				if !s.marks[k].gap.content {
					return "an element keeps its escape characters"
				}
			}
			if s.marks[i].sq == rel {
				return ""
			}
			return "an element is kept in another place of the list"
		}
		return "what is kept for an element is not exactly its text"
	case tBuilt:
		i := s.idx(v.at)
		if i >= 0 && s.marks[i].end && s.marks[i].eq == v.q {
			if v.q == rel {
				return ""
			}
			return "an element is kept in another place of the list"
		}
		return "an element is kept before all of its characters were read"
	case tConst:
		if v.s == "" {
			for _, m := range s.marks {
				if m.start && m.end && m.sq == m.eq && m.sq == rel {
					return ""
				}
			}
			return "an element with text becomes empty"
		}
	case tNil:
		return "an element with text is taken for NULL"
	}
	return "what is kept for an element is not known to be its text"
}

// emit writes a value to the text of a quoting function.
func (t *textSim) emit(s *tState, o tOut, v tv, pos token.Pos, k func(*tState, tOut)) {
	if t.list != nil {
		t.emitList(s, o, v, pos, k)
		return
	}
	special := bytesOf("\"\\")
	if e, ok := v.(tEsc); ok {
		if o.phase != 1 || e.m != o.at || e.done != "\\\"" {
			t.problem(pos, "a quote or backslash of the text may be written without a backslash before it")
			return
		}
		if !s.ended {
			t.more(s)
		}
		k(s, tOut{1, s.last()})
		return
	}
	step := func(s *tState, o tOut, b byte, kk func(*tState, tOut)) {
		switch {
		case o.phase == 0 && b == '"':
			kk(s, tOut{1, o.at})
		case o.phase == 1 && b == '"':
			t.look(s, o.at, func(s *tState) {
				t.problem(pos, "the closing quote is written before the whole text, or a quote inside the text is written without a backslash")
			}, func(s *tState) { kk(s, tOut{3, o.at}) })
		case o.phase == 1 && b == '\\':
			kk(s, tOut{2, o.at})
		case o.phase == 1 || o.phase == 2:
			i := s.idx(o.at)
			if i >= 0 && i+1 < len(s.marks) && s.marks[i].gap.one {
				if c, ok := s.marks[i].gap.set.only(); ok && c == b {
					kk(s, tOut{1, s.next(o.at)})
					return
				}
			}
			t.problem(pos, "a character is written which is not the next one of the text")
		default:
			t.problem(pos, "text is written outside the quotes")
		}
	}
	switch v := v.(type) {
	case tConst:
		var rec func(s *tState, o tOut, i int)
		rec = func(s *tState, o tOut, i int) {
			if i == len(v.s) {
				k(s, o)
				return
			}
			step(s, o, v.s[i], func(s *tState, o tOut) { rec(s, o, i+1) })
		}
		rec(s, o, 0)
	case tInt:
		if v.c != nil {
			step(s, o, byte(*v.c), k)
			return
		}
		t.problem(pos, "a character is written which is not known")
	case tChar:
		i := s.idx(o.at)
		switch {
		case o.phase != 1 && o.phase != 2:
			t.problem(pos, "text is written outside the quotes")
		case v.m != o.at || i < 0 || i+1 >= len(s.marks):
			t.problem(pos, "characters of the text are left out, repeated or moved")
		case o.phase == 1 && !s.marks[i].gap.set.and(special).empty():
			t.problem(pos, "a quote or backslash of the text may be written without a backslash before it")
		default:
			k(s, tOut{1, s.next(v.m)})
		}
	case tWin:
		if o.phase != 1 {
			t.problem(pos, "text is written outside the quotes or behind a backslash")
			return
		}
		if v.lo != o.at {
			t.problem(pos, "characters of the text are left out, repeated or moved")
			return
		}
		if v.hi == endMark {
			// all that is left
			i := s.idx(v.lo)
			if i+1 == len(s.marks) && !s.ended {
				if t.g.final[s.g] {
					e := s.clone()
					e.ended = true
					k(e, o)
				}
				t.problem(pos, "a quote or backslash of the text may be written without a backslash before it")
				return
			}
			v.hi = s.last()
			if !s.ended {
				t.problem(pos, "a quote or backslash of the text may be written without a backslash before it")
				return
			}
		}
		i, j := s.idx(v.lo), s.idx(v.hi)
		if i < 0 || j < i {
			t.problem(pos, "a part of the text that is not understood is written")
			return
		}
		for n := i; n < j; n++ {
			if !s.marks[n].gap.set.and(special).empty() {
				t.problem(pos, "a quote or backslash of the text may be written without a backslash before it")
				return
			}
		}
		k(s, tOut{1, v.hi})
	case tRef:
		its, _ := t.items(s, v)
		var rec func(s *tState, o tOut, i int)
		rec = func(s *tState, o tOut, i int) {
			if i == len(its) {
				k(s, o)
				return
			}
			t.emit(s, o, its[i], pos, func(s *tState, o tOut) { rec(s, o, i+1) })
		}
		rec(s, o, 0)
	default:
		t.problem(pos, "something is written which is not a known part of the text")
	}
}

// ---- grammars

// listGrammar is the language of list texts: open, elements separated by delim,
// close. Quoted elements escape quotes and backslashes; others consist of chars.
func listGrammar(open, closing, delim byte, quoted bool, chars byteSet) *tGrammar {
	one := func(c byte) byteSet { return bytesOf(string([]byte{c})) }
	if quoted {
		q, b := one('"'), one('\\')
		return &tGrammar{loop: -1, final: []bool{false, false, false, false, false, false, true}, arcs: [][]tArc{
			{{set: one(open), to: 1}},
			{{set: one(closing), to: 6}, {set: q, to: 2, start: true}},
			{{set: allBytes().minus(q).minus(b), to: 2, content: true}, {set: b, to: 3, esc: true}, {set: q, to: 4, end: true}},
			{{set: q, to: 2, content: true}, {set: b, to: 2, content: true}},
			{{set: one(delim), to: 5, term: true}, {set: one(closing), to: 6, term: true}},
			{{set: q, to: 2, start: true}},
			{},
		}}
	}
	return &tGrammar{loop: -1, final: []bool{false, false, false, false, true}, arcs: [][]tArc{
		{{set: one(open), to: 1}},
		{{set: one(closing), to: 4}, {set: chars, to: 2, content: true, first: true}},
		{{set: chars, to: 2, content: true}, {set: one(delim), to: 3, end: true, term: true}, {set: one(closing), to: 4, end: true, term: true}},
		{{set: chars, to: 2, content: true, first: true}},
		{},
	}}
}

// anyText is the language of all texts.
func anyText() *tGrammar {
	return &tGrammar{loop: 0, final: []bool{true}, arcs: [][]tArc{{{set: allBytes(), to: 0, content: true}}}}
}

// more lets the rest of an arbitrary text pass.
func (t *textSim) more(s *tState) {
	arc := t.g.arcs[s.g][0]
	l := &s.marks[len(s.marks)-1]
	l.gap = tGap{set: arc.set, content: arc.content, nocont: !arc.content}
	s.marks = append(s.marks, tMark{id: s.nextM})
	s.nextM++
	s.ended = true
}
