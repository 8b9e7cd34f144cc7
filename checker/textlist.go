package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// listSpec describes the list whose writer or reader is followed. The list is
// the text of the simulation and its elements are the characters.
type listSpec struct {
	open, closing, delim byte
	kind                 string // int, float, bool, text, bytes
	elems                []types.Type
	spell                map[byte]string // bool: how 0 and 1 are written
	quote                func(fn *ssa.Function, args []tv) (map[string]token.Pos, bool)
	split                func(fn *ssa.Function, args []tv) map[string]token.Pos
	splits, quotes       int
}

type tEnc struct{ m int } // the spelling of element m

func (v tEnc) k() string { return fmt.Sprintf("enc%d", v.m) }

type tEsc struct { // the text of element m (or, writing a text, from mark m on) with escapes added
	m    int
	done string // which of `\"` are escaped
}

func (v tEsc) k() string { return fmt.Sprintf("esc%d%q", v.m, v.done) }

type tSrc struct{} // the text a list is read from

func (tSrc) k() string { return "src" }

type tDyn struct { // an interface value with a known dynamic type
	typ types.Type
	v   tv
}

func (v tDyn) k() string { return "dyn " + v.typ.String() + v.v.k() }

type tLenOf struct{ m int } // the length of element m's text; -1: of what is written; -2: of the source

func (v tLenOf) k() string { return fmt.Sprintf("len%d", v.m) }

type tBits struct{ n int64 } // n times the size of an element

func (v tBits) k() string { return fmt.Sprintf("bits%d", v.n) }

type tLin struct { // mul*position + add
	mul int64
	at  int
	add int64
}

func (v tLin) k() string { return fmt.Sprintf("lin%d*%d%+d", v.mul, v.at, v.add) }

// tBuf is a byte buffer of one delimiter and one character per element.
type tBuf struct {
	at     int
	d, v   bool
	first  int
	closed bool
}

func (v tBuf) k() string { return fmt.Sprintf("buf%d%v%v%d%v", v.at, v.d, v.v, v.first, v.closed) }

type tBufRef struct{ cell int }

func (v tBufRef) k() string { return fmt.Sprintf("bufref%d", v.cell) }

type tBufPtr struct {
	cell int
	p    tv
}

func (v tBufPtr) k() string { return fmt.Sprintf("bufptr%d.%s", v.cell, v.p.k()) }

// tDst is the list that is filled; the elements before at are in place.
type tDst struct {
	at  int
	app bool // grows with append
}

func (v tDst) k() string { return fmt.Sprintf("dst%d%v", v.at, v.app) }

type tDstRef struct{ cell int }

func (v tDstRef) k() string { return fmt.Sprintf("dstref%d", v.cell) }

type tDstPtr struct{ cell, at int }

func (v tDstPtr) k() string { return fmt.Sprintf("dstptr%d.%d", v.cell, v.at) }

type tOld struct{} // the list that was there before

func (tOld) k() string { return "old" }

type tConv struct{ m int } // the value element m's text stands for

func (v tConv) k() string { return fmt.Sprintf("conv%d", v.m) }

type tSpell struct { // a character of element m's text
	m, i int
	ptr  bool
}

func (v tSpell) k() string { return fmt.Sprintf("spell%d.%d%v", v.m, v.i, v.ptr) }

// marksOf are the marks and the cell a list value refers to.
func marksOf(v tv) (marks []int, chars []int, cell int) {
	switch v := v.(type) {
	case tEnc:
		return nil, []int{v.m}, -1
	case tEsc:
		return []int{v.m}, nil, -1
	case tLenOf:
		if v.m >= 0 {
			return nil, []int{v.m}, -1
		}
	case tLin:
		return []int{v.at}, nil, -1
	case tBuf:
		return []int{v.at}, nil, -1
	case tBufRef:
		return nil, nil, v.cell
	case tBufPtr:
		m, c, _ := marksOf(v.p)
		if n, ok := v.p.(tInt); ok && n.at >= 0 {
			m = append(m, n.base, n.at)
		}
		return m, c, v.cell
	case tDst:
		return []int{v.at}, nil, -1
	case tDstRef:
		return nil, nil, v.cell
	case tDstPtr:
		return []int{v.at}, nil, v.cell
	case tConv:
		return nil, []int{v.m}, -1
	case tSpell:
		return nil, []int{v.m}, -1
	case tSeq:
		return []int{v.o.at}, nil, -1
	case tSlot:
		return nil, nil, v.cell
	case tSlotPtr:
		return nil, nil, v.cell
	case tCat:
		var ms, cs []int
		for _, x := range v.v {
			m, c, _ := marksOf(x)
			ms, cs = append(ms, m...), append(cs, c...)
		}
		return ms, cs, -1
	case tHex:
		return nil, []int{v.m}, -1
	case tHexText:
		return nil, []int{v.m}, -1
	case tDec:
		return nil, []int{v.m}, -1
	case tDecRef:
		return nil, nil, v.cell
	}
	return nil, nil, -1
}

func remarked(v tv, mark func(int) int, cell func(int) int) tv {
	switch v := v.(type) {
	case tEnc:
		return tEnc{mark(v.m)}
	case tEsc:
		v.m = mark(v.m)
		return v
	case tLenOf:
		if v.m >= 0 {
			v.m = mark(v.m)
		}
		return v
	case tLin:
		v.at = mark(v.at)
		return v
	case tBuf:
		v.at = mark(v.at)
		return v
	case tBufRef:
		return tBufRef{cell(v.cell)}
	case tBufPtr:
		p := v.p
		if n, ok := p.(tInt); ok {
			if n.at >= 0 {
				n.base, n.at = mark(n.base), mark(n.at)
			}
			p = n
		} else {
			p = remarked(p, mark, cell)
		}
		return tBufPtr{cell(v.cell), p}
	case tDst:
		v.at = mark(v.at)
		return v
	case tDstRef:
		return tDstRef{cell(v.cell)}
	case tDstPtr:
		return tDstPtr{cell(v.cell), mark(v.at)}
	case tConv:
		return tConv{mark(v.m)}
	case tSpell:
		v.m = mark(v.m)
		return v
	case tSeq:
		v.o.at = mark(v.o.at)
		return v
	case tSlot:
		v.cell = cell(v.cell)
		return v
	case tSlotPtr:
		v.cell = cell(v.cell)
		return v
	case tCat:
		n := make([]tv, len(v.v))
		for i, x := range v.v {
			n[i] = remarked(x, mark, cell)
		}
		return tCat{n}
	case tHex:
		return tHex{mark(v.m)}
	case tHexText:
		return tHexText{mark(v.m)}
	case tDec:
		v.m = mark(v.m)
		return v
	case tDecRef:
		return tDecRef{cell(v.cell)}
	}
	return v
}

// ---- numbers

func intKind(b *types.Basic) (signed bool, bits int, ok bool) {
	switch b.Kind() {
	case types.Int, types.Int64:
		return true, 64, true
	case types.Int8:
		return true, 8, true
	case types.Int16:
		return true, 16, true
	case types.Int32:
		return true, 32, true
	case types.Uint, types.Uint64, types.Uintptr:
		return false, 64, true
	case types.Uint8:
		return false, 8, true
	case types.Uint16:
		return false, 16, true
	case types.Uint32:
		return false, 32, true
	}
	return false, 0, false
}

// holdsAll: every value of type e is a value of type d.
func holdsAll(e, d types.Type) bool {
	eb, ok1 := e.Underlying().(*types.Basic)
	db, ok2 := d.Underlying().(*types.Basic)
	if !ok1 || !ok2 {
		return types.Identical(e.Underlying(), d.Underlying())
	}
	if es, en, ok := intKind(eb); ok {
		ds, dn, ok := intKind(db)
		if !ok {
			return false
		}
		if es == ds {
			return dn >= en
		}
		return ds && dn > en
	}
	switch eb.Kind() {
	case types.Float32:
		return db.Kind() == types.Float32 || db.Kind() == types.Float64
	}
	return eb.Kind() == db.Kind()
}

// holdsText: the type holds text.
func holdsText(ty types.Type) bool {
	if isBytes(ty) {
		return true
	}
	b, ok := ty.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// convert is the conversion of an element, or of the value read for it.
func (t *textSim) convert(s *tState, in ssa.Value, x tv) tv {
	if t.list == nil {
		return x
	}
	switch x.(type) {
	case tChar, tConv:
	default:
		return x
	}
	if _, ok := types.Unalias(in.Type()).(*types.TypeParam); ok {
		return x
	}
	if _, isText := x.(tChar); t.loading && isText || t.list.kind == "text" || t.list.kind == "bytes" {
		if !holdsText(in.Type()) {
			return tAny{}
		}
		return x
	}
	for _, e := range t.list.elems {
		if !holdsAll(e, in.Type()) {
			t.problem(in.Pos(), "an element is converted to %s, which cannot hold every %s", in.Type(), e)
			return tAny{}
		}
	}
	return x
}

// listCall handles the library functions that spell or read elements.
func (t *textSim) listCall(s *tState, in *ssa.Call, name string, args []tv) (done, handled bool) {
	num := func(i int) (int64, bool) {
		if i >= len(args) {
			return 0, false
		}
		n, ok := args[i].(tInt)
		if !ok || n.c == nil {
			return 0, false
		}
		return *n.c, true
	}
	// known is a constant argument: numbers above 3 are not kept in states
	known := func(i int) (int64, bool) {
		if n, ok := num(i); ok {
			return n, true
		}
		return 0, false
	}
	if done, handled = t.hexCall(s, in, name, args); handled {
		return
	}
	els := t.list.elems
	if strings.HasPrefix(name, "strconv.Append") || strings.HasPrefix(name, "strconv.Format") || name == "strconv.Itoa" {
		i := 0
		app := strings.HasPrefix(name, "strconv.Append")
		if app {
			i = 1
		}
		c, ok := args[i].(tChar)
		if !ok || t.loading {
			return false, false
		}
		bad := ""
		switch lastName(name) {
		case "AppendInt", "FormatInt", "AppendUint", "FormatUint":
			if b, ok := known(i + 1); !ok || b != 10 {
				bad = "an element is not written in base 10"
			}
			if t.list.kind != "int" {
				bad = "an element is written with " + name
			}
		case "Itoa":
			if t.list.kind != "int" {
				bad = "an element is written with " + name
			}
		case "AppendFloat", "FormatFloat":
			f, _ := known(i + 1)
			p, okp := known(i + 2)
			w, _ := known(i + 3)
			switch {
			case t.list.kind != "float":
				bad = "an element is written with " + name
			case !strings.ContainsRune("fgeGE", rune(f)):
				bad = "an element is not written in decimal"
			case !okp || p != -1:
				bad = "an element is not written with all of its digits"
			}
			for _, e := range els {
				if b, ok := e.Underlying().(*types.Basic); ok && bad == "" && (b.Kind() == types.Float64 && w != 64 || w != 32 && w != 64) {
					bad = "an element is not written with all of its digits"
				}
			}
		default:
			return false, false
		}
		if bad != "" {
			t.problem(in.Pos(), "%s", bad)
			return true, true
		}
		if app {
			t.emitAny(s, args[0], tEnc{c.m}, in)
			return true, true
		}
		t.set(s, in, tEnc{c.m})
		return false, true
	}
	if t.loading {
		c, isElem := tChar{}, false
		if len(args) > 0 {
			c, isElem = args[0].(tChar)
		}
		if isElem && strings.HasPrefix(name, "strconv.") {
			bad := ""
			switch name {
			case "strconv.ParseInt", "strconv.ParseUint":
				if b, ok := known(1); !ok || b != 10 && b != 0 {
					bad = "an element is not read in base 10"
				}
				if t.list.kind != "int" {
					bad = "an element is read with " + name
				}
				uns := name == "strconv.ParseUint"
				for _, e := range els {
					b, ok := e.Underlying().(*types.Basic)
					if !ok {
						continue
					}
					signed, w, ok := intKind(b)
					if !ok || bad != "" {
						continue
					}
					have := 0
					if n, ok := known(2); ok {
						have = int(n)
						if have == 0 {
							have = 64
						}
					} else if n, ok := args[2].(tBits); ok && n.n == 8 {
						have = w
					}
					if have < w || signed && uns || !signed && !uns && have == w {
						bad = fmt.Sprintf("%s with %s cannot read every %s", name, args[2].k(), e)
					}
				}
			case "strconv.Atoi":
				for _, e := range els {
					if !holdsAll(e, types.Typ[types.Int]) {
						bad = fmt.Sprintf("%s cannot read every %s", name, e)
					}
				}
			case "strconv.ParseFloat":
				n, ok := known(1)
				if b, isB := args[1].(tBits); isB && b.n == 8 {
					ok, n = true, 64
				}
				if t.list.kind != "float" {
					bad = "an element is read with " + name
				} else if !ok {
					bad = "an element is read with a precision that is not known"
				}
				for _, e := range els {
					if b, ok := e.Underlying().(*types.Basic); ok && b.Kind() == types.Float64 && n != 64 && bad == "" {
						bad = "an element is not read with all of its digits"
					}
				}
			case "strconv.ParseBool":
				if t.list.kind != "bool" {
					bad = "an element is read with " + name
				}
				want := map[string]byte{"1": 1, "t": 1, "T": 1, "true": 1, "TRUE": 1, "True": 1, "0": 0, "f": 0, "F": 0, "false": 0, "FALSE": 0, "False": 0}
				for v, sp := range t.list.spell {
					if w, ok := want[sp]; !ok || w != v {
						bad = "an element is not read as it was written"
					}
				}
			case "strconv.Unquote":
				bad = "an element is unquoted twice"
			default:
				return false, false
			}
			if bad != "" {
				t.problem(in.Pos(), "%s", bad)
				return true, true
			}
			t.set(s, in, tTup{[]tv{tConv{c.m}, tNil{}}})
			return false, true
		}
		return false, false
	}
	return false, false
}

// escapes follows strings.ReplaceAll chains that escape a text.
func (t *textSim) escapes(s *tState, in *ssa.Call, name string, args []tv) (done, handled bool) {
	if name != "strings.ReplaceAll" && name != "bytes.ReplaceAll" && name != "strings.Replace" && name != "bytes.Replace" {
		return false, false
	}
	if strings.HasSuffix(name, ".Replace") {
		if n, ok := args[3].(tInt); !ok || n.c == nil || *n.c >= 0 {
			return false, false
		}
	}
	var e tEsc
	switch v := args[0].(type) {
	case tChar:
		if t.list == nil || t.loading {
			return false, false
		}
		e.m = v.m
	case tWin:
		if v.hi != endMark || !t.writing || t.list != nil {
			return false, false
		}
		e.m = v.lo
	case tEsc:
		e = v
	default:
		return false, false
	}
	from, ok1 := args[1].(tConst)
	to, ok2 := args[2].(tConst)
	if !ok1 || !ok2 || len(from.s) != 1 || to.s != `\`+from.s || strings.Contains(e.done, from.s) {
		return false, false
	}
	switch {
	case from.s == `\` && e.done == "", from.s == `"`:
		if from.s == `"` && e.done == "" {
			// backslashes must come first
			t.problem(in.Pos(), "quotes are escaped before backslashes, so that their backslashes are escaped again or the text's are not")
			return true, true
		}
		e.done += from.s
		t.set(s, in, e)
		return false, true
	}
	return false, false
}

// emitAny writes a value to a text under construction and gives the result to in.
func (t *textSim) emitAny(s *tState, to, v tv, in ssa.Value) {
	k := func(s *tState, o tOut) { t.resume(s, in, o) }
	t.openOut(s, to, in.Pos(), func(s *tState, o tOut) { t.emit(s, o, v, in.Pos(), k) })
}

// openOut is a value as a text under construction.
func (t *textSim) openOut(s *tState, v tv, pos token.Pos, k func(*tState, tOut)) {
	switch v := v.(type) {
	case tOut:
		k(s, v)
	case tNil:
		k(s, tOut{})
	case tConst:
		t.emit(s, tOut{}, v, pos, k)
	case tRef:
		t.emit(s, tOut{}, v, pos, k)
	default:
		t.problem(pos, "text is added to something which is not understood")
	}
}

// emitList writes a value to the text of a list.
func (t *textSim) emitList(s *tState, o tOut, v tv, pos token.Pos, k func(*tState, tOut)) {
	ls := t.list
	closed := func(s *tState, o tOut) {
		t.look(s, o.at, func(s *tState) { t.problem(pos, "the list is closed before all elements are written") },
			func(s *tState) { k(s, tOut{3, o.at}) })
	}
	elem := func(m int) {
		switch {
		case o.phase == 2:
			t.problem(pos, "an element is written without a delimiter before it")
		case o.phase != 1 && o.phase != 4:
			t.problem(pos, "an element is written outside the brackets")
		case m != o.at:
			t.problem(pos, "an element is left out, repeated or moved")
		default:
			t.look(s, m, func(s *tState) { k(s, tOut{2, s.next(m)}) }, func(s *tState) {})
		}
	}
	spelled := func(str string) bool {
		i := s.idx(o.at)
		if ls.kind != "bool" || o.phase != 1 && o.phase != 4 || i < 0 || i+1 >= len(s.marks) || !s.marks[i].gap.one {
			return false
		}
		c, ok := s.marks[i].gap.set.only()
		if !ok {
			return false
		}
		if had, ok := ls.spell[c]; ok && had != str {
			t.problem(pos, "an element is written as %q and as %q", had, str)
			return true
		}
		ls.spell[c] = str
		elem(o.at)
		return true
	}
	switch v := v.(type) {
	case tOut:
		if o.phase != 0 {
			t.problem(pos, "a list is written inside a list")
			return
		}
		k(s, v)
	case tEnc:
		elem(v.m)
	case tEsc:
		if o.phase != 5 || v.m != o.at || len(v.done) != 2 || v.done != `\"` {
			t.problem(pos, "a quote or backslash of an element may be written without a backslash before it")
			return
		}
		t.look(s, v.m, func(s *tState) { k(s, tOut{6, s.next(v.m)}) }, func(s *tState) {})
	case tHex:
		if o.phase != 10 || v.m != o.at {
			t.problem(pos, "the bytes of an element are not written behind a quote and an escaped \\x")
			return
		}
		t.look(s, v.m, func(s *tState) { k(s, tOut{6, s.next(v.m)}) }, func(s *tState) {})
	case tChar:
		t.problem(pos, "an element is written as it is, without quotes and escapes")
	case tInt:
		if v.c == nil {
			t.problem(pos, "a character is written which is not known")
			return
		}
		b := byte(*v.c)
		switch {
		case o.phase == 0 && b == ls.open:
			k(s, tOut{1, o.at})
		case o.phase == 0:
			t.problem(pos, "the list does not begin with %q", ls.open)
		case (o.phase == 1 || o.phase == 2) && b == ls.closing:
			closed(s, o)
		case o.phase == 2 && b == ls.delim:
			t.look(s, o.at, func(s *tState) { k(s, tOut{4, o.at}) }, func(s *tState) { t.problem(pos, "a delimiter is written behind the last element") })
		case o.phase == 2:
			t.problem(pos, "%q is written between elements instead of %q", b, ls.delim)
		case (o.phase == 1 || o.phase == 4) && b == '"' && (ls.kind == "text" || ls.kind == "bytes"):
			k(s, tOut{5, o.at})
		case (o.phase == 5 || o.phase == 8) && b == '\\' && ls.kind == "bytes":
			k(s, tOut{map[int]int{5: 8, 8: 9}[o.phase], o.at})
		case o.phase == 9 && b == 'x':
			k(s, tOut{10, o.at})
		case o.phase == 6 && b == '"':
			k(s, tOut{2, o.at})
		case spelled(string([]byte{b})):
		default:
			t.problem(pos, "%q is written where it does not belong", b)
		}
	case tConst:
		if len(v.s) > 1 && spelled(v.s) {
			return
		}
		var rec func(s *tState, o tOut, i int)
		rec = func(s *tState, o tOut, i int) {
			if i == len(v.s) {
				k(s, o)
				return
			}
			t.emitList(s, o, tInt{c: p64(int64(v.s[i])), at: -1}, pos, func(s *tState, o tOut) { rec(s, o, i+1) })
		}
		rec(s, o, 0)
	case tCat:
		var rec func(s *tState, o tOut, i int)
		rec = func(s *tState, o tOut, i int) {
			if i == len(v.v) {
				k(s, o)
				return
			}
			t.emitList(s, o, v.v[i], pos, func(s *tState, o tOut) { rec(s, o, i+1) })
		}
		rec(s, o, 0)
	case tRef:
		its, _ := t.items(s, v)
		var rec func(s *tState, o tOut, i int)
		rec = func(s *tState, o tOut, i int) {
			if i == len(its) {
				k(s, o)
				return
			}
			t.emitList(s, o, its[i], pos, func(s *tState, o tOut) { rec(s, o, i+1) })
		}
		rec(s, o, 0)
	default:
		t.problem(pos, "something is written which is not an element or a bracket or delimiter")
	}
}

// bufStore is a store into a buffer of one delimiter and one character per element.
func (t *textSim) bufStore(s *tState, p tBufPtr, v tv, pos token.Pos) bool {
	b := s.heap[p.cell][0].(tBuf)
	n, ok := v.(tInt)
	if !ok || n.c == nil {
		t.problem(pos, "a character is written which is not known")
		return false
	}
	c := byte(*n.c)
	lin := tLin{2, 0, 0}
	switch q := p.p.(type) {
	case tInt:
		if q.c == nil || *q.c < 0 || *q.c > 1 {
			t.problem(pos, "a character is written at a place that is not understood")
			return false
		}
		lin.add = *q.c
	case tLin:
		lin = q
	}
	if lin.mul != 2 || lin.add < 0 || lin.add > 1 {
		t.problem(pos, "a character is written at a place that is not understood")
		return false
	}
	ls := t.list
	if lin.at == endMark {
		if lin.add != 0 {
			t.problem(pos, "a character is written behind the end of the text")
			return false
		}
		if c != ls.closing {
			t.problem(pos, "the list does not end with %q", ls.closing)
			return false
		}
		b.closed = true
		s.heap[p.cell] = []tv{b}
		return true
	}
	if lin.at == 0 && lin.add == 0 {
		b.first = int(c)
		if b.at == 0 {
			b.d = true
		}
		s.heap[p.cell] = []tv{b}
		return true
	}
	if lin.at != b.at {
		t.problem(pos, "an element is left out, repeated or moved")
		return false
	}
	if lin.add == 0 {
		if c != ls.delim {
			t.problem(pos, "%q is written between elements instead of %q", c, ls.delim)
			return false
		}
		b.d = true
	} else {
		i := s.idx(b.at)
		val, ok := byte(0), false
		if i >= 0 && i+1 < len(s.marks) {
			val, ok = s.marks[i].gap.set.only()
		}
		if !ok || ls.kind != "bool" {
			t.problem(pos, "a character is written for an element whatever its value is")
			return false
		}
		if had, ok := ls.spell[val]; ok && had != string([]byte{c}) {
			t.problem(pos, "an element is written as %q and as %q", had, c)
			return false
		}
		ls.spell[val] = string([]byte{c})
		b.v = true
	}
	if b.v && (b.d || b.at == 0) {
		b = tBuf{s.next(b.at), false, false, b.first, b.closed}
	}
	s.heap[p.cell] = []tv{b}
	return true
}

// dstStore puts a value into the list that is filled.
func (t *textSim) dstStore(s *tState, p tDstPtr, v tv, pos token.Pos) bool {
	d := s.heap[p.cell][0].(tDst)
	if p.at != d.at {
		t.problem(pos, "an element is left out, repeated or moved")
		return false
	}
	if !t.isElement(s, v, d.at, pos) {
		return false
	}
	d.at = s.next(d.at)
	s.heap[p.cell] = []tv{d}
	return true
}

// isElement: the value is what the text of element m stands for.
func (t *textSim) isElement(s *tState, v tv, m int, pos token.Pos) bool {
	switch v := v.(type) {
	case tConv:
		if v.m == m {
			return true
		}
		t.problem(pos, "the value of another element is kept")
		return false
	case tDecRef:
		if s.heap[v.cell][0] == tv(tDec{m, true}) {
			return true
		}
	case tChar:
		if t.list.kind == "text" && v.m == m {
			return true
		}
	case tBool:
		i := s.idx(m)
		if t.list.kind == "bool" && i >= 0 && i+1 < len(s.marks) {
			if c, ok := s.marks[i].gap.set.only(); ok && (c == 1) == v.b {
				return true
			}
			t.problem(pos, "%v is kept for an element whose text does not stand for it", v.b)
			return false
		}
	}
	t.problem(pos, "what is kept for an element is not known to be its value")
	return false
}

// spellTest splits the values of element m by a test of their spelling.
func (t *textSim) spellTest(s *tState, m int, test func(string) bool, k func(*tState, bool)) {
	i := s.idx(m)
	yes, no := byteSet{}, byteSet{}
	for v, sp := range t.list.spell {
		if !s.marks[i].gap.set.has(v) {
			continue
		}
		one := bytesOf(string([]byte{v}))
		if test(sp) {
			yes = yes.or(one)
		} else {
			no = no.or(one)
		}
	}
	if !yes.empty() {
		a := s.clone()
		a.marks[i].gap.set = yes
		k(a, true)
	}
	if !no.empty() {
		s.marks[i].gap.set = no
		k(s, false)
	}
}

// listCompare decides comparisons of list values; false when it does not know them.
func (t *textSim) listCompare(s *tState, v tCmp, k func(*tState, bool), both func()) bool {
	x, y, op := v.x, v.y, v.op
	if n, ok := x.(tInt); ok && n.c != nil {
		switch y.(type) {
		case tSpell, tLenOf:
			x, y, op = y, x, flipCmp(op)
		}
	}
	if _, ok := x.(tConst); ok {
		if _, ok := y.(tChar); ok {
			x, y = y, x
		}
	}
	switch a := x.(type) {
	case tSpell:
		n, ok := y.(tInt)
		if !ok || n.c == nil || t.list.kind != "bool" || a.ptr {
			both()
			return true
		}
		t.spellTest(s, a.m, func(sp string) bool {
			return a.i < len(sp) && cmpInts(op, int64(sp[a.i]), *n.c)
		}, k)
		return true
	case tLenOf:
		n, ok := y.(tInt)
		if ok && n.c != nil && t.loading && a.m >= 0 {
			if t.list.kind == "bool" {
				t.spellTest(s, a.m, func(sp string) bool { return cmpInts(op, int64(len(sp)), *n.c) }, k)
				return true
			}
			if t.list.kind == "bytes" && *n.c <= int64(len(hexMark)) {
				lo, hi := cmpInts(op, int64(len(hexMark)), *n.c), cmpInts(op, int64(len(hexMark))+1, *n.c)
				if lo == hi {
					k(s, lo)
					return true
				}
			}
			if t.list.kind != "text" && *n.c == 0 {
				// never empty
				k(s, cmpInts(op, 1, 0))
				return true
			}
		}
		both()
		return true
	case tChar:
		if c, ok := y.(tConst); ok && t.loading {
			if t.list.kind == "bool" {
				t.spellTest(s, a.m, func(sp string) bool { return (sp == c.s) == (op == token.EQL) }, k)
				return true
			}
			both()
			return true
		}
		if b, ok := y.(tBool); ok && t.list.kind == "bool" && !t.loading {
			want := b.b == (op == token.EQL)
			t.branch(s, a, token.NoPos, func(s *tState, r bool) { k(s, r == want) })
			return true
		}
	}
	return false
}

// listNil: whether a list value is nil.
func listNil(v tv) (bool, bool) {
	switch v.(type) {
	case tEnc, tEsc, tSrc, tDyn, tBufRef, tDstRef, tChar, tConv, tSlot, tHex, tHexText, tDecRef:
		return false, true
	}
	return false, false
}

// inner follows a call that gets an element: the function that quotes it is
// simulated on its own, on every text.
func (t *textSim) inner(s *tState, in *ssa.Call, fn *ssa.Function, args []tv) bool {
	if t.list == nil || t.loading || t.list.kind != "text" || t.list.quote == nil || fn.Blocks == nil {
		return false
	}
	el, out := -1, -1
	var to []tv
	for i, a := range args {
		switch a := a.(type) {
		case tChar:
			if el >= 0 || !holdsText(fn.Params[i].Type()) {
				if el >= 0 {
					return false
				}
				if _, ok := types.Unalias(fn.Params[i].Type()).(*types.TypeParam); !ok {
					return false
				}
			}
			el = a.m
			to = append(to, tWin{0, endMark})
		case tOut:
			if out >= 0 {
				return false
			}
			out = i
			to = append(to, tOut{})
		case tRef:
			if a.hi < 0 && len(s.heap[a.cell]) == 1 && out < 0 {
				if _, ok := s.heap[a.cell][0].(tOut); ok {
					out = i
					to = append(to, a)
					continue
				}
			}
			if a.hi >= 0 && out < 0 && isBytes(fn.Params[i].Type()) {
				// the bytes written so far
				out = i
				to = append(to, tOut{})
				continue
			}
			return false
		case tConst, tNil, tBool:
			to = append(to, a)
		case tInt:
			if a.c == nil {
				return false
			}
			to = append(to, a)
		default:
			return false
		}
	}
	if el < 0 {
		return false
	}
	bad, fine := t.list.quote(fn, to)
	if !fine {
		deeper := false
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				if c, ok := i.(*ssa.Call); ok {
					if g := c.Common().StaticCallee(); g != nil && g.Pkg != nil && strings.HasPrefix(g.Pkg.Pkg.Path(), modPath) {
						deeper = true
					}
				}
			}
		}
		if deeper {
			return false
		}
		for m, p := range bad {
			if _, had := t.problems[m]; !had {
				t.problems[m] = p
			}
		}
		return true
	}
	t.list.quotes++
	t.fns[fn] = true
	if out < 0 {
		t.resume(s, in, tEnc{el})
		return true
	}
	if r, ok := args[out].(tRef); ok && r.hi < 0 {
		t.emit(s, s.heap[r.cell][0].(tOut), tEnc{el}, in.Pos(), func(s *tState, o tOut) {
			s.heap[r.cell] = []tv{o}
			t.resume(s, in, tAny{})
		})
		return true
	}
	t.emitAny(s, args[out], tEnc{el}, in)
	return true
}

// splitter follows a call that cuts the source into elements.
func (t *textSim) splitter(s *tState, in *ssa.Call, fn *ssa.Function, args []tv) bool {
	if t.list == nil || !t.loading || t.list.split == nil || fn.Blocks == nil {
		return false
	}
	rs := fn.Signature.Results()
	if rs.Len() < 2 || !isErrorType(rs.At(rs.Len()-1).Type()) {
		return false
	}
	sl, ok := rs.At(rs.Len() - 2).Type().Underlying().(*types.Slice)
	if !ok || !holdsText(sl.Elem()) {
		return false
	}
	has := false
	to := append([]tv{}, args...)
	for i, a := range args {
		if _, ok := a.(tSrc); ok {
			has = true
			to[i] = tWin{0, endMark}
		}
	}
	if !has {
		return false
	}
	bad := t.list.split(fn, to)
	for m, p := range bad {
		if _, had := t.problems[m]; !had {
			t.problems[m] = p
		}
	}
	t.list.splits++
	t.fns[fn] = true
	if len(bad) > 0 {
		return true
	}
	var vs []tv
	for i := 0; i < rs.Len()-2; i++ {
		vs = append(vs, tAny{})
	}
	vs = append(vs, tWin{0, endMark}, tNil{})
	t.resume(s, in, tTup{vs})
	return true
}

// ---- byte arrays: buffers that are filled piece by piece

// tSeq is a byte buffer that is filled from its beginning. n counts the writes
// (up to seqMax), sizes are the sizes of the last ones (0: not known).
type tSeq struct {
	o      tOut
	ph     bool // a delimiter stands for the opening bracket
	first  int
	closed bool
	n      int
	sizes  string // one digit per write, the last write first
}

const seqMax = 6

func (v tSeq) k() string {
	return fmt.Sprintf("seq%s.%v%d%v%d.%s", v.o.k(), v.ph, v.first, v.closed, v.n, v.sizes)
}

// tSlot is the part of a buffer that begins ago writes back; -1: at its beginning.
type tSlot struct{ cell, ago int }

func (v tSlot) k() string { return fmt.Sprintf("slot%d.%d", v.cell, v.ago) }

type tSlotPtr struct {
	cell int
	what int // 0: the next character, 1: the first, 2: the last
}

func (v tSlotPtr) k() string { return fmt.Sprintf("slotptr%d.%d", v.cell, v.what) }

// tOutLen is the size of what was written between a and b writes ago.
type tOutLen struct{ a, b int }

func (v tOutLen) k() string { return fmt.Sprintf("outlen%d-%d", v.a, v.b) }

type tHex struct{ m int } // the hex digits of element m

func (v tHex) k() string { return fmt.Sprintf("hex%d", v.m) }

type tHexText struct{ m int } // element m's text behind its prefix

func (v tHexText) k() string { return fmt.Sprintf("hextext%d", v.m) }

type tDec struct { // a buffer for the bytes of element m
	m    int
	full bool
}

func (v tDec) k() string { return fmt.Sprintf("dec%d%v", v.m, v.full) }

type tDecRef struct{ cell int }

func (v tDecRef) k() string { return fmt.Sprintf("decref%d", v.cell) }

// wrote shifts everything that counts writes.
func (s *tState) wrote(cell int, size int) {
	q := s.heap[cell][0].(tSeq)
	d := "0"
	if size > 0 && size < 10 {
		d = fmt.Sprint(size)
	}
	q.sizes = d + q.sizes
	if len(q.sizes) > seqMax {
		q.sizes = q.sizes[:seqMax]
	}
	if q.n < seqMax {
		q.n++
	}
	s.heap[cell] = []tv{q}
	sub := func(v tv) tv {
		switch v := v.(type) {
		case tSlot:
			if v.cell == cell && v.ago >= 0 && v.ago < seqMax {
				v.ago++
			}
			return v
		case tOutLen:
			if v.a < seqMax {
				v.a++
				v.b++
			}
			return v
		}
		return v
	}
	for _, f := range s.frames {
		for k, x := range f.env {
			f.env[k] = sub(x)
		}
	}
	for c, xs := range s.heap {
		if c == cell {
			continue
		}
		for i := range xs {
			xs[i] = sub(xs[i])
		}
	}
}

// start is how many writes ago a part of a buffer begins.
func (s *tState) start(v tSlot) (int, bool) {
	if v.ago < 0 {
		q := s.heap[v.cell][0].(tSeq)
		return q.n, q.n < seqMax
	}
	return v.ago, v.ago < seqMax
}

// spot is where an index into a part of a buffer lies, in writes ago.
func (s *tState) spot(v tSlot, i tv) (int, bool) {
	st, ok := s.start(v)
	if !ok {
		return 0, false
	}
	switch i := i.(type) {
	case nil:
		return st, true
	case tOutLen:
		if i.a == st {
			return i.b, true
		}
	case tInt:
		if i.c != nil && *i.c >= 0 {
			q := s.heap[v.cell][0].(tSeq)
			n := *i.c
			for n > 0 && st > 0 && st-1 < len(q.sizes) {
				d := int64(q.sizes[st-1] - '0')
				if d == 0 || d > n {
					return 0, false
				}
				n -= d
				st--
			}
			return st, n == 0
		}
	}
	return 0, false
}

// put writes a value at the next place of a buffer.
func (t *textSim) put(s *tState, cell int, v tv, size int, pos token.Pos, k func(*tState)) {
	q := s.heap[cell][0].(tSeq)
	if q.o.phase == 0 && !q.ph {
		if c, ok := v.(tConst); ok && c.s != "" && c.s[0] == t.list.delim {
			q.o.phase, q.ph = 4, true
			v = tConst{c.s[1:]}
		} else if n, ok := v.(tInt); ok && n.c != nil && byte(*n.c) == t.list.delim {
			q.o.phase, q.ph = 4, true
			v = tConst{""}
		}
	} else if q.o.phase == 2 {
		// behind the last element there is only the place of the closing bracket
		if n, ok := v.(tInt); ok && n.c != nil && byte(*n.c) == t.list.closing {
			q.closed = true
		}
	}
	s.heap[cell] = []tv{q}
	t.emitList(s, q.o, v, pos, func(s *tState, o tOut) {
		q := s.heap[cell][0].(tSeq)
		q.o = o
		s.heap[cell] = []tv{q}
		s.wrote(cell, size)
		k(s)
	})
}

// seqValue handles the instructions on buffers; done as for value.
func (t *textSim) seqIndex(s *tState, in ssa.Value, v tSlot, x, ix ssa.Value, i tv) bool {
	if n, ok := i.(tInt); ok && v.ago < 0 && n.c != nil && *n.c == 0 {
		q := s.heap[v.cell][0].(tSeq)
		if q.n > 0 {
			t.set(s, in, tSlotPtr{v.cell, 1})
			return false
		}
	}
	if at, ok := s.spot(v, i); ok && at == 0 {
		t.set(s, in, tSlotPtr{v.cell, 0})
		return false
	}
	// the last one
	if b, ok := ix.(*ssa.BinOp); ok && b.Op == token.SUB && v.ago < 0 {
		if c, ok := b.Y.(*ssa.Const); ok && c.Value != nil && c.Value.ExactString() == "1" {
			if mk, ok := x.(*ssa.MakeSlice); ok && mk.Len == b.X {
				t.set(s, in, tSlotPtr{v.cell, 2})
				return false
			}
			if cl, ok := b.X.(*ssa.Call); ok {
				if bi, ok := cl.Common().Value.(*ssa.Builtin); ok && bi.Name() == "len" && cl.Common().Args[0] == x {
					t.set(s, in, tSlotPtr{v.cell, 2})
					return false
				}
			}
		}
	}
	t.problem(in.Pos(), "a character is written at a place that is not understood")
	return true
}

// seqStore stores a character into a buffer; true when the state was taken over.
func (t *textSim) seqStore(s *tState, p tSlotPtr, v tv, pos token.Pos) bool {
	n, ok := v.(tInt)
	if !ok || n.c == nil {
		t.problem(pos, "a character is written which is not known")
		return true
	}
	q := s.heap[p.cell][0].(tSeq)
	switch p.what {
	case 0:
		t.put(s, p.cell, v, 1, pos, func(s *tState) { t.exec(s) })
		return true
	case 1:
		q.first = int(*n.c)
	case 2:
		if byte(*n.c) != t.list.closing {
			t.problem(pos, "the list does not end with %q", t.list.closing)
			return true
		}
		if q.o.phase != 2 {
			t.problem(pos, "the list is closed before all elements are written")
			return true
		}
		q.closed = true
	}
	s.heap[p.cell] = []tv{q}
	return false
}

// hexCall handles what writes and reads byte elements.
func (t *textSim) hexCall(s *tState, in *ssa.Call, name string, args []tv) (done, handled bool) {
	if t.list.kind != "bytes" {
		return false, false
	}
	if !t.loading {
		switch name {
		case "encoding/hex.EncodeToString":
			if c, ok := args[0].(tChar); ok {
				t.set(s, in, tHex{c.m})
				return false, true
			}
		case "encoding/hex.AppendEncode":
			if c, ok := args[1].(tChar); ok {
				t.emitAny(s, args[0], tHex{c.m}, in)
				return true, true
			}
		case "encoding/hex.Encode":
			c, ok1 := args[1].(tChar)
			d, ok2 := args[0].(tSlot)
			if at, ok := 0, ok1 && ok2; ok {
				if at, ok = s.spot(d, nil); ok && at == 0 {
					t.put(s, d.cell, tHex{c.m}, 0, in.Pos(), func(s *tState) { t.resume(s, in, tOutLen{1, 0}) })
					return true, true
				}
			}
			t.problem(in.Pos(), "an element is written at a place that is not understood")
			return true, true
		}
		return false, false
	}
	whole := func(v tv) (int, bool) {
		h, ok := v.(tHexText)
		return h.m, ok
	}
	switch name {
	case "encoding/hex.DecodeString":
		if m, ok := whole(args[0]); ok {
			t.set(s, in, tTup{[]tv{tConv{m}, tNil{}}})
			return false, true
		}
	case "encoding/hex.DecodedLen":
		if n, ok := args[0].(tLenOf); ok && n.m >= 0 {
			t.set(s, in, tLenOf{n.m})
			return false, true
		}
	case "encoding/hex.Decode":
		m, ok1 := whole(args[1])
		d, ok2 := args[0].(tDecRef)
		if ok1 && ok2 && s.heap[d.cell][0] == tv(tDec{m, false}) {
			s.heap[d.cell] = []tv{tDec{m, true}}
			t.set(s, in, tTup{[]tv{tAny{}, tNil{}}})
			return false, true
		}
	case "bytes.HasPrefix", "strings.HasPrefix":
		if _, ok := args[0].(tChar); ok {
			if c, ok := args[1].(tConst); ok {
				t.set(s, in, tBool{strings.HasPrefix(hexMark, c.s)})
				return false, true
			}
		}
	case "bytes.TrimPrefix", "strings.TrimPrefix":
		if e, ok := args[0].(tChar); ok {
			if c, ok := args[1].(tConst); ok && c.s == hexMark {
				t.set(s, in, tHexText{e.m})
				return false, true
			}
		}
	case "bytes.CutPrefix", "strings.CutPrefix":
		if e, ok := args[0].(tChar); ok {
			if c, ok := args[1].(tConst); ok && c.s == hexMark {
				t.set(s, in, tTup{[]tv{tHexText{e.m}, tBool{true}}})
				return false, true
			}
		}
	case "bytes.Equal":
		a, ok1 := args[0].(tConst)
		b, ok2 := args[1].(tConst)
		if ok1 && ok2 {
			t.set(s, in, tBool{a.s == b.s})
			return false, true
		}
	}
	return false, false
}

// hexMark is what Postgres puts before the hex digits of a byte string.
const hexMark = "\\x"

type tCat struct{ v []tv } // pieces put together, not yet written

func (v tCat) k() string {
	var ks []string
	for _, x := range v.v {
		ks = append(ks, x.k())
	}
	return "cat(" + strings.Join(ks, "+") + ")"
}

// concat puts two pieces of a list's text together; a text that begins with the
// opening bracket is the list itself.
func (t *textSim) concat(x, y tv) (tv, bool) {
	var parts []tv
	for _, v := range []tv{x, y} {
		switch v := v.(type) {
		case tCat:
			parts = append(parts, v.v...)
		case tConst, tEnc, tEsc, tHex:
			parts = append(parts, v)
		default:
			return nil, false
		}
	}
	if c, ok := parts[0].(tConst); ok && strings.HasPrefix(c.s, string([]byte{t.list.open})) || len(parts) > 8 {
		return nil, false
	}
	return tCat{parts}, true
}
