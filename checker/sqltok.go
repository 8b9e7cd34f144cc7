package main

import (
	"fmt"
	"strings"
	"unicode"
)

// This file reads abstract statement texts: it splits them into tokens,
// recognises placeholders and the columns they stand for, and matches them
// against abstract argument lists.

type tkKind int

const (
	tWord tkKind = iota
	tPunct
	tHole
	tPh
	tLoop
	tJoin
	tGroup
	tOpaque
	tRow // the placeholders of one inserted row: InsertPlaceholders(row)
	tNum
	tBad
)

type tk struct {
	kind  tkKind
	s     string // word, punctuation, join separator, reason
	v     val    // hole
	num   poly   // placeholder number, row
	isNum bool
	lp    *loopInfo
	paths [][]tk
	list  []seg
	sub   []tk // group, opaque
	pre   bool
}

type tokenizer struct {
	numbered bool
	marker   byte
	n        *int
}

func isWordByte(b byte) bool {
	return b == '_' || b >= '0' && b <= '9' || b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z' || b >= 0x80
}

func (t *tokenizer) doc(d doc) []tk {
	var out []tk
	for i := 0; i < len(d); i++ {
		p := d[i]
		switch p.kind {
		case pLit:
			s := p.s
			for j := 0; j < len(s); {
				b := s[j]
				switch {
				case unicode.IsSpace(rune(b)):
					j++
				case t.numbered && b == t.marker:
					k := j + 1
					for k < len(s) && s[k] >= '0' && s[k] <= '9' {
						k++
					}
					switch {
					case k > j+1:
						n := int64(0)
						for _, c := range s[j+1 : k] {
							n = n*10 + int64(c-'0')
						}
						if k == len(s) && i+1 < len(d) && d[i+1].kind == pNum {
							out = append(out, tk{kind: tBad, s: "a number is glued to a numbered placeholder"})
						}
						out = append(out, tk{kind: tPh, num: pc(n), isNum: true})
					case k == len(s) && i+1 < len(d) && d[i+1].kind == pNum:
						out = append(out, tk{kind: tPh, num: d[i+1].p, isNum: true})
						i++
						if i+1 < len(d) && (d[i+1].kind == pNum || d[i+1].kind == pLit && d[i+1].s != "" && d[i+1].s[0] >= '0' && d[i+1].s[0] <= '9') {
							out = append(out, tk{kind: tBad, s: "a digit follows a numbered placeholder"})
						}
					default:
						out = append(out, tk{kind: tBad, s: "a placeholder without its number"})
					}
					j = k
				case !t.numbered && b == t.marker:
					out = append(out, tk{kind: tPh})
					j++
				case b == '?' || b == '$' && j+1 <= len(s):
					out = append(out, tk{kind: tBad, s: "a placeholder of another dialect: " + string(b)})
					j++
				case isWordByte(b):
					k := j
					for k < len(s) && isWordByte(s[k]) {
						k++
					}
					out = append(out, tk{kind: tWord, s: strings.ToUpper(s[j:k])})
					j = k
				default:
					k := j + 1
					if strings.IndexByte("<>!=|&", b) >= 0 {
						for k < len(s) && strings.IndexByte("<>!=|&", s[k]) >= 0 {
							k++
						}
					}
					if b == '\'' || b == '`' || b == '"' {
						if e := strings.IndexByte(s[j+1:], b); e >= 0 {
							k = j + 2 + e
							out = append(out, tk{kind: tHole, v: vStr{lit(s[j:k])}})
							j = k
							continue
						}
					}
					out = append(out, tk{kind: tPunct, s: s[j:k]})
					j = k
				}
			}
		case pHole:
			if s, ok := p.v.(*sym); ok && s.op == "m:InsertPlaceholders" && len(s.args) == 2 {
				if r, ok := asPoly(s.args[1]); ok {
					out = append(out, tk{kind: tRow, v: s.args[0], num: r})
					continue
				}
			}
			out = append(out, tk{kind: tHole, v: p.v})
		case pNum:
			out = append(out, tk{kind: tNum, num: p.p})
		case pJoin:
			if x, ok := t.join(p.list, p.s, true); ok {
				out = append(out, x...)
				continue
			}
			out = append(out, tk{kind: tJoin, list: p.list, s: p.s})
		case pLoop:
			x := tk{kind: tLoop, lp: p.lp, pre: p.prefix}
			for _, q := range p.paths {
				x.paths = append(x.paths, t.doc(q))
			}
			out = append(out, x)
		case pRep:
			*t.n++
			lp := &loopInfo{idx: fmt.Sprintf("i$r%d", *t.n), from: poly{}, to: p.p, conds: []pathCond{nil}}
			out = append(out, tk{kind: tLoop, lp: lp, paths: [][]tk{t.doc(p.d)}})
		case pOpaque:
			out = append(out, tk{kind: tOpaque, s: p.s, sub: t.doc(p.d)})
		default:
			out = append(out, tk{kind: tBad, s: "text that is not determined"})
		}
	}
	return out
}

// join reads the elements of a joined list as text, when they are more than
// plain names: a list of placeholders built element by element.
func (t *tokenizer) join(list []seg, sep string, top bool) ([]tk, bool) {
	more := false
	var segs func(in []seg, top bool) ([]tk, bool)
	segs = func(in []seg, top bool) ([]tk, bool) {
		var out []tk
		for i, s := range in {
			var glue []tk
			if !top || i > 0 {
				glue = t.doc(lit(sep))
			}
			switch s.kind {
			case segOne:
				x := t.doc(toDoc(s.v))
				if len(x) != 1 || x[0].kind != tHole {
					more = true
				}
				out = append(append(out, glue...), x...)
			case segAll:
				out = append(append(out, glue...), tk{kind: tJoin, list: []seg{s}, s: sep})
			case segLoop:
				x := tk{kind: tLoop, lp: s.lp}
				for _, p := range s.paths {
					y, ok := segs(p, false)
					if !ok {
						return nil, false
					}
					x.paths = append(x.paths, y)
				}
				out = append(out, x)
			default:
				return nil, false
			}
		}
		return out, true
	}
	n := *t.n
	out, ok := segs(list, top)
	if !ok || !more {
		*t.n = n
		return nil, false
	}
	return out, true
}

// group folds parentheses into groups, level by level.
func group(in []tk) []tk {
	type open struct{ at int }
	var out []tk
	var stack []open
	for _, x := range in {
		if x.kind == tLoop {
			ps := make([][]tk, len(x.paths))
			for i := range x.paths {
				ps[i] = group(x.paths[i])
			}
			x.paths = ps
		}
		if x.kind == tOpaque {
			x.sub = group(x.sub)
		}
		if x.kind == tPunct && x.s == "(" {
			stack = append(stack, open{len(out)})
			out = append(out, x)
			continue
		}
		if x.kind == tPunct && x.s == ")" && len(stack) > 0 {
			o := stack[len(stack)-1].at
			stack = stack[:len(stack)-1]
			sub := append([]tk{}, out[o+1:]...)
			out = append(out[:o:o], tk{kind: tGroup, sub: sub})
			continue
		}
		out = append(out, x)
	}
	return out
}

func hasPh(in []tk) bool {
	for _, x := range in {
		switch x.kind {
		case tPh, tRow:
			return true
		case tLoop:
			for _, p := range x.paths {
				if hasPh(p) {
					return true
				}
			}
		case tGroup, tOpaque:
			if hasPh(x.sub) {
				return true
			}
		}
	}
	return false
}

// onlyPh: nothing but placeholders and commas.
func onlyPh(in []tk) bool {
	for _, x := range in {
		switch x.kind {
		case tPh:
		case tPunct:
			if x.s != "," {
				return false
			}
		case tLoop:
			for _, p := range x.paths {
				if !onlyPh(p) {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

// names turns a group of identifiers into a list.
func names(in []tk) ([]seg, bool) {
	var out []seg
	for _, x := range in {
		switch x.kind {
		case tHole:
			out = append(out, seg{kind: segOne, v: x.v})
		case tJoin:
			out = append(out, x.list...)
		case tPunct:
			if x.s != "," {
				return nil, false
			}
		case tWord:
			out = append(out, seg{kind: segOne, v: vStr{lit(x.s)}})
		case tLoop:
			var ps [][]seg
			for _, p := range x.paths {
				n, ok := names(p)
				if !ok {
					return nil, false
				}
				ps = append(ps, n)
			}
			s := seg{kind: segLoop, lp: x.lp, paths: ps}
			if a, ok := loopAsAll(s); ok {
				s = a
			}
			out = append(out, s)
		default:
			return nil, false
		}
	}
	return out, len(out) > 0
}

// ---- placeholder items

type item struct {
	one  bool
	col  val  // the column the placeholder stands for; nil: unknown
	free bool // any value is right here (limits, clauses of the caller)
	num  poly
	has  bool // carries a number
	row  poly // ordinal of the inserted row
	ins  bool
	v    val // arguments: the value

	idx      string
	from, to poly
	conds    []pathCond
	paths    [][]item
	partial  bool
	lp       *loopInfo
}

func (x item) String() string {
	if x.one {
		if x.v != nil {
			return x.v.key()
		}
		if x.col != nil {
			return "placeholder for " + x.col.key()
		}
		return "placeholder"
	}
	var n []string
	for _, p := range x.paths {
		n = append(n, itemsString(p))
	}
	return "for " + x.idx + " in " + x.from.String() + ".." + x.to.String() + " {" + strings.Join(n, " | ") + "}"
}

func itemsString(in []item) string {
	var n []string
	for _, x := range in {
		n = append(n, x.String())
	}
	return "[" + strings.Join(n, ", ") + "]"
}

type stmtCheck struct {
	e        *absEngine
	st       *state
	problems []string
	rows     poly // rows inserted so far
	names    []seg
	insert   bool
	n        int
}

func (s *stmtCheck) bad(f string, a ...any) { s.problems = append(s.problems, fmt.Sprintf(f, a...)) }

var comparison = map[string]bool{"=": true, "<>": true, "!=": true, "<": true, ">": true, "<=": true, ">=": true, "<=>": true}

// items lists the placeholders of a token list with the columns they stand for.
// insertNames is set inside the VALUES part of an insert.
func (s *stmtCheck) items(in []tk, values bool) []item {
	var out []item
	at := func(i int) *tk {
		if i >= 0 && i < len(in) {
			return &in[i]
		}
		return &tk{}
	}
	word := func(i int, w string) bool { x := at(i); return x.kind == tWord && x.s == w }
	// operator ending at i; start is the index before it
	operator := func(i int) (int, bool) {
		x := at(i)
		if x.kind == tPunct && comparison[x.s] {
			return i - 1, true
		}
		if word(i, "LIKE") || word(i, "IN") || word(i, "BETWEEN") {
			if word(i-1, "NOT") {
				return i - 2, true
			}
			return i - 1, true
		}
		return 0, false
	}
	ident := func(i int) val {
		if x := at(i); x.kind == tHole {
			return x.v
		} else if x.kind == tGroup && len(x.sub) == 1 && x.sub[0].kind == tHole {
			return x.sub[0].v
		} else if x.kind == tWord {
			return vStr{lit(x.s)}
		}
		return nil
	}
	for i, x := range in {
		switch x.kind {
		case tBad:
			s.bad("%s", x.s)
		case tPh:
			it := item{one: true, num: x.num, has: x.isNum}
			if j, ok := operator(i - 1); ok {
				it.col = ident(j)
			} else if word(i-1, "AND") && at(i-2).kind == tPh && (word(i-3, "BETWEEN")) {
				j, _ := operator(i - 3)
				it.col = ident(j)
			} else if word(i-1, "LIMIT") || word(i-1, "OFFSET") {
				it.free = true
			}
			out = append(out, it)
		case tRow:
			if !values {
				s.bad("row placeholders outside VALUES")
				continue
			}
			s.n++
			idx := fmt.Sprintf("i$w%d", s.n)
			nc := ps("NC")
			lp := &loopInfo{idx: idx, from: poly{}, to: nc, conds: []pathCond{nil}}
			col := s.e.elem(&vList{segs: s.names}, ps(idx), nil)
			s.lenNames(nc)
			out = append(out, item{idx: idx, from: poly{}, to: nc, conds: lp.conds, lp: lp, paths: [][]item{{{one: true, col: col, ins: true, row: s.rows, num: x.num.mul(nc).add(ps(idx)).add(pc(1)), has: true}}}})
			s.rows = s.rows.add(pc(1))
		case tGroup:
			if !hasPh(x.sub) {
				if word(i-3, "INSERT") || word(i-2, "INTO") || s.isInsertNames(in, i) {
					if n, ok := names(x.sub); ok {
						s.names = n
					}
				}
				// (names) keep their place for a comparison after them
				continue
			}
			if values && onlyPh(x.sub) {
				its := s.inGroup(x.sub, s.names, true)
				out = append(out, its...)
				s.rows = s.rows.add(pc(1))
				continue
			}
			if j, ok := operator(i - 1); ok && onlyPh(x.sub) {
				if g := at(j); g.kind == tGroup {
					if n, ok := names(g.sub); ok {
						out = append(out, s.inGroup(x.sub, n, false)...)
						continue
					}
				}
				if id := ident(j); id != nil {
					its := s.items(x.sub, false)
					setCol(its, id)
					out = append(out, its...)
					continue
				}
			}
			out = append(out, s.items(x.sub, false)...)
		case tOpaque:
			its := s.items(x.sub, false)
			setFree(its)
			out = append(out, its...)
		case tWord:
			switch x.s {
			case "INSERT", "REPLACE":
				s.insert = true
			case "VALUES", "VALUE":
				values = s.insert && at(i+1).kind != tGroup || s.insert && at(i+1).kind == tGroup && hasPh(at(i+1).sub)
			case "ON", "RETURNING", "SET", "WHERE", "SELECT":
				values = false
			}
		case tLoop:
			lp := x.lp
			r0 := s.rows
			l := item{idx: lp.idx, from: lp.from, to: lp.to, conds: lp.conds, partial: lp.partial, lp: lp}
			var per []poly
			if values {
				// rows before this iteration: measured first
				for _, p := range x.paths {
					s.rows = poly{}
					c := *s
					c.problems = nil
					c.items(p, values)
					per = append(per, c.rows)
				}
				pre := *lp
				pre.to, pre.partial = ps(lp.idx), false
				base := r0.add(s.e.loopSum(&pre, per))
				for _, p := range x.paths {
					s.rows = base
					l.paths = append(l.paths, s.items(p, values))
				}
				s.rows = r0.add(s.e.loopSum(lp, per))
			} else {
				for _, p := range x.paths {
					l.paths = append(l.paths, s.items(p, values))
				}
			}
			any := false
			for _, p := range l.paths {
				if len(p) > 0 {
					any = true
				}
			}
			if any {
				out = append(out, l)
			}
		}
	}
	return out
}

// isInsertNames: the group follows INSERT ... INTO <table>.
func (s *stmtCheck) isInsertNames(in []tk, i int) bool {
	for j := i - 1; j >= 0; j-- {
		x := in[j]
		switch {
		case x.kind == tWord && x.s == "INTO":
			return true
		case x.kind == tHole, x.kind == tPunct && x.s == ".":
			continue
		}
		return false
	}
	return false
}

func (s *stmtCheck) lenNames(n poly) {
	if len(s.names) == 0 {
		s.bad("an insert without a column list")
		return
	}
	if l := s.e.segsLen(s.st, s.names); !l.eq(n) {
		s.bad("%s columns are named but %s placeholders are written", l, n)
	}
}

// inGroup lists the placeholders of one parenthesised group, the i-th standing
// for the i-th name.
func (s *stmtCheck) inGroup(sub []tk, nm []seg, ins bool) []item {
	pos := poly{}
	list := &vList{segs: nm}
	var walk func(in []tk, pos poly) ([]item, poly)
	walk = func(in []tk, pos poly) ([]item, poly) {
		var out []item
		for _, x := range in {
			switch x.kind {
			case tPh:
				out = append(out, item{one: true, num: x.num, has: x.isNum, col: s.e.elem(list, pos, nil), ins: ins, row: s.rows})
				pos = pos.add(pc(1))
			case tLoop:
				var per []poly
				for _, p := range x.paths {
					_, n := walk(p, poly{})
					per = append(per, n)
				}
				pre := *x.lp
				pre.to, pre.partial = ps(x.lp.idx), false
				base := pos.add(s.e.loopSum(&pre, per))
				l := item{idx: x.lp.idx, from: x.lp.from, to: x.lp.to, conds: x.lp.conds, partial: x.lp.partial, lp: x.lp}
				for _, p := range x.paths {
					its, _ := walk(p, base)
					l.paths = append(l.paths, its)
				}
				out = append(out, l)
				pos = pos.add(s.e.loopSum(x.lp, per))
			case tBad:
				s.bad("%s", x.s)
			}
		}
		return out, pos
	}
	out, n := walk(sub, pos)
	if len(nm) == 0 {
		s.bad("placeholders without a column list")
	} else if l := s.e.segsLen(s.st, nm); !l.eq(n) {
		s.bad("%s columns are named but %s placeholders are written", l, n)
	}
	return out
}

func setCol(in []item, v val) {
	for i := range in {
		if in[i].one {
			in[i].col = v
		}
		for _, p := range in[i].paths {
			setCol(p, v)
		}
	}
}

func setFree(in []item) {
	for i := range in {
		in[i].free = true
		for _, p := range in[i].paths {
			setFree(p)
		}
	}
}

// count is the number of placeholders.
func (s *stmtCheck) count(in []item) poly {
	n := poly{}
	for _, x := range in {
		n = n.add(s.countOne(x))
	}
	return n
}

func (s *stmtCheck) countOne(x item) poly {
	if x.one {
		return pc(1)
	}
	var per []poly
	for _, p := range x.paths {
		per = append(per, s.count(p))
	}
	return s.e.loopSum(x.info(), per)
}

func (x item) info() *loopInfo {
	return &loopInfo{idx: x.idx, from: x.from, to: x.to, conds: x.conds, partial: x.partial}
}

// numbers checks that numbered placeholders run 1, 2, 3 ...
func (s *stmtCheck) numbers(in []item, done poly) poly {
	for _, x := range in {
		if x.one {
			if x.has && !x.num.eq(done.add(pc(1))) {
				s.bad("placeholder number %s where %s is due", x.num, done.add(pc(1)))
			}
			done = done.add(pc(1))
			continue
		}
		var per []poly
		for _, p := range x.paths {
			per = append(per, s.count(p))
		}
		pre := x.info()
		pre.to, pre.partial = ps(x.idx), false
		base := done.add(s.e.loopSum(pre, per))
		for _, p := range x.paths {
			s.numbers(p, base)
		}
		done = done.add(s.countOne(x))
	}
	return done
}

// argItems turns an argument list into items.
func (s *stmtCheck) argItems(segs []seg) []item {
	var out []item
	for _, g := range segs {
		switch g.kind {
		case segOne:
			out = append(out, item{one: true, v: g.v})
		case segAll:
			s.n++
			idx := fmt.Sprintf("i$a%d", s.n)
			out = append(out, item{idx: idx, from: g.from, to: g.to, conds: []pathCond{nil}, paths: [][]item{{{one: true, v: s.e.elem(g.v, ps(idx), nil)}}}})
		case segLoop:
			l := item{idx: g.lp.idx, from: g.lp.from, to: g.lp.to, conds: g.lp.conds, partial: g.lp.partial, lp: g.lp}
			any := false
			for _, p := range g.paths {
				its := s.argItems(p)
				if len(its) > 0 {
					any = true
				}
				l.paths = append(l.paths, its)
			}
			if any {
				out = append(out, l)
			}
		case segFill:
			s.n++
			out = append(out, item{idx: fmt.Sprintf("i$z%d", s.n), from: poly{}, to: g.to, conds: []pathCond{nil}, paths: [][]item{{{one: true, v: vNil{}}}}})
		default:
			s.bad("the argument list is not determined")
		}
	}
	return out
}

func (s *stmtCheck) substItems(in []item, idx string, p poly) []item {
	sb := &subst{e: s.e, ints: map[string]poly{idx: p}}
	var rec func(in []item) []item
	rec = func(in []item) []item {
		out := make([]item, len(in))
		for i, x := range in {
			if x.col != nil {
				x.col = sb.val(x.col)
			}
			if x.v != nil {
				x.v = sb.val(x.v)
			}
			x.num, x.row = sb.poly(x.num), sb.poly(x.row)
			x.from, x.to = sb.poly(x.from), sb.poly(x.to)
			ps := make([][]item, len(x.paths))
			for j := range x.paths {
				ps[j] = rec(x.paths[j])
			}
			x.paths = ps
			out[i] = x
		}
		return out
	}
	return rec(in)
}

func (x item) size() poly { return x.to.sub(x.from) }

// peel takes the first iteration off a loop.
func (s *stmtCheck) peel(x item) ([]item, item, bool) {
	if x.partial {
		return nil, x, false
	}
	var cand [][]item
	for i, p := range x.paths {
		ok := true
		for _, l := range x.conds[i] {
			if l.atom == "zero:"+x.idx {
				if n, c := x.from.constant(); c && (n == 0) != l.pos {
					ok = false
				}
			}
		}
		if ok {
			cand = append(cand, s.substItems(p, x.idx, x.from))
		}
	}
	if len(cand) == 0 {
		return nil, x, false
	}
	k := itemsString(cand[0])
	for _, p := range cand[1:] {
		if itemsString(p) != k {
			return nil, x, false
		}
	}
	rest := x
	rest.from = x.from.add(pc(1))
	return cand[0], rest, true
}

func contradict(a, b pathCond) bool {
	for _, l := range a {
		for _, m := range b {
			if l.atom == m.atom && l.pos != m.pos {
				return true
			}
		}
	}
	return false
}

// match pairs placeholders with arguments in order.
func (s *stmtCheck) match(d, a []item, depth int, pair func(ph, arg item)) bool {
	for steps := 0; ; steps++ {
		if steps > 200 || depth > 20 {
			s.bad("placeholders and values cannot be related")
			return false
		}
		for len(d) > 0 && !d[0].one && len(d[0].size()) == 0 {
			d = d[1:]
		}
		for len(a) > 0 && !a[0].one && len(a[0].size()) == 0 {
			a = a[1:]
		}
		if len(d) == 0 && len(a) == 0 {
			return true
		}
		if len(d) == 0 {
			s.bad("values without a placeholder: %s", itemsString(a))
			return false
		}
		if len(a) == 0 {
			s.bad("placeholders without a value: %s", itemsString(d))
			return false
		}
		x, y := d[0], a[0]
		switch {
		case x.one && y.one:
			pair(x, y)
			d, a = d[1:], a[1:]
			continue
		case x.one:
			h, rest, ok := s.peel(y)
			if !ok {
				s.bad("%s is paired with %s", x, y)
				return false
			}
			a = append(append(append([]item{}, h...), rest), a[1:]...)
			continue
		case y.one:
			h, rest, ok := s.peel(x)
			if !ok {
				s.bad("%s is paired with %s", x, y)
				return false
			}
			d = append(append(append([]item{}, h...), rest), d[1:]...)
			continue
		}
		diff := x.size().sub(y.size())
		switch {
		case len(diff) == 0:
			if (x.partial || y.partial) && x.lp != y.lp && !sameLoop(x, y) {
				s.bad("two loops which may stop early are paired")
				return false
			}
			// the i-th iterations correspond
			shift := ps(x.idx).sub(x.from).add(y.from)
			for i, p := range x.paths {
				for j, q := range y.paths {
					if contradict(x.conds[i], y.conds[j]) {
						continue
					}
					qq := q
					if y.idx != x.idx || len(x.from.sub(y.from)) != 0 {
						qq = s.substItems(q, y.idx, shift)
					}
					if !s.match(p, qq, depth+1, pair) {
						return false
					}
				}
			}
			d, a = d[1:], a[1:]
		case !x.partial && !y.partial && (nonNegSyms(diff) && diff[""] >= 0 || isConstPos(diff)): // x is longer
			h, t := x, x
			h.to = x.from.add(y.size())
			t.from = h.to
			d = append([]item{h, t}, d[1:]...)
		case !x.partial && !y.partial && func() bool { n := poly{}.sub(diff); return nonNegSyms(n) && n[""] >= 0 || isConstPos(n) }():
			h, t := y, y
			h.to = y.from.add(x.size())
			t.from = h.to
			a = append([]item{h, t}, a[1:]...)
		default:
			s.bad("%s is paired with %s", x, y)
			return false
		}
	}
}

func isConstPos(p poly) bool { n, ok := p.constant(); return ok && n > 0 }

func sameLoop(x, y item) bool {
	if x.idx != y.idx || !x.from.eq(y.from) || !x.to.eq(y.to) || len(x.conds) != len(y.conds) {
		return false
	}
	for i := range x.conds {
		if x.conds[i].key() != y.conds[i].key() {
			return false
		}
	}
	return true
}
