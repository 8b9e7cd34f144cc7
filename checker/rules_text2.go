package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// elementTypes are the basic element types of a list type.
func elementTypes(n *types.Named) []types.Type {
	sl, ok := n.Underlying().(*types.Slice)
	if !ok {
		return nil
	}
	tp, ok := types.Unalias(sl.Elem()).(*types.TypeParam)
	if !ok {
		return []types.Type{sl.Elem()}
	}
	u, ok := tp.Constraint().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var out []types.Type
	for i := 0; i < u.NumEmbeddeds(); i++ {
		switch e := types.Unalias(u.EmbeddedType(i)).(type) {
		case *types.Union:
			for j := 0; j < e.Len(); j++ {
				out = append(out, e.Term(j).Type())
			}
		default:
			out = append(out, e)
		}
	}
	return out
}

// kindOf is how the elements of a list are spelled.
func kindOf(els []types.Type) string {
	kind := ""
	for _, e := range els {
		k := ""
		if isBytes(e) {
			k = "bytes"
		} else if b, ok := e.Underlying().(*types.Basic); ok {
			switch {
			case b.Info()&types.IsInteger != 0:
				k = "int"
			case b.Info()&types.IsFloat != 0:
				k = "float"
			case b.Info()&types.IsBoolean != 0:
				k = "bool"
			case b.Info()&types.IsString != 0:
				k = "text"
			}
		}
		if k == "" || kind != "" && k != kind {
			return ""
		}
		kind = k
	}
	return kind
}

// listText follows the elements of a list through its writer.
func listText(kind string) *tGrammar {
	g := anyText()
	if kind == "bool" {
		g.arcs[0][0].set = bytesOf("\x00\x01")
	}
	return g
}

type textRuns struct {
	l      *Loaded
	quoted map[string]map[string]token.Pos
	cut    map[string]map[string]token.Pos
	states int
}

func argKey(fn *ssa.Function, args []tv) string {
	k := fn.String()
	for _, a := range args {
		k += " " + a.k()
	}
	return k
}

// quote simulates a quoting function on every text.
func (r *textRuns) quote(fn *ssa.Function, args []tv) (map[string]token.Pos, bool) {
	k := argKey(fn, args)
	if p, ok := r.quoted[k]; ok {
		return p, len(p) == 0
	}
	t := newTextSim(r.l, anyText(), true)
	s := t.newState()
	cell := -1
	for i, a := range args {
		if _, ok := a.(tRef); ok {
			args[i] = tRef{cell: 0, hi: -1}
			s.heap[0] = []tv{tOut{}}
			s.nextC = 1
			cell = i
		}
	}
	t.atReturn = func(s *tState, rs []tv) string {
		if cell >= 0 {
			// what is in the builder of the caller
			for _, vs := range s.heap {
				if len(vs) == 1 {
					if o, ok := vs[0].(tOut); ok && o.phase == 3 {
						return ""
					}
				}
			}
			return "the text is not closed with a quote"
		}
		if len(rs) != 1 {
			return "it does not return the quoted text only"
		}
		if o, ok := rs[0].(tOut); !ok || o.phase != 3 {
			return "the text is not put in quotes"
		}
		return ""
	}
	t.run(fn, args, s)
	r.states += t.states
	if t.returns == 0 && len(t.problems) == 0 {
		t.problem(fn.Pos(), "it never returns")
	}
	r.quoted[k] = t.problems
	return t.problems, len(t.problems) == 0
}

// split simulates a splitting function on every text a writer produces.
func (r *textRuns) split(ls *listSpec, fn *ssa.Function, args []tv) map[string]token.Pos {
	chars := bytesOf("0123456789-+.eENaInf")
	switch ls.kind {
	case "int":
		chars = bytesOf("0123456789-")
	case "bool":
		chars = byteSet{}
		for _, sp := range ls.spell {
			chars = chars.or(bytesOf(sp))
		}
	}
	k := argKey(fn, args) + fmt.Sprintf(" %c%c%c %s %x", ls.open, ls.closing, ls.delim, ls.kind, chars)
	if p, ok := r.cut[k]; ok {
		return p
	}
	t := newTextSim(r.l, listGrammar(ls.open, ls.closing, ls.delim, ls.kind == "text" || ls.kind == "bytes", chars), false)
	t.atReturn = func(s *tState, rs []tv) string {
		if _, ok := rs[len(rs)-1].(tNil); !ok {
			return "a text that was written for a list is rejected"
		}
		if el, ok := rs[len(rs)-2].(tEls); !ok || el.rel != 0 || !t.g.final[s.g] {
			return "elements are missing from what is returned"
		}
		return ""
	}
	t.run(fn, args, t.newState())
	r.states += t.states
	if t.returns == 0 && len(t.problems) == 0 {
		t.problem(fn.Pos(), "it never returns")
	}
	r.cut[k] = t.problems
	return t.problems
}

func (r *textRuns) method(m *types.Func) *ssa.Function {
	if m == nil {
		return nil
	}
	fn := r.l.prog.FuncValue(m)
	if fn == nil || fn.Blocks == nil {
		return nil
	}
	return fn
}

func runList(c *Ctx, r *textRuns, lt listType) {
	els := elementTypes(lt.named)
	kind := kindOf(els)
	pos := lt.value.Pos()
	if kind == "" {
		c.Bad("list-writer", lt.name, pos, "the elements of the list are not known")
		return
	}
	ls := &listSpec{open: '[', closing: ']', delim: ',', kind: kind, elems: els, spell: map[byte]string{}}
	if strings.HasPrefix(lt.named.Obj().Pkg().Path(), pgtypePath) {
		ls.open, ls.closing = '{', '}'
	}
	ls.quote = r.quote
	ls.split = func(fn *ssa.Function, args []tv) map[string]token.Pos { return r.split(ls, fn, args) }
	w, rd := r.method(lt.value), r.method(lt.scan)
	if w == nil || rd == nil {
		c.Bad("list-writer", lt.name, pos, "the writer or the reader of the list is not in the source")
		return
	}
	add := func(t *textSim, rule string, fn *ssa.Function, bad map[string]token.Pos) {
		r.states += t.states
		if t.returns == 0 && len(bad) == 0 {
			bad["it never returns"] = fn.Pos()
		}
		for f := range t.fns {
			c.Analysed(fname(f))
		}
		if len(bad) == 0 {
			c.OK(rule, lt.name, "%s, %d states", fname(fn), t.states)
			return
		}
		for _, m := range sortedKeys(bad) {
			p := bad[m]
			if p == token.NoPos {
				p = fn.Pos()
			}
			c.Bad(rule, lt.name, p, "%s", m)
		}
	}
	// a nil list is NULL
	t := newTextSim(c.L, listText(kind), true)
	t.list = ls
	t.atReturn = func(s *tState, rs []tv) string {
		_, n1 := rs[0].(tNil)
		_, n2 := rs[1].(tNil)
		if !n1 || !n2 {
			return "a nil list is not written as NULL"
		}
		return ""
	}
	t.run(w, []tv{tNil{}}, t.newState())
	add(t, "nil-is-null", w, t.problems)

	// the list is written element by element
	t = newTextSim(c.L, listText(kind), true)
	t.list = ls
	t.atReturn = func(s *tState, rs []tv) string {
		if _, ok := rs[1].(tNil); !ok {
			return "a list is not written, an error is returned"
		}
		p := w.Pos()
		left := func(at int, what string) string {
			t.look(s, at, func(*tState) { t.problem(p, "%s", what) }, func(*tState) {})
			return ""
		}
		switch v := rs[0].(type) {
		case tOut:
			if v.phase != 3 {
				return "the list is not closed"
			}
			return left(v.at, "not all elements are written")
		case tConst:
			if v.s != string([]byte{ls.open, ls.closing}) {
				return fmt.Sprintf("%q is written for a list", v.s)
			}
			return left(0, "a list with elements is written as an empty list")
		case tBufRef:
			b := s.heap[v.cell][0].(tBuf)
			if b.first != int(ls.open) || !b.closed {
				return "the list is not put in its brackets"
			}
			return left(b.at, "not all elements are written")
		case tSlot:
			q := s.heap[v.cell][0].(tSeq)
			if v.ago >= 0 || !q.closed || q.o.phase != 2 && q.o.phase != 3 || q.ph && q.first != int(ls.open) || !q.ph && q.first >= 0 {
				return "the list is not put in its brackets"
			}
			return left(q.o.at, "not all elements are written")
		case tNil:
			return "a list which is not nil is written as NULL"
		}
		return "what is written for a list is not understood: " + rs[0].k()
	}
	t.run(w, []tv{tWin{0, endMark}}, t.newState())
	if kind == "text" && ls.quotes == 0 && len(t.problems) == 0 && t.returns == 0 {
		t.problem(w.Pos(), "the elements are not quoted")
	}
	add(t, "list-writer", w, t.problems)
	if kind == "bool" && len(ls.spell) != 2 && len(t.problems) == 0 {
		c.Bad("list-writer", lt.name, w.Pos(), "true and false are not both written")
		return
	}

	// and read back
	for _, src := range []types.Type{types.NewSlice(types.Typ[types.Byte]), types.Typ[types.String], nil} {
		t := newTextSim(c.L, listText(kind), false)
		t.list, t.loading = ls, true
		s := t.newState()
		s.heap[0] = []tv{tOld{}}
		s.nextC = 1
		var arg tv = tNil{}
		rule := "nil-is-null"
		if src != nil {
			arg, rule = tDyn{src, tSrc{}}, "list-reader"
		}
		t.atReturn = func(s *tState, rs []tv) string {
			if _, ok := rs[0].(tNil); !ok {
				if src == nil {
					return "NULL is rejected"
				}
				return "a text that was written for a list is rejected"
			}
			got := s.heap[0]
			if src == nil {
				if len(got) == 1 {
					if _, ok := got[0].(tNil); ok {
						return ""
					}
				}
				return "NULL does not make the list nil"
			}
			if len(got) == 1 {
				if d, ok := got[0].(tDstRef); ok {
					x := s.heap[d.cell][0].(tDst)
					t.look(s, x.at, func(*tState) { t.problem(rd.Pos(), "not all elements are kept") }, func(*tState) {})
					return ""
				}
			}
			return "what was read is not kept in the list"
		}
		t.recv = true
		t.run(rd, []tv{tRef{cell: 0, hi: -1}, arg}, s)
		add(t, rule, rd, t.problems)
	}
}

func checkP06(c *Ctx) {
	lists := c.L.listTypes()
	r := &textRuns{l: c.L, quoted: map[string]map[string]token.Pos{}, cut: map[string]map[string]token.Pos{}}
	for _, lt := range lists {
		runList(c, r, lt)
	}
	c.Min("list-writer", 20)
}
