package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"
)

// This file reads the abstract text of a generated Go file: it splits it into
// tokens whose words and literals may contain symbols, finds the functions in
// it, and turns expressions into abstract values.

type gtok struct {
	kind  byte // p punctuation, w word, s string literal, l loop, n new line, b undetermined
	s     string
	d     doc
	lp    *loopInfo
	paths [][]gtok
	raw   bool // literal in back quotes
}

type goLexer struct {
	out   []gtok
	word  doc
	inStr byte
	str   doc
	line  bool // in a comment
	block bool
	n     *int
}

func (x *goLexer) flush() {
	if len(x.word) > 0 {
		x.out = append(x.out, gtok{kind: 'w', d: x.word})
		x.word = nil
	}
}

func goTokens(d doc) []gtok {
	n := 0
	return goTokensN(d, &n)
}

func goTokensN(d doc, n *int) []gtok {
	x := &goLexer{n: n}
	x.doc(d)
	x.flush()
	if x.inStr != 0 {
		x.out = append(x.out, gtok{kind: 'b', s: "a literal is not closed"})
	}
	return x.out
}

func (x *goLexer) doc(d doc) {
	for _, p := range d {
		switch p.kind {
		case pLit:
			x.lit(p.s)
			continue
		case pHole:
			// a symbol for a constant text is read as that text
			if v, ok := p.v.(vStr); ok {
				x.doc(v.d)
				continue
			}
		}
		switch {
		case x.line || x.block:
		case x.inStr != 0:
			x.str = x.str.cat(doc{p})
		default:
			switch p.kind {
			case pHole, pNum:
				x.word = x.word.cat(doc{p})
			case pLoop:
				x.flush()
				t := gtok{kind: 'l', lp: p.lp}
				for _, q := range p.paths {
					t.paths = append(t.paths, goTokensN(q, x.n))
				}
				x.out = append(x.out, t)
			case pRep:
				x.flush()
				*x.n++
				lp := &loopInfo{idx: fmt.Sprintf("i$g%d", *x.n), to: p.p, from: poly{}, conds: []pathCond{nil}}
				x.out = append(x.out, gtok{kind: 'l', lp: lp, paths: [][]gtok{goTokensN(p.d, x.n)}})
			case pJoin:
				x.flush()
				x.join(p)
			default:
				x.flush()
				x.out = append(x.out, gtok{kind: 'b', s: "text that is not determined"})
			}
		}
	}
}

// join writes the elements of a joined list, each after the separator: the
// separators of Go code carry no meaning here.
func (x *goLexer) join(p piece) {
	var segs func(in []seg) []gtok
	segs = func(in []seg) []gtok {
		var out []gtok
		one := func(v val) []gtok {
			return append(goTokensN(lit(p.s), x.n), goTokensN(toDoc(v), x.n)...)
		}
		for _, s := range in {
			switch s.kind {
			case segOne:
				out = append(out, one(s.v)...)
			case segAll:
				*x.n++
				lp := &loopInfo{idx: fmt.Sprintf("i$g%d", *x.n), from: s.from, to: s.to, conds: []pathCond{nil}}
				out = append(out, gtok{kind: 'l', lp: lp, paths: [][]gtok{one(mkSym("elem", types.Typ[types.String], s.v, vInt{ps(lp.idx)}))}})
			case segLoop:
				t := gtok{kind: 'l', lp: s.lp}
				for _, q := range s.paths {
					t.paths = append(t.paths, segs(q))
				}
				out = append(out, t)
			default:
				out = append(out, gtok{kind: 'b', s: "a joined list is not determined"})
			}
		}
		return out
	}
	x.out = append(x.out, segs(p.list)...)
}

func (x *goLexer) lit(s string) {
	for i := 0; i < len(s); i++ {
		b := s[i]
		switch {
		case x.line:
			if b == '\n' {
				x.line = false
				x.out = append(x.out, gtok{kind: 'n'})
			}
		case x.block:
			if b == '*' && i+1 < len(s) && s[i+1] == '/' {
				x.block = false
				i++
			}
		case x.inStr != 0:
			if b == x.inStr {
				t := gtok{kind: 's', d: x.str, raw: b == '`'}
				x.out = append(x.out, t)
				x.inStr, x.str = 0, nil
				continue
			}
			if b == '\\' && x.inStr == '"' && i+1 < len(s) {
				if u, err := strconv.Unquote(`"` + s[i:i+2] + `"`); err == nil {
					x.str = x.str.cat(lit(u))
					i++
					continue
				}
				if s[i+1] == '"' {
					x.str = x.str.cat(lit(`"`))
					i++
					continue
				}
			}
			x.str = x.str.cat(lit(string(b)))
		case b == '"' || b == '`':
			x.flush()
			x.inStr = b
		case b == '/' && i+1 < len(s) && s[i+1] == '/':
			x.flush()
			x.line = true
		case b == '/' && i+1 < len(s) && s[i+1] == '*':
			x.flush()
			x.block = true
		case b == '\n':
			x.flush()
			x.out = append(x.out, gtok{kind: 'n'})
		case b == ' ' || b == '\t' || b == '\r':
			x.flush()
		case isWordByte(b) || b == '.':
			x.word = x.word.cat(lit(string(b)))
		default:
			x.flush()
			x.out = append(x.out, gtok{kind: 'p', s: string(b)})
		}
	}
}

func (t gtok) key() string {
	switch t.kind {
	case 'p':
		return t.s
	case 'w':
		if s, ok := t.d.constString(); ok {
			return s
		}
		return t.d.key()
	case 's':
		return "\"" + t.d.key() + "\""
	case 'l':
		var n []string
		for i, p := range t.paths {
			n = append(n, t.lp.conds[i].key()+"->"+gkey(p))
		}
		return "for " + t.lp.idx + "=" + t.lp.from.String() + ".." + t.lp.to.String() + "{" + strings.Join(n, ";") + "}"
	case 'n':
		return ""
	}
	return "?" + t.s
}

func gkey(in []gtok) string {
	var n []string
	for _, t := range in {
		if t.kind != 'n' {
			n = append(n, t.key())
		}
	}
	return strings.Join(n, " ")
}

func (t gtok) isWord(s string) bool {
	if t.kind != 'w' {
		return false
	}
	w, ok := t.d.constString()
	return ok && w == s
}

func (t gtok) isPunct(s string) bool { return t.kind == 'p' && t.s == s }

// gfunc is one generated function.
type gfunc struct {
	name    string // the name when it is known, or its symbols
	nameDoc doc
	recv    []gtok
	params  []gtok
	results []gtok
	body    []gtok
	lp      *loopInfo // the loop which writes it
	cond    pathCond
}

// isPtr: the receiver is a pointer.
func (f *gfunc) isPtr() bool {
	for _, t := range f.recv {
		if t.isPunct("*") {
			return true
		}
	}
	return false
}

// findFuncs lists the functions of a file.
func findFuncs(in []gtok, lp *loopInfo, cond pathCond, out *[]*gfunc) {
	start := true
	for i := 0; i < len(in); i++ {
		t := in[i]
		switch {
		case t.kind == 'n':
			start = true
			continue
		case start && t.kind == 'l' && declares(t):
			for j, p := range t.paths {
				findFuncs(p, t.lp, t.lp.conds[j], out)
			}
			start = true
			continue
		case start && t.isWord("func"):
			j := i + 1
			at := true
			for j < len(in) {
				if in[j].kind == 'n' {
					at = true
				} else {
					if at && j > i+1 && (in[j].isWord("func") || in[j].isWord("type") || in[j].isWord("var") || in[j].isWord("const") && depthAt(in[i+1:j]) == 0 || in[j].kind == 'l' && declares(in[j])) {
						break
					}
					at = false
				}
				j++
			}
			if f := parseFunc(in[i+1 : j]); f != nil {
				f.lp, f.cond = lp, cond
				*out = append(*out, f)
			}
			i = j - 1
			start = true
			continue
		}
		start = false
	}
}

func depthAt(in []gtok) int {
	d := 0
	for _, t := range in {
		switch {
		case t.isPunct("{"):
			d++
		case t.isPunct("}"):
			d--
		}
	}
	return d
}

// declares: the loop writes whole declarations.
func declares(t gtok) bool {
	for _, p := range t.paths {
		start := true
		for _, x := range p {
			if x.kind == 'n' {
				start = true
				continue
			}
			if start && (x.isWord("func") || x.isWord("type")) {
				return true
			}
			if start && x.kind == 'l' && declares(x) {
				return true
			}
			start = false
		}
	}
	return false
}

// enclosed splits off a bracketed part.
func enclosed(in []gtok, open, cl string) (inner, rest []gtok, ok bool) {
	if len(in) == 0 || !in[0].isPunct(open) {
		return nil, in, false
	}
	d := 0
	for i, t := range in {
		if t.isPunct(open) {
			d++
		} else if t.isPunct(cl) {
			d--
			if d == 0 {
				return in[1:i], in[i+1:], true
			}
		}
	}
	return in[1:], nil, true
}

func noLines(in []gtok) []gtok {
	var out []gtok
	for _, t := range in {
		if t.kind == 'n' {
			continue
		}
		if t.kind == 'l' {
			ps := make([][]gtok, len(t.paths))
			for i := range t.paths {
				ps[i] = noLines(t.paths[i])
			}
			t.paths = ps
		}
		out = append(out, t)
	}
	return out
}

func parseFunc(in []gtok) *gfunc {
	in = noLines(in)
	f := &gfunc{}
	var ok bool
	if r, rest, is := enclosed(in, "(", ")"); is {
		f.recv, in = r, rest
	}
	if len(in) == 0 || in[0].kind != 'w' {
		return nil
	}
	f.nameDoc = in[0].d
	in = in[1:]
	if f.params, in, ok = enclosed(in, "(", ")"); !ok {
		return nil
	}
	d := 0
	for i, t := range in {
		switch {
		case t.isPunct("(") || t.isPunct("["):
			d++
		case t.isPunct(")") || t.isPunct("]"):
			d--
		case t.isPunct("{") && d == 0:
			f.results = in[:i]
			f.body = in[i+1:]
			if n := len(f.body); n > 0 && f.body[n-1].isPunct("}") {
				f.body = f.body[:n-1]
			}
			return f
		}
	}
	return nil
}

// splitTop splits at a separator outside brackets.
func splitTop(in []gtok, sep string) [][]gtok {
	var out [][]gtok
	var cur []gtok
	d := 0
	for _, t := range in {
		switch {
		case t.isPunct("(") || t.isPunct("[") || t.isPunct("{"):
			d++
		case t.isPunct(")") || t.isPunct("]") || t.isPunct("}"):
			d--
		}
		if d == 0 && t.isPunct(sep) {
			out = append(out, cur)
			cur = nil
			continue
		}
		cur = append(cur, t)
	}
	if len(cur) > 0 {
		out = append(out, cur)
	}
	return out
}

// elements reads the elements of a composite literal.
func elements(in []gtok) []seg {
	var out []seg
	for _, part := range splitTop(in, ",") {
		// loops stand beside elements: [x loop] is an element and a loop
		var cur []gtok
		end := func() {
			if len(cur) > 0 {
				out = append(out, seg{kind: segOne, v: goValue(cur)})
				cur = nil
			}
		}
		for _, t := range part {
			if t.kind == 'l' && depthOf(cur) == 0 {
				end()
				s := seg{kind: segLoop, lp: t.lp}
				for _, p := range t.paths {
					s.paths = append(s.paths, elements(p))
				}
				out = append(out, s)
				continue
			}
			cur = append(cur, t)
		}
		end()
	}
	return out
}

func depthOf(in []gtok) int {
	d := 0
	for _, t := range in {
		switch {
		case t.isPunct("(") || t.isPunct("[") || t.isPunct("{"):
			d++
		case t.isPunct(")") || t.isPunct("]") || t.isPunct("}"):
			d--
		}
	}
	return d
}

// fieldOf: the value is the field of something: .Field(c).
func fieldOf(v val, field string) (val, bool) {
	if s, ok := plainHole(v).(*sym); ok && s.op == "."+field && len(s.args) == 1 {
		return s.args[0], true
	}
	return nil, false
}

// nameOf: the text is the name of a column or table, quoted or not.
func nameOf(v val) (c val, quoted, ok bool) {
	if s, is := asSym(v, "quote", 1); is {
		c, ok = fieldOf(s.args[0], "Name")
		return c, true, ok
	}
	c, ok = fieldOf(v, "Name")
	return c, false, ok
}

// goValue recognises the expressions the generator writes for a column c:
// name(c), val(c), addr(c), pos(c).
func goValue(in []gtok) val {
	in = noLines(in)
	if len(in) == 1 {
		t := in[0]
		if len(t.d) == 1 {
			p := t.d[0]
			switch {
			case t.kind == 's' && p.kind == pHole:
				if c, q, ok := nameOf(p.v); ok {
					return mkSym("name", nil, c, vBool(q))
				}
			case t.kind == 'w' && p.kind == pHole:
				if s, ok := asSym(p.v, "write", 2); ok {
					if c, ok := pathOf(s, "v"); ok {
						return mkSym("val", nil, c)
					}
				}
				if s, ok := asSym(p.v, "read", 2); ok {
					if c, ok := pathOf(s, "&v"); ok {
						return mkSym("addr", nil, c)
					}
				}
				if c, ok := fieldOf(p.v, "Pos"); ok {
					return mkSym("pos", nil, c)
				}
			case t.kind == 'w' && p.kind == pNum:
				// .Pos(c) written as a number
				if len(p.p) == 1 {
					for m := range p.p {
						if strings.HasPrefix(m, ".Pos(") && p.p[m] == 1 {
							return mkSym("posnum", nil, vStr{lit(m)})
						}
					}
				}
				return vInt{p.p}
			}
		}
		if t.kind == 's' {
			return mkSym("gostr", nil, vStr{t.d})
		}
	}
	// v.NameValue()
	if len(in) == 3 && in[0].kind == 'w' && in[1].isPunct("(") && in[2].isPunct(")") {
		if d := in[0].d; len(d) == 3 && d[0].kind == pLit && d[0].s == "v." && d[1].kind == pHole && d[2].kind == pLit && d[2].s == "Value" {
			if c, ok := fieldOf(d[1].v, "GoName"); ok {
				return mkSym("val", nil, c)
			}
		}
	}
	return mkSym("go:"+gkey(in), nil)
}

// pathOf: the expression reads the whole field c of the receiver.
func pathOf(s *sym, prefix string) (val, bool) {
	pd := toDoc(s.args[0])
	if len(pd) != 2 || pd[0].kind != pLit || pd[0].s != prefix || pd[1].kind != pHole {
		return nil, false
	}
	c, ok := fieldOf(pd[1].v, "GoPath")
	if !ok {
		return nil, false
	}
	t, ok := fieldOf(s.args[1], "Type")
	return c, ok && t.key() == c.key()
}

// goText evaluates an expression which builds a text.
func goText(in []gtok, env map[string]poly) doc {
	var out doc
	var cur []gtok
	end := func() {
		if len(cur) == 0 {
			return
		}
		// strconv.Itoa(n), strconv.FormatInt(int64(n), 10)
		if p, ok := goNumberText(cur, env); ok {
			out = out.cat(doc{{kind: pNum, p: p}})
		} else if cur[0].isPunct("(") {
			inner, rest, _ := enclosed(cur, "(", ")")
			if len(rest) == 0 {
				out = out.cat(goText(inner, env))
			} else {
				out = out.cat(hole(mkSym("go:"+gkey(cur), nil)))
			}
		} else {
			out = out.cat(hole(mkSym("go:"+gkey(cur), nil)))
		}
		cur = nil
	}
	for _, t := range in {
		if depthOf(cur) > 0 {
			cur = append(cur, t)
			continue
		}
		switch {
		case t.isPunct("+"):
			end()
		case t.kind == 's':
			end()
			out = out.cat(t.d)
		case t.kind == 'l':
			end()
			p := piece{kind: pLoop, lp: t.lp}
			for _, q := range t.paths {
				p.paths = append(p.paths, goText(q, env))
			}
			out = append(out, p)
		default:
			cur = append(cur, t)
		}
	}
	end()
	return out
}

func goNumberText(in []gtok, env map[string]poly) (poly, bool) {
	if len(in) < 4 || in[0].kind != 'w' {
		return nil, false
	}
	f, _ := in[0].d.constString()
	inner, rest, ok := enclosed(in[1:], "(", ")")
	if !ok || len(rest) != 0 {
		return nil, false
	}
	switch f {
	case "strconv.Itoa":
		return goNumber(inner, env)
	case "strconv.FormatInt", "strconv.FormatUint":
		ps := splitTop(inner, ",")
		if len(ps) == 2 && len(ps[1]) == 1 && ps[1][0].isWord("10") {
			return goNumber(ps[0], env)
		}
	case "fmt.Sprint":
		return goNumber(inner, env)
	}
	return nil, false
}

// goNumber evaluates an integer expression of + - * and parentheses.
func goNumber(in []gtok, env map[string]poly) (poly, bool) {
	pos := 0
	var sum func() (poly, bool)
	atom := func() (poly, bool) {
		if pos >= len(in) {
			return nil, false
		}
		t := in[pos]
		if t.isPunct("(") {
			pos++
			p, ok := sum()
			if !ok || pos >= len(in) || !in[pos].isPunct(")") {
				return nil, false
			}
			pos++
			return p, true
		}
		if t.kind != 'w' {
			return nil, false
		}
		pos++
		if s, ok := t.d.constString(); ok {
			if n, err := strconv.ParseInt(s, 10, 64); err == nil {
				return pc(n), true
			}
			switch s {
			case "int", "int64", "uint64", "uint":
				if pos < len(in) && in[pos].isPunct("(") {
					pos++
					p, ok := sum()
					if !ok || pos >= len(in) || !in[pos].isPunct(")") {
						return nil, false
					}
					pos++
					return p, true
				}
			}
			p, ok := env[s]
			return p, ok
		}
		if len(t.d) == 1 && t.d[0].kind == pNum {
			return t.d[0].p, true
		}
		return nil, false
	}
	prod := func() (poly, bool) {
		p, ok := atom()
		for ok && pos < len(in) && in[pos].isPunct("*") {
			pos++
			var q poly
			if q, ok = atom(); ok {
				p = p.mul(q)
			}
		}
		return p, ok
	}
	sum = func() (poly, bool) {
		p, ok := prod()
		for ok && pos < len(in) && (in[pos].isPunct("+") || in[pos].isPunct("-")) {
			minus := in[pos].s == "-"
			pos++
			var q poly
			if q, ok = prod(); ok {
				if minus {
					p = p.sub(q)
				} else {
					p = p.add(q)
				}
			}
		}
		return p, ok
	}
	p, ok := sum()
	return p, ok && pos == len(in)
}
