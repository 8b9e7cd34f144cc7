package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("DBG", "dump", func(c *Ctx) {
		for _, m := range scanMethods(c.L) {
			a := newScanAnalysis(c.L)
			outs := a.run(m)
			fmt.Println("==", fname(m), a.undecided, a.selfSt, a.alias)
			var s []string
			for _, o := range outs {
				s = append(s, fmt.Sprintf("%s/%s/%s", o.kind, o.stored, o.err))
			}
			fmt.Println(strings.Join(s, " "))
		}
	})
	register("P01", "interval analysis (SSA) of every integer scanner, once per concrete destination type: the interval of the stored value, from the parser's bit size or the driver's int64 narrowed by the branches that dominate the store, must lie in the destination's range, and must cover every representable value", checkP01)
	register("P02", "abstract interpretation (SSA, tuples of driver kind x stored state x error) of every Scan method: for the nil kind every path ends with the destination set to its zero value and a nil error", checkP02)
	register("P03", "memory-sharing dataflow (SSA, interprocedural) in every Scan method: no value derived without a copy from the driver's byte slice is stored in the destination", checkP03)
	register("P04", "abstract interpretation of every Scan method: a nil-error return implies the destination was stored on that path, an error return implies it was not", checkP04)
	register("P05", "abstract interpretation of every Scan method per driver kind: required kinds have a successful path, foreign kinds only error paths, and no kind reaches a panic", checkP05)
}

type scanResult struct {
	name string
	fn   *ssa.Function
	a    *scanAnalysis
	outs []outcome
}

func scanResults(c *Ctx) []scanResult {
	var out []scanResult
	for _, m := range scanMethods(c.L) {
		a := newScanAnalysis(c.L)
		r := scanResult{fname(m), m, a, a.run(m)}
		c.Analysed(r.name)
		out = append(out, r)
		for _, u := range a.undecided {
			c.Bad("undecided", r.name, m.Pos(), "%s", u)
		}
		c.Check(len(r.outs) > 0, "outcomes", r.name, m.Pos(), "%d outcomes over %d functions", len(r.outs), len(a.funcs))
	}
	c.Min("outcomes", 34)
	return out
}

func checkP02(c *Ctx) {
	for _, r := range scanResults(c) {
		n := 0
		for _, o := range r.outs {
			if o.kind != "nil" {
				continue
			}
			n++
			c.Check(o.stored == stZero && o.err == "nil", "null-clears", r.name, o.pos, "NULL ends with destination %s and error %s", o.stored, o.err)
		}
		c.Check(n > 0, "null-path", r.name, r.fn.Pos(), "NULL has %d outcomes", n)
		for k, p := range r.a.selfSt {
			c.Bad("null-clears", r.name+" via "+k, p, "the scanner replaces its own reference to the destination instead of writing through it")
		}
		if p, ok := r.a.panics["nil"]; ok {
			c.Bad("null-clears", r.name, p, "NULL reaches a panic")
		}
	}
}

func checkP03(c *Ctx) {
	for _, r := range scanResults(c) {
		if len(r.a.alias) == 0 {
			c.OK("no-sharing", r.name, "no store of shared bytes in %d functions", len(r.a.funcs))
		}
		for k, p := range r.a.alias {
			c.Bad("no-sharing", r.name+" via "+k, p, "memory of the driver value is stored in the destination without a copy")
		}
	}
	c.Min("no-sharing", 34)
}

func checkP04(c *Ctx) {
	for _, r := range scanResults(c) {
		hasVal := map[string]bool{}
		for _, o := range r.outs {
			if o.err == "nil" && (o.stored == stVal || o.stored == stDel) {
				hasVal[o.kind] = true
			}
		}
		for _, o := range r.outs {
			k := r.name + " [" + o.kind + "]"
			switch {
			case o.err == "nil" && o.stored == stNone:
				c.Bad("all-or-nothing", k, o.pos, "success is reported but the destination was not written on this path")
			case o.err == "nil" && o.stored == stZero && o.kind != "nil" && !hasVal[o.kind]:
				c.Bad("all-or-nothing", k, o.pos, "success is reported but only the zero value is ever stored")
			case o.err == "err" && (o.stored == stVal || o.stored == stZero):
				c.Bad("all-or-nothing", k, o.pos, "an error is reported after the destination was modified (%s)", o.stored)
			default:
				c.OK("all-or-nothing", k, "%s/%s", o.stored, o.err)
			}
		}
		for k, p := range r.a.selfSt {
			c.Bad("all-or-nothing", r.name+" via "+k, p, "the scanner replaces its own reference to the destination")
		}
	}
	c.Min("all-or-nothing", 100)
}

// acceptance: per scanner type, the driver kinds that must succeed (req) and
// those that may (opt); every other kind must end in an error.
type acceptance struct{ req, opt string }

var acceptTable = map[string]acceptance{
	"encoding.signedIntScanner":   {"[]byte int64", "string"},
	"encoding.unsignedIntScanner": {"[]byte int64", "string"},
	"encoding.boolScanner":        {"bool int64 []byte string", ""},
	"encoding.float32Scanner":     {"float64 int64 []byte string", ""},
	"encoding.float64Scanner":     {"float64 int64 []byte string", ""},
	"encoding.strScanner":         {"string []byte bool int64 float64 time.Time", ""},
	"encoding.tsScanner":          {"time.Time string []byte int64", ""},
	"encoding.textScanner":        {"string []byte bool int64 float64 time.Time", ""},
	"encoding.addrOfPtr":          {"string []byte bool int64 float64 time.Time", ""},
	"encoding.jsonScanner":        {"string []byte", ""},
	"encoding.byteArrScanner":     {"string []byte", ""},
	"encoding.runeArrScanner":     {"string []byte", ""},
	"types.binaryUnmarshaler":     {"[]byte", "string"},
}

func checkP05(c *Ctx) {
	for _, r := range scanResults(c) {
		nm := strings.TrimSuffix(r.name, ".Scan")
		nm = strings.TrimPrefix(nm, "sequel/")
		acc, ok := acceptTable[nm]
		if !ok {
			if strings.HasSuffix(nm, "Slice") || strings.HasSuffix(nm, "Array") {
				acc, ok = acceptance{"[]byte string", ""}, true
			}
		}
		success := map[string]bool{}
		for _, o := range r.outs {
			if o.err == "nil" && o.stored != stNone {
				success[o.kind] = true
			}
		}
		// an array scanner may hold a zero-length value only on one path
		if !ok {
			// a scanner type this table does not know: it must accept something and reject foreign types
			n := 0
			for k := range success {
				if k != "nil" && k != "other" {
					n++
				}
			}
			c.Check(n > 0, "accepts", r.name, r.fn.Pos(), "an unlisted scanner accepts %d driver kinds", n)
		} else {
			for _, k := range strings.Fields(acc.req) {
				c.Check(success[k], "accepts", r.name+" ["+k+"]", r.fn.Pos(), "driver kind %s has a successful path", k)
			}
			allowed := " nil " + acc.req + " " + acc.opt + " "
			for _, k := range driverKinds {
				if !strings.Contains(allowed, " "+k+" ") && k != "other" {
					c.Check(!success[k], "rejects", r.name+" ["+k+"]", r.fn.Pos(), "driver kind %s, which is no form of this column type, is accepted", k)
				}
			}
		}
		for k := range success {
			if k == "other" {
				c.Bad("rejects", r.name+" [other]", r.fn.Pos(), "values of any type at all are accepted")
			}
		}
		// a kind that is neither stored nor refused is ignored
		for _, o := range r.outs {
			if o.kind != "nil" && o.err == "nil" && o.stored == stNone {
				c.Bad("rejects", r.name+" ["+o.kind+"]", o.pos, "driver kind %s is ignored: no error and nothing stored", o.kind)
			}
		}
		var ks []string
		for k := range r.a.panics {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		c.Check(len(ks) == 0, "no-panic", r.name, firstPos(r.a.panics), "driver kinds reaching a panic: %v", ks)
		for f := range r.a.options {
			c.optionDefault(r, f)
		}
	}
	c.Min("accepts", 90)
	c.Min("rejects", 100)
}

func firstPos(m map[string]token.Pos) token.Pos {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	if len(ks) == 0 {
		return token.NoPos
	}
	return m[ks[0]]
}

// optionDefault: a bool field the analysis assumed false really defaults to
// false in every constructor.
func (c *Ctx) optionDefault(r scanResult, field int) {
	recv := r.fn.Signature.Recv().Type()
	if p, ok := recv.(*types.Pointer); ok {
		recv = p.Elem()
	}
	named, ok := recv.(*types.Named)
	if !ok {
		return
	}
	for _, f := range c.L.funcsIn(seqPath) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || fa.Field != field {
					continue
				}
				n, ok := types.Unalias(fa.X.Type().Underlying().(*types.Pointer).Elem()).(*types.Named)
				if !ok || n.Origin() != named.Origin() {
					continue
				}
				c.Check(!constTrue(st.Val, 0), "default-lenient", fname(f), st.Pos(), "strict mode is off unless asked for")
			}
		}
	}
}

func constTrue(v ssa.Value, d int) bool {
	switch x := v.(type) {
	case *ssa.Const:
		return x.Value != nil && x.Value.ExactString() == "true"
	case *ssa.Phi:
		if d < 4 {
			for _, e := range x.Edges {
				if constTrue(e, d+1) {
					return true
				}
			}
		}
	case *ssa.UnOp:
		return x.Op == token.NOT
	}
	return false
}
