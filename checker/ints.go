package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Interval analysis of the integers a scanner stores (P01). Every Scan method
// of an integer destination is analysed once per concrete type its type
// parameter admits; the value stored is traced back to the driver value or the
// decimal parser, collecting the conversions on the way, and the interval of
// the traced value is refined by the branch conditions that hold at the store.

type ival struct{ lo, hi *big.Int } // nil,nil = empty

var (
	bi0 = big.NewInt(0)
	bi1 = big.NewInt(1)
)

func (a ival) empty() bool { return a.lo == nil || a.lo.Cmp(a.hi) > 0 }
func (a ival) in(b ival) bool {
	return a.empty() || (!b.empty() && a.lo.Cmp(b.lo) >= 0 && a.hi.Cmp(b.hi) <= 0)
}
func (a ival) meet(b ival) ival {
	if a.empty() || b.empty() {
		return ival{}
	}
	r := a
	if b.lo.Cmp(r.lo) > 0 {
		r.lo = b.lo
	}
	if b.hi.Cmp(r.hi) < 0 {
		r.hi = b.hi
	}
	if r.empty() {
		return ival{}
	}
	return r
}
func (a ival) join(b ival) ival {
	if a.empty() {
		return b
	}
	if b.empty() {
		return a
	}
	r := a
	if b.lo.Cmp(r.lo) < 0 {
		r.lo = b.lo
	}
	if b.hi.Cmp(r.hi) > 0 {
		r.hi = b.hi
	}
	return r
}
func (a ival) eq(b ival) bool {
	if a.empty() || b.empty() {
		return a.empty() == b.empty()
	}
	return a.lo.Cmp(b.lo) == 0 && a.hi.Cmp(b.hi) == 0
}
func (a ival) String() string {
	if a.empty() {
		return "[]"
	}
	return fmt.Sprintf("[%s, %s]", a.lo, a.hi)
}

func sRange(bits int) ival {
	h := new(big.Int).Lsh(bi1, uint(bits-1))
	return ival{new(big.Int).Neg(h), new(big.Int).Sub(h, bi1)}
}
func uRange(bits int) ival {
	h := new(big.Int).Lsh(bi1, uint(bits))
	return ival{bi0, new(big.Int).Sub(h, bi1)}
}

func kindRange(k types.BasicKind) (ival, bool) {
	switch k {
	case types.Int, types.Int64, types.UntypedInt:
		return sRange(64), true
	case types.Int8:
		return sRange(8), true
	case types.Int16:
		return sRange(16), true
	case types.Int32, types.UntypedRune:
		return sRange(32), true
	case types.Uint, types.Uint64, types.Uintptr:
		return uRange(64), true
	case types.Uint8:
		return uRange(8), true
	case types.Uint16:
		return uRange(16), true
	case types.Uint32:
		return uRange(32), true
	}
	return ival{}, false
}

// iact is one function activation in a concrete type context.
type iact struct {
	fn     *ssa.Function
	env    map[*types.TypeParam]types.Type
	parent *iact
	call   ssa.CallInstruction
	fields map[int]*big.Int // constant fields of the scanner struct (root only)
	root   *iact
	memo   map[string]map[*ssa.BasicBlock]ival
	depth  int
}

func (a *iact) typ(t types.Type) types.Type {
	if tp, ok := types.Unalias(t).(*types.TypeParam); ok {
		if u, ok := a.env[tp]; ok {
			return u
		}
	}
	return t
}

func (a *iact) rng(t types.Type) (ival, bool) {
	b, ok := a.typ(t).Underlying().(*types.Basic)
	if !ok {
		return ival{}, false
	}
	return kindRange(b.Kind())
}

func (a *iact) sub(call ssa.CallInstruction, cal *ssa.Function) *iact {
	n := &iact{fn: cal, parent: a, call: call, env: map[*types.TypeParam]types.Type{}, root: a.root, memo: map[string]map[*ssa.BasicBlock]ival{}, depth: a.depth + 1}
	if inst := call.Common().StaticCallee(); inst != nil {
		targs := inst.TypeArgs()
		for i := 0; i < len(targs); i++ {
			var tp *types.TypeParam
			if tps := cal.Signature.TypeParams(); tps != nil && i < tps.Len() {
				tp = tps.At(i)
			} else if tps := cal.Signature.RecvTypeParams(); tps != nil && i < tps.Len() {
				tp = tps.At(i)
			}
			if tp != nil {
				n.env[tp] = a.typ(targs[i])
			}
		}
	}
	// a type parameter constrained by ~[]T gets its element through its own core type
	return n
}

// ieval evaluates an integer expression to a constant in a context.
func (a *iact) ieval(v ssa.Value, d int) *big.Int {
	if d > 12 {
		return nil
	}
	wrap := func(r *big.Int, t types.Type) *big.Int {
		if r == nil {
			return nil
		}
		rg, ok := a.rng(t)
		if !ok {
			return nil
		}
		n := new(big.Int).Sub(rg.hi, rg.lo)
		n.Add(n, bi1)
		m := new(big.Int).Sub(r, rg.lo)
		m.Mod(m, n)
		return m.Add(m, rg.lo)
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			if _, ok := a.rng(x.Type()); ok {
				return bi0
			}
			return nil
		}
		if x.Value.Kind() != constant.Int {
			return nil
		}
		r, ok := new(big.Int).SetString(x.Value.ExactString(), 10)
		if !ok {
			return nil
		}
		return r
	case *ssa.Convert:
		return wrap(a.ieval(x.X, d+1), x.Type())
	case *ssa.MultiConvert:
		return wrap(a.ieval(x.X, d+1), x.Type())
	case *ssa.ChangeType:
		return wrap(a.ieval(x.X, d+1), x.Type())
	case *ssa.Parameter:
		if a.parent != nil {
			for i, p := range a.fn.Params {
				if p == x && i < len(a.call.Common().Args) {
					return a.parent.ieval(a.call.Common().Args[i], d+1)
				}
			}
		}
	case *ssa.Phi:
		var r *big.Int
		for i, e := range x.Edges {
			if !a.reachableEdge(x.Block().Preds[i], x.Block(), d) {
				continue
			}
			q := a.ieval(e, d+1)
			if q == nil || r != nil && r.Cmp(q) != 0 {
				return nil
			}
			r = q
		}
		return r
	case *ssa.UnOp:
		switch x.Op {
		case token.SUB:
			if q := a.ieval(x.X, d+1); q != nil {
				return wrap(new(big.Int).Neg(q), x.Type())
			}
		case token.XOR:
			if q := a.ieval(x.X, d+1); q != nil {
				return wrap(new(big.Int).Not(q), x.Type())
			}
		case token.MUL:
			switch y := x.X.(type) {
			case *ssa.Alloc:
				if allocNeverWritten(y, 0) {
					if _, ok := a.rng(x.Type()); ok {
						return bi0
					}
				}
				if st := singleStore(y); st != nil {
					return a.ieval(st.Val, d+1)
				}
			case *ssa.FieldAddr:
				return a.field(y.X, y.Field)
			}
		}
	case *ssa.Field:
		return a.field(x.X, x.Field)
	case *ssa.BinOp:
		l, r := a.ieval(x.X, d+1), a.ieval(x.Y, d+1)
		if l == nil || r == nil {
			return nil
		}
		q := new(big.Int)
		switch x.Op {
		case token.ADD:
			q.Add(l, r)
		case token.SUB:
			q.Sub(l, r)
		case token.MUL:
			q.Mul(l, r)
		case token.QUO:
			if r.Sign() == 0 {
				return nil
			}
			q.Quo(l, r)
		case token.SHL:
			if r.Sign() < 0 || r.Cmp(big.NewInt(200)) > 0 {
				return nil
			}
			q.Lsh(l, uint(r.Int64()))
		case token.SHR:
			if r.Sign() < 0 || r.Cmp(big.NewInt(200)) > 0 {
				return nil
			}
			q.Rsh(l, uint(r.Int64()))
		case token.AND:
			q.And(l, r)
		case token.OR:
			q.Or(l, r)
		case token.XOR:
			q.Xor(l, r)
		default:
			return nil
		}
		return wrap(q, x.Type())
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return a.evalCall(c, x.Index, d)
		}
	case *ssa.Call:
		if bi, ok := x.Common().Value.(*ssa.Builtin); ok && bi.Name() == "Sizeof" {
			if rg, ok := a.rng(x.Common().Args[0].Type()); ok {
				n := new(big.Int).Sub(rg.hi, rg.lo)
				return big.NewInt(int64(n.BitLen() / 8))
			}
			return nil
		}
		if callName(x) == "(reflect.Type).Bits" {
			if c, ok := x.Common().Value.(*ssa.Call); ok {
				switch callName(c) {
				case "reflect.TypeOf":
					if mi, ok := c.Common().Args[0].(*ssa.MakeInterface); ok {
						if rg, ok := a.rng(mi.X.Type()); ok {
							return big.NewInt(int64(new(big.Int).Sub(rg.hi, rg.lo).BitLen()))
						}
					}
				case "reflect.TypeFor":
					if inst := c.Common().StaticCallee(); inst != nil && len(inst.TypeArgs()) == 1 {
						if rg, ok := a.rng(inst.TypeArgs()[0]); ok {
							return big.NewInt(int64(new(big.Int).Sub(rg.hi, rg.lo).BitLen()))
						}
					}
				}
			}
			return nil
		}
		return a.evalCall(x, 0, d)
	}
	return nil
}

// evalCall: an in-repository helper all of whose reachable returns agree.
func (a *iact) evalCall(c *ssa.Call, idx, d int) *big.Int {
	cal := callee(c)
	if cal == nil || cal.Blocks == nil || !strings.HasPrefix(pkgOf(cal), modPath) || a.depth > 6 {
		return nil
	}
	s := a.sub(c, cal)
	var r *big.Int
	for _, b := range cal.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || idx >= len(ret.Results) || !s.reachable(b, d) {
			continue
		}
		q := s.ieval(ret.Results[idx], d+1)
		if q == nil || r != nil && r.Cmp(q) != 0 {
			return nil
		}
		r = q
	}
	return r
}

func (a *iact) field(x ssa.Value, f int) *big.Int {
	for a.parent != nil {
		p, ok := x.(*ssa.Parameter)
		if !ok {
			return nil
		}
		found := false
		for i, q := range a.fn.Params {
			if q == p && i < len(a.call.Common().Args) {
				x = a.call.Common().Args[i]
				found = true
				break
			}
		}
		if !found {
			return nil
		}
		a = a.parent
	}
	if len(a.fn.Params) > 0 && x == ssa.Value(a.fn.Params[0]) && a.fields != nil {
		return a.fields[f]
	}
	return nil
}

func singleStore(al *ssa.Alloc) *ssa.Store {
	var st *ssa.Store
	for _, r := range *al.Referrers() {
		if s, ok := r.(*ssa.Store); ok && s.Addr == ssa.Value(al) {
			if st != nil {
				return nil
			}
			st = s
		}
	}
	return st
}

// condConst: a branch condition that is constant in this context.
func (a *iact) condConst(c ssa.Value, d int) (val, ok bool) {
	switch x := c.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.Bool {
			return constant.BoolVal(x.Value), true
		}
	case *ssa.UnOp:
		if x.Op == token.NOT {
			v, ok := a.condConst(x.X, d+1)
			return !v, ok
		}
	case *ssa.BinOp:
		l, r := a.ieval(x.X, d+1), a.ieval(x.Y, d+1)
		if l != nil && r != nil {
			s := l.Cmp(r)
			switch x.Op {
			case token.EQL:
				return s == 0, true
			case token.NEQ:
				return s != 0, true
			case token.LSS:
				return s < 0, true
			case token.LEQ:
				return s <= 0, true
			case token.GTR:
				return s > 0, true
			case token.GEQ:
				return s >= 0, true
			}
		}
	case *ssa.Call:
		if cal := callee(x); cal != nil && cal.Blocks != nil && strings.HasPrefix(pkgOf(cal), modPath) && a.depth < 6 && d < 10 {
			s := a.sub(x, cal)
			first := true
			for _, b := range cal.Blocks {
				ret, isR := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
				if !isR || len(ret.Results) != 1 || !s.reachable(b, d+1) {
					continue
				}
				v, k := s.condConst(ret.Results[0], d+1)
				if !k || !first && v != val {
					return false, false
				}
				val, first = v, false
			}
			return val, !first
		}
	}
	return false, false
}

func (a *iact) reachableEdge(from, to *ssa.BasicBlock, d int) bool {
	if !a.reachable(from, d+1) {
		return false
	}
	if iff, ok := from.Instrs[len(from.Instrs)-1].(*ssa.If); ok {
		if v, ok := a.condConst(iff.Cond, d+1); ok {
			if v && from.Succs[0] != to || !v && from.Succs[1] != to {
				return false
			}
		}
	}
	return true
}

func (a *iact) reachable(b *ssa.BasicBlock, d int) bool {
	if d > 10 {
		return true
	}
	seen := map[*ssa.BasicBlock]bool{a.fn.Blocks[0]: true}
	work := []*ssa.BasicBlock{a.fn.Blocks[0]}
	for len(work) > 0 {
		c := work[0]
		work = work[1:]
		if c == b {
			return true
		}
		succs := c.Succs
		if iff, ok := c.Instrs[len(c.Instrs)-1].(*ssa.If); ok {
			if v, ok := a.condConst(iff.Cond, d+3); ok {
				if v {
					succs = succs[:1]
				} else {
					succs = succs[1:]
				}
			}
		}
		for _, s := range succs {
			if !seen[s] {
				seen[s] = true
				work = append(work, s)
			}
		}
	}
	return false
}

// strip removes conversions from v until base is met; types passed through.
func strip(v, base ssa.Value) (chain []types.Type, ok bool) {
	for i := 0; i < 8; i++ {
		if v == base {
			return chain, true
		}
		switch x := v.(type) {
		case *ssa.Convert:
			chain = append(chain, x.Type())
			v = x.X
		case *ssa.MultiConvert:
			chain = append(chain, x.Type())
			v = x.X
		case *ssa.ChangeType:
			chain = append(chain, x.Type())
			v = x.X
		case *ssa.UnOp:
			al, isAl := x.X.(*ssa.Alloc)
			if x.Op != token.MUL || !isAl {
				return nil, false
			}
			st := singleStore(al)
			if st == nil {
				return nil, false
			}
			v = st.Val
		default:
			return nil, false
		}
	}
	return nil, false
}

// assume narrows the interval cur of base by a branch condition.
func (a *iact) assumeI(cond ssa.Value, want bool, base ssa.Value, cur ival, d int) ival {
	if d > 8 || cur.empty() {
		return cur
	}
	if v, ok := a.condConst(cond, 0); ok && v != want {
		return ival{}
	}
	switch x := cond.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return a.assumeI(x.X, !want, base, cur, d+1)
		}
	case *ssa.Phi:
		in := a.blockIvals(base, cur, d+1)
		var r ival
		for i, e := range x.Edges {
			c := cur
			if p, ok := in[x.Block().Preds[i]]; ok {
				c = c.meet(a.edgeI(x.Block().Preds[i], x.Block(), base, p, d+1))
			}
			r = r.join(a.assumeI(e, want, base, c, d+1))
		}
		return r
	case *ssa.Call:
		return a.assumeCall(x, 0, want, base, cur, d)
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return a.assumeCall(c, x.Index, want, base, cur, d)
		}
	case *ssa.BinOp:
		op := x.Op
		if isNilConst(x.Y) && isErrorType(x.X.Type()) {
			// err == nil / err != nil of a range-checking helper
			if op == token.EQL || op == token.NEQ {
				isNil := (op == token.EQL) == want
				switch e := x.X.(type) {
				case *ssa.Call:
					return a.assumeCall(e, 0, isNil, base, cur, d)
				case *ssa.Extract:
					if c, ok := e.Tuple.(*ssa.Call); ok {
						return a.assumeCall(c, e.Index, isNil, base, cur, d)
					}
				}
			}
			return cur
		}
		if !want {
			n := map[token.Token]token.Token{token.EQL: token.NEQ, token.NEQ: token.EQL, token.LSS: token.GEQ, token.GEQ: token.LSS, token.GTR: token.LEQ, token.LEQ: token.GTR}
			if op = n[op]; op == token.ILLEGAL {
				return cur
			}
		}
		lc, lok := strip(x.X, base)
		rc, rok := strip(x.Y, base)
		switch {
		case lok && rok:
			if op != token.EQL {
				return cur
			}
			r := cur
			// equality of the value with its own conversion: it fits every
			// narrower type it passed through
			for _, ch := range [][]types.Type{lc, rc} {
				if len(lc) > 0 && len(rc) > 0 && len(ch) == len(lc) && len(lc) == len(rc) {
					break // both sides converted alike: nothing learnt
				}
				for _, t := range ch {
					rg, ok := a.rng(t)
					bg, ok2 := a.rng(base.Type())
					if !ok || !ok2 {
						continue
					}
					if new(big.Int).Sub(rg.hi, rg.lo).BitLen() < new(big.Int).Sub(bg.hi, bg.lo).BitLen() {
						r = r.meet(rg)
					}
				}
			}
			return r
		case lok:
			if k := a.ieval(x.Y, 0); k != nil && a.faithful(lc, cur) {
				return narrow(cur, op, k)
			}
		case rok:
			if k := a.ieval(x.X, 0); k != nil && a.faithful(rc, cur) {
				m := map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ}
				if o, ok := m[op]; ok {
					op = o
				}
				return narrow(cur, op, k)
			}
		}
	}
	return cur
}

// faithful: the conversions do not change any value of the interval.
func (a *iact) faithful(chain []types.Type, cur ival) bool {
	for _, t := range chain {
		rg, ok := a.rng(t)
		if !ok || !cur.in(rg) {
			return false
		}
	}
	return true
}

func narrow(cur ival, op token.Token, k *big.Int) ival {
	switch op {
	case token.EQL:
		return cur.meet(ival{k, k})
	case token.NEQ:
		if cur.lo.Cmp(k) == 0 {
			return ival{new(big.Int).Add(k, bi1), cur.hi}
		}
		if cur.hi.Cmp(k) == 0 {
			return ival{cur.lo, new(big.Int).Sub(k, bi1)}
		}
	case token.LSS:
		return cur.meet(ival{cur.lo, new(big.Int).Sub(k, bi1)})
	case token.LEQ:
		return cur.meet(ival{cur.lo, k})
	case token.GTR:
		return cur.meet(ival{new(big.Int).Add(k, bi1), cur.hi})
	case token.GEQ:
		return cur.meet(ival{k, cur.hi})
	}
	return cur
}

// assumeCall: a helper that was given the value returned true / a nil error.
func (a *iact) assumeCall(c *ssa.Call, idx int, want bool, base ssa.Value, cur ival, d int) ival {
	cal := callee(c)
	if cal == nil || cal.Blocks == nil || !strings.HasPrefix(pkgOf(cal), modPath) || a.depth > 6 {
		return cur
	}
	var par ssa.Value
	var ch []types.Type
	for i, v := range c.Common().Args {
		if cc, ok := strip(v, base); ok && i < len(cal.Params) {
			par, ch = cal.Params[i], cc
		}
	}
	if par == nil || !a.faithful(ch, cur) {
		return cur
	}
	s := a.sub(c, cal)
	in := s.blockIvals(par, cur, d+1)
	var r ival
	for _, b := range cal.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || idx >= len(ret.Results) {
			continue
		}
		iv, ok := in[b]
		if !ok {
			continue
		}
		res := ret.Results[idx]
		if isErrorType(res.Type()) {
			if errMayBe(res, want) {
				r = r.join(iv)
			}
			continue
		}
		r = r.join(s.assumeI(res, want, par, iv, d+1))
	}
	return r
}

// errMayBe: can this returned error be nil (or non-nil)?
func errMayBe(v ssa.Value, isNil bool) bool {
	switch x := v.(type) {
	case *ssa.Const:
		return isNil
	case *ssa.MakeInterface:
		return !isNil
	case *ssa.Call:
		switch callName(x) {
		case "fmt.Errorf", "errors.New":
			return !isNil
		}
		if cal := callee(x); cal != nil && cal.Blocks != nil && retErrClass(cal, 0) == "err" {
			return !isNil
		}
	case *ssa.UnOp:
		if _, ok := x.X.(*ssa.Global); ok {
			return !isNil
		}
	}
	return true
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

func (a *iact) edgeI(from, to *ssa.BasicBlock, base ssa.Value, cur ival, d int) ival {
	iff, ok := from.Instrs[len(from.Instrs)-1].(*ssa.If)
	if !ok || from.Succs[0] == from.Succs[1] {
		return cur
	}
	return a.assumeI(iff.Cond, from.Succs[0] == to, base, cur, d+1)
}

// blockIvals propagates the interval of one SSA value forward over the
// control-flow graph; a block absent from the result is unreachable with it.
func (a *iact) blockIvals(base ssa.Value, init ival, d int) map[*ssa.BasicBlock]ival {
	key := fmt.Sprintf("%p%s", base, init)
	if m, ok := a.memo[key]; ok {
		return m
	}
	start := a.fn.Blocks[0]
	if in, ok := base.(ssa.Instruction); ok && in.Parent() == a.fn {
		start = in.Block()
	}
	in := map[*ssa.BasicBlock]ival{start: init}
	a.memo[key] = in
	if d > 8 {
		for _, b := range a.fn.Blocks {
			in[b] = init
		}
		return in
	}
	work := []*ssa.BasicBlock{start}
	for n := 0; len(work) > 0 && n < 5000; n++ {
		b := work[0]
		work = work[1:]
		for _, s := range b.Succs {
			if s == start {
				continue
			}
			e := a.edgeI(b, s, base, in[b], d)
			if e.empty() {
				continue
			}
			old, had := in[s]
			nw := e
			if had {
				nw = old.join(e)
			}
			if !had || !nw.eq(old) {
				in[s] = nw
				work = append(work, s)
			}
		}
	}
	return in
}

// isrc is one origin of a stored value.
type isrc struct {
	kind string // text, driver, zero, bad
	e    ival
	why  string
	pos  token.Pos
	min  []types.Type
}

type intTrace struct {
	l       *Loaded
	narrows []string
	visited int
}

// trace finds where the value v, used in the given blocks, comes from.
func (tr *intTrace) trace(a *iact, v ssa.Value, ats []*ssa.BasicBlock, d int) []isrc {
	tr.visited++
	bad := func(why string) []isrc { return []isrc{{kind: "bad", why: why, pos: v.Pos()}} }
	if d > 25 {
		return bad("origin too deep")
	}
	live := false
	for _, b := range ats {
		if a.reachable(b, 0) {
			live = true
		}
	}
	if !live {
		return nil
	}
	refine := func(ss []isrc, base ssa.Value) []isrc {
		var out []isrc
		for _, s := range ss {
			if s.kind == "text" || s.kind == "driver" {
				m := a.blockIvals(base, s.e, 0)
				for _, b := range ats {
					if base.Parent() == a.fn {
						if iv, ok := m[b]; ok {
							s.e = s.e.meet(iv)
						} else {
							s.e = ival{}
						}
					}
				}
				if s.e.empty() {
					continue
				}
			}
			out = append(out, s)
		}
		return out
	}
	conv := func(x ssa.Value, to types.Type) []isrc {
		rg, ok := a.rng(to)
		ss := tr.trace(a, x, ats, d+1)
		if !ok {
			return bad("conversion to " + to.String())
		}
		if b, isB := a.typ(x.Type()).Underlying().(*types.Basic); !isB || b.Info()&types.IsInteger == 0 {
			return bad("conversion from " + x.Type().String() + " to an integer")
		}
		for i, s := range ss {
			if s.kind != "text" && s.kind != "driver" {
				continue
			}
			if !s.e.in(rg) {
				ss[i] = isrc{kind: "bad", why: fmt.Sprintf("a value in %s is converted to %s, which holds %s: it wraps around without an error", s.e, a.typ(to), rg), pos: v.Pos()}
			}
		}
		return ss
	}
	switch x := v.(type) {
	case *ssa.Const:
		if isZeroValue(x) {
			return []isrc{{kind: "zero"}}
		}
		return bad("a constant")
	case *ssa.Convert:
		return conv(x.X, x.Type())
	case *ssa.MultiConvert:
		return conv(x.X, x.Type())
	case *ssa.ChangeType:
		return conv(x.X, x.Type())
	case *ssa.Phi:
		var out []isrc
		for i, e := range x.Edges {
			if !a.reachableEdge(x.Block().Preds[i], x.Block(), 0) {
				continue
			}
			out = append(out, tr.trace(a, e, append([]*ssa.BasicBlock{x.Block().Preds[i]}, nil...), d+1)...)
		}
		return out
	case *ssa.Parameter:
		if a.parent == nil {
			return bad("an unbound parameter")
		}
		for i, p := range a.fn.Params {
			if p == x && i < len(a.call.Common().Args) {
				return refine(tr.trace(a.parent, a.call.Common().Args[i], []*ssa.BasicBlock{a.call.Block()}, d+1), x)
			}
		}
	case *ssa.Alloc:
		// address of a local that holds the value
		return tr.traceAlloc(a, x, ats, d)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if al, ok := x.X.(*ssa.Alloc); ok {
				return refine(tr.traceAlloc(a, al, append(ats, x.Block()), d), x)
			}
		}
		return bad("value computed by " + x.String())
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.TypeAssert:
			if rg, ok := a.rng(t.AssertedType); ok {
				return refine([]isrc{{kind: "driver", e: rg, pos: t.Pos()}}, x)
			}
		case *ssa.Call:
			if e := errResult(t); e != nil && !errHandled(e, ats) {
				return bad("the error of " + callName(t) + " is not checked before its value is stored")
			} else if e == nil && t.Common().Signature().Results().Len() > 1 && isErrorType(t.Common().Signature().Results().At(t.Common().Signature().Results().Len()-1).Type()) {
				return bad("the error of " + callName(t) + " is dropped")
			}
			return refine(tr.traceCall(a, t, x.Index, d), x)
		}
	case *ssa.TypeAssert:
		if rg, ok := a.rng(x.AssertedType); ok {
			return refine([]isrc{{kind: "driver", e: rg, pos: x.Pos()}}, x)
		}
	case *ssa.Call:
		return refine(tr.traceCall(a, x, 0, d), x)
	}
	return bad(fmt.Sprintf("value computed by %T %s, not the scanned value", v, v))
}

func (tr *intTrace) traceAlloc(a *iact, al *ssa.Alloc, ats []*ssa.BasicBlock, d int) []isrc {
	var out []isrc
	n := 0
	for _, r := range *al.Referrers() {
		if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(al) {
			n++
			// the guards at the use and at the store both hold
			out = append(out, tr.trace(a, st.Val, append(append([]*ssa.BasicBlock{}, ats...), st.Block()), d+1)...)
		}
	}
	if n == 0 {
		return []isrc{{kind: "zero"}}
	}
	return out
}

func (tr *intTrace) traceCall(a *iact, c *ssa.Call, idx, d int) []isrc {
	name := callName(c)
	args := c.Common().Args
	bad := func(why string) []isrc { return []isrc{{kind: "bad", why: why, pos: c.Pos()}} }
	switch name {
	case "strconv.ParseInt", "strconv.ParseUint":
		base, bits := a.ieval(args[1], 0), a.ieval(args[2], 0)
		if base == nil || base.Cmp(big.NewInt(10)) != 0 {
			return bad("text is not parsed in base 10")
		}
		if bits == nil {
			return bad("the bit size of the parser is not known")
		}
		n := int(bits.Int64())
		if n == 0 {
			n = 64
		}
		if n < 0 || n > 64 {
			return bad("invalid bit size")
		}
		if why := tr.wholeText(a, args[0], 0); why != "" {
			return bad(why)
		}
		if name == "strconv.ParseInt" {
			return []isrc{{kind: "text", e: sRange(n), pos: c.Pos()}}
		}
		return []isrc{{kind: "text", e: uRange(n), pos: c.Pos()}}
	case "strconv.Atoi":
		if why := tr.wholeText(a, args[0], 0); why != "" {
			return bad(why)
		}
		return []isrc{{kind: "text", e: sRange(64), pos: c.Pos()}}
	}
	cal := callee(c)
	if cal == nil || cal.Blocks == nil || !strings.HasPrefix(pkgOf(cal), modPath) || a.depth > 6 {
		return bad("result of " + name)
	}
	s := a.sub(c, cal)
	var out []isrc
	for _, b := range cal.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || idx >= len(ret.Results) || !s.reachable(b, 0) {
			continue
		}
		if last := ret.Results[len(ret.Results)-1]; isErrorType(last.Type()) && !errMayBe(last, true) {
			continue
		}
		if len(ret.Results) > 1 && isErrorType(ret.Results[len(ret.Results)-1].Type()) {
			// `return 0, err` on the path where err was found non-nil
			if errKnownNonNil(ret.Results[len(ret.Results)-1], b) {
				continue
			}
		}
		out = append(out, s.traceRet(tr, ret.Results[idx], b, d)...)
	}
	return out
}

func (s *iact) traceRet(tr *intTrace, v ssa.Value, b *ssa.BasicBlock, d int) []isrc {
	return tr.trace(s, v, []*ssa.BasicBlock{b}, d+1)
}

// errHandled: in one of the blocks the error is known nil, or it is returned
// together with the value.
func errHandled(e ssa.Value, ats []*ssa.BasicBlock) bool {
	for _, b := range ats {
		if errKnown(e, b, true) {
			return true
		}
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			for _, r := range ret.Results {
				if r == e {
					return true
				}
			}
		}
	}
	return false
}

// errKnownNonNil: block b is only reached when err != nil.
func errKnownNonNil(err ssa.Value, b *ssa.BasicBlock) bool { return errKnown(err, b, false) }

// errKnown: every path to b decided err == nil (or err != nil).
func errKnown(err ssa.Value, b *ssa.BasicBlock, isNil bool) bool {
	for c := b; c != nil; c = c.Idom() {
		if len(c.Preds) != 1 {
			continue
		}
		p := c.Preds[0]
		iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		cond, pol := iff.Cond, true
		for {
			n, ok := cond.(*ssa.UnOp)
			if !ok || n.Op != token.NOT {
				break
			}
			cond, pol = n.X, !pol
		}
		if bo, ok := cond.(*ssa.BinOp); ok && (bo.X == err && isNilConst(bo.Y) || bo.Y == err && isNilConst(bo.X)) {
			onTrue := (bo.Op == token.EQL) == isNil
			if bo.Op != token.EQL && bo.Op != token.NEQ {
				continue
			}
			if (p.Succs[0] == c) == (onTrue == pol) {
				return true
			}
		}
	}
	return false
}

// wholeText: the parsed text is the complete driver value or array element.
func (tr *intTrace) wholeText(a *iact, v ssa.Value, d int) string {
	if d > 12 {
		return ""
	}
	switch x := v.(type) {
	case *ssa.Call:
		if bi, ok := x.Common().Value.(*ssa.Builtin); ok {
			switch bi.Name() {
			case "String", "Slice":
				args := x.Common().Args
				src, ok := args[0].(*ssa.Call)
				ln, ok2 := args[1].(*ssa.Call)
				if !ok || !ok2 || len(src.Common().Args) != 1 || len(ln.Common().Args) != 1 || !sameVal(src.Common().Args[0], ln.Common().Args[0]) {
					return "the parsed text is not the whole value"
				}
				return tr.wholeText(a, src.Common().Args[0], d+1)
			}
		}
		switch callName(x) {
		case "strings.TrimSpace", "bytes.TrimSpace", "strings.Clone", "bytes.Clone":
			return tr.wholeText(a, x.Common().Args[0], d+1)
		}
		if cal := callee(x); cal != nil && cal.Blocks != nil && strings.HasPrefix(pkgOf(cal), modPath) && a.depth < 6 {
			s := a.sub(x, cal)
			for _, b := range cal.Blocks {
				if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(ret.Results) > 0 {
					if why := tr.wholeText(s, ret.Results[0], d+1); why != "" {
						return why
					}
				}
			}
			return ""
		}
		return "the parsed text is the result of " + callName(x)
	case *ssa.Slice:
		if x.Low == nil && x.High == nil {
			return tr.wholeText(a, x.X, d+1)
		}
		return "only a part of the text is parsed"
	case *ssa.Convert:
		return tr.wholeText(a, x.X, d+1)
	case *ssa.MultiConvert:
		return tr.wholeText(a, x.X, d+1)
	case *ssa.ChangeType:
		return tr.wholeText(a, x.X, d+1)
	case *ssa.BinOp:
		return "the parsed text is altered"
	case *ssa.Const:
		return "a constant is parsed"
	case *ssa.Parameter:
		if a.parent != nil {
			for i, p := range a.fn.Params {
				if p == x && i < len(a.call.Common().Args) {
					return tr.wholeText(a.parent, a.call.Common().Args[i], d+1)
				}
			}
		}
	}
	return ""
}

func sameVal(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	// two loads of one local variable
	x, ok1 := a.(*ssa.UnOp)
	y, ok2 := b.(*ssa.UnOp)
	return ok1 && ok2 && x.Op == token.MUL && y.Op == token.MUL && x.X == y.X
}

type intRoot struct {
	name string
	act  *iact
	dest types.Type
}

// intRoots enumerates (Scan method, concrete destination type) pairs.
func intRoots(c *Ctx) []intRoot {
	l := c.L
	var out []intRoot
	intSet := func(t types.Type) bool {
		ts := typeSet(t)
		for _, u := range ts {
			b, ok := u.Underlying().(*types.Basic)
			if !ok || b.Info()&types.IsInteger == 0 {
				return false
			}
		}
		return len(ts) > 0
	}
	for _, m := range scanMethods(l) {
		tps := m.Signature.RecvTypeParams()
		if tps == nil || tps.Len() == 0 || !intSet(tps.At(0)) {
			continue
		}
		recv := m.Signature.Recv().Type()
		if p, ok := recv.(*types.Pointer); ok {
			recv = p.Elem()
		}
		named := recv.(*types.Named)
		st, isStruct := named.Underlying().(*types.Struct)
		mk := func(t types.Type, fields map[int]*big.Int, label string) {
			a := &iact{fn: m, env: map[*types.TypeParam]types.Type{tps.At(0): t}, fields: fields, memo: map[string]map[*ssa.BasicBlock]ival{}}
			a.root = a
			out = append(out, intRoot{label, a, t})
		}
		if !isStruct {
			for _, t := range typeSet(tps.At(0)) {
				mk(t, nil, fmt.Sprintf("%s[%s]", fname(m), t))
			}
			continue
		}
		arr := false
		for i := 0; i < st.NumFields(); i++ {
			if _, ok := st.Field(i).Type().Underlying().(*types.Slice); ok {
				arr = true
			}
		}
		if arr {
			continue // fixed-size byte and rune arrays: not integer columns
		}
		ctors := l.scannerCtors(named.Origin())
		if len(ctors) == 0 {
			c.Bad("int-root", fname(m), m.Pos(), "no constructor of this scanner was found")
		}
		for _, k := range ctors {
			for _, t := range typeSet(k.targ) {
				mk(t, k.fields, fmt.Sprintf("%s[%s]", k.name, t))
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].name < out[j].name })
	return out
}

type ctorCtx struct {
	name   string
	targ   types.Type
	fields map[int]*big.Int
}

// scannerCtors finds where values of a scanner struct are built: the type
// argument and the constant fields, followed out to exported constructors.
func (l *Loaded) scannerCtors(named *types.Named) []ctorCtx {
	var out []ctorCtx
	for _, f := range l.funcsIn(seqPath) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				al, ok := in.(*ssa.Alloc)
				if !ok {
					continue
				}
				n, ok := types.Unalias(al.Type().(*types.Pointer).Elem()).(*types.Named)
				if !ok || n.Origin() != named || n.TypeArgs().Len() == 0 {
					continue
				}
				stores := map[int]ssa.Value{}
				for _, r := range *al.Referrers() {
					if fa, ok := r.(*ssa.FieldAddr); ok {
						for _, rr := range *fa.Referrers() {
							if st, ok := rr.(*ssa.Store); ok {
								stores[fa.Field] = st.Val
							}
						}
					}
				}
				for _, a := range l.callContexts(f, 0) {
					k := ctorCtx{name: fname(a.rootFn()), targ: a.typ(n.TypeArgs().At(0)), fields: map[int]*big.Int{}}
					for i, v := range stores {
						if q := a.ieval(v, 0); q != nil {
							k.fields[i] = q
						}
					}
					out = append(out, k)
				}
			}
		}
	}
	return out
}

func (a *iact) rootFn() *ssa.Function {
	for a.parent != nil {
		a = a.parent
	}
	return a.fn
}

// callContexts: the activations of an unexported helper, one per call chain
// from an exported function; an exported function is its own context.
func (l *Loaded) callContexts(f *ssa.Function, d int) []*iact {
	if d > 4 {
		return nil
	}
	if o := f.Object(); o != nil && o.Exported() || f.Parent() != nil {
		a := &iact{fn: f, env: map[*types.TypeParam]types.Type{}, memo: map[string]map[*ssa.BasicBlock]ival{}}
		a.root = a
		return []*iact{a}
	}
	var out []*iact
	for _, g := range l.funcsIn(seqPath) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if call, ok := in.(ssa.CallInstruction); ok && callee(call) == f {
					for _, p := range l.callContexts(g, d+1) {
						out = append(out, p.sub(call, f))
					}
				}
			}
		}
	}
	return out
}

// intStores walks the activations reachable from a root and yields every store
// of the destination's element type.
func (tr *intTrace) intStores(a *iact, seen map[*ssa.Function]bool, visit func(*iact, *ssa.Store)) {
	if a.depth > 6 {
		return
	}
	for _, b := range a.fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if _, isAl := x.Addr.(*ssa.Alloc); isAl {
					continue
				}
				t := x.Val.Type()
				if p, ok := t.Underlying().(*types.Pointer); ok {
					t = p.Elem()
				}
				if tp, ok := types.Unalias(t).(*types.TypeParam); ok {
					if u, ok := a.env[tp]; ok {
						if bb, ok := u.Underlying().(*types.Basic); ok && bb.Info()&types.IsInteger != 0 {
							visit(a, x)
						}
					}
				}
			case *ssa.Call:
				cal := callee(x)
				if cal == nil || cal.Blocks == nil || !strings.HasPrefix(pkgOf(cal), modPath) {
					continue
				}
				rec := false
				for p := a; p != nil; p = p.parent {
					if p.fn == cal {
						rec = true
					}
				}
				if !rec {
					tr.intStores(a.sub(x, cal), seen, visit)
				}
			}
		}
	}
}

func checkP01(c *Ctx) {
	for _, r := range intRoots(c) {
		c.Analysed(r.name)
		tr := &intTrace{l: c.L}
		kinds := map[string]bool{}
		var accepted = map[string]ival{}
		n := 0
		tr.intStores(r.act, nil, func(a *iact, st *ssa.Store) {
			if !a.reachable(st.Block(), 0) {
				return
			}
			tp := st.Val.Type()
			if p, ok := tp.Underlying().(*types.Pointer); ok {
				tp = p.Elem()
			}
			n++
			dest, _ := a.rng(tp)
			for _, s := range tr.trace(a, st.Val, []*ssa.BasicBlock{st.Block()}, 0) {
				switch s.kind {
				case "bad":
					pos := s.pos
					if !pos.IsValid() {
						pos = st.Pos()
					}
					c.Bad("int-exact", r.name, pos, "%s", s.why)
				case "text", "driver":
					kinds[s.kind] = true
					accepted[s.kind] = accepted[s.kind].join(s.e)
					c.Check(s.e.in(dest), "int-exact", r.name, s.pos, "value in %s stored in %s", s.e, dest)
				}
			}
		})
		c.Check(n > 0, "int-store", r.name, r.act.fn.Pos(), "%d destination stores traced", n)
		c.Check(kinds["text"], "int-source", r.name, r.act.fn.Pos(), "the text form reaches the destination")
		dest, _ := r.act.rng(r.dest)
		if e, ok := accepted["text"]; ok {
			c.Check(dest.in(e), "int-complete", r.name, r.act.fn.Pos(), "text values %s accepted of %s", e, dest)
		}
		if e, ok := accepted["driver"]; ok {
			c.Check(dest.meet(sRange(64)).in(e), "int-complete", r.name, r.act.fn.Pos(), "int64 values %s accepted of %s", e, dest)
		}
	}
	c.Min("int-store", 12)
	c.Min("int-exact", 20)
}
