package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P08", "typestate analysis (SSA, path-sensitive, interprocedural summaries) of every object taken from a sync.Pool in the runtime library, the generator and the expanded helper templates: at most one release on every path (deferred releases included), no use, return, store or capture of a released object, and an emptying Reset that clears every field before every Put", checkP08)
}

func isPoolCall(c ssa.CallInstruction, name string) bool {
	return fullName(calleeObj(c)) == "(sync.Pool)."+name
}

// object operations on a deferred list, run in reverse order at return
const (
	opUse = iota + 1
	opRelease
	opReset
	opPut // a release by Pool.Put itself
)

type poolEff struct {
	may, must bool // releases the object
	clean     bool // every path that puts the object into the pool emptied it before
	problems  []errProblem
}

type poolAnalysis struct {
	c      *Ctx
	l      *Loaded
	memo   map[ssa.Value]*poolEff // parameter or free variable -> effect
	resets map[*ssa.Function]int  // 1 empties, 2 does not
	acq    map[*ssa.Function]bool // returns an object of a pool
}

type poolClient struct {
	a        *poolAnalysis
	releases int
	exits    int
	relExits int
	dirty    bool
	putSeen  bool
	returned bool // the object itself is handed to the caller
	label    string
}

// n[0] released, n[1] deferred operations (base 8), n[2] 1=emptied, n[3] 1=escaped

func (p *poolClient) held(v ssa.Value, st *tsState) bool {
	if st.alias[v] {
		return true
	}
	if m, ok := v.(*ssa.MakeClosure); ok {
		for _, b := range m.Bindings {
			if st.cells[b] || st.alias[b] {
				return true
			}
		}
	}
	return false
}

// effect of a call on the object: the operation, whether it empties.
func (p *poolClient) effect(w *tsWalk, c ssa.CallInstruction, st *tsState) (op int, put bool) {
	cc := c.Common()
	if isPoolCall(c, "Put") && len(cc.Args) > 1 && st.alias[cc.Args[1]] {
		return opRelease, true
	}
	op = 0
	recvAlias := false
	if cc.IsInvoke() {
		recvAlias = st.alias[cc.Value]
	} else if len(cc.Args) > 0 && cc.Signature().Recv() != nil {
		recvAlias = st.alias[cc.Args[0]]
	}
	if recvAlias {
		if f := callee(c); f != nil && p.a.empties(f) {
			return opReset, false
		}
		op = opUse
	}
	if m, body := closureOf(cc.Value); body != nil && m != nil {
		for i, b := range m.Bindings {
			if st.cells[b] || st.alias[b] {
				op = opUse
				e := p.a.effect(body, body.FreeVars[i], st.cells[b])
				p.a.fold(w, e)
				if e.may {
					return opRelease, false
				}
			}
		}
	}
	if f := callee(c); f != nil && f.Blocks != nil {
		for i, a := range cc.Args {
			if st.alias[a] && i < len(f.Params) {
				op = opUse
				if p.a.inScope(f) {
					e := p.a.effect(f, f.Params[i], false)
					if e.may {
						// what it puts back as it got it has to be empty before
						return opRelease, !e.clean
					}
				}
			}
		}
	}
	for _, a := range cc.Args {
		if p.held(a, st) && op == 0 {
			op = opUse
		}
	}
	return op, false
}

func (a *poolAnalysis) fold(w *tsWalk, e *poolEff) {
	w.problems = append(w.problems, e.problems...)
	e.problems = nil
}

func (p *poolClient) apply(w *tsWalk, pos token.Pos, op int, put bool, st *tsState, how string) bool {
	switch op {
	case opUse, opReset:
		if st.n[0] > 0 {
			w.complain(pos, "is used%s after it was given back to the pool", how)
			return true
		}
		if op == opReset {
			st.n[2] = 1
		} else {
			st.n[2] = 0
		}
	case opRelease:
		if st.n[0] > 0 {
			w.complain(pos, "is given back%s to the pool a second time", how)
			return true
		}
		if st.n[3] > 0 {
			w.complain(pos, "is given back%s to the pool although it is still reachable elsewhere", how)
			return true
		}
		if put {
			p.putSeen = true
			if st.n[2] == 0 {
				p.dirty = true
			}
		}
		st.n[0] = 1
	}
	return false
}

func (p *poolClient) instr(w *tsWalk, ins ssa.Instruction, st *tsState) bool {
	if ins == w.src { // a loop takes the next object
		return true
	}
	switch ins := ins.(type) {
	case *ssa.Defer:
		op, put := p.effect(w, ins, st)
		if put {
			op = opPut
		}
		if op != 0 && st.n[1] < 1<<12 {
			st.n[1] = st.n[1]*8 + op
		}
		return false
	case *ssa.Go:
		op, _ := p.effect(w, ins, st)
		if op != 0 {
			if st.n[0] > 0 {
				w.complain(ins.Pos(), "is used by a goroutine after it was given back to the pool")
				return true
			}
			st.n[3] = 1
		}
		return false
	case *ssa.Call:
		op, put := p.effect(w, ins, st)
		if op == 0 {
			return false
		}
		return p.apply(w, ins.Pos(), op, put, st, "")
	case *ssa.Store:
		if p.held(ins.Val, st) {
			switch ins.Addr.(type) {
			case *ssa.Alloc, *ssa.FreeVar:
				// a closure that captures the object and is stored in a local
				if !st.alias[ins.Val] {
					return false
				}
				if _, ok := ins.Addr.(*ssa.FreeVar); ok {
					st.n[3] = 1
				}
				return false
			case *ssa.IndexAddr:
				// variadic argument array
				if al, ok := ins.Addr.(*ssa.IndexAddr).X.(*ssa.Alloc); ok && al.Comment == "varargs" {
					if st.n[0] > 0 {
						w.complain(ins.Pos(), "is used after it was given back to the pool")
						return true
					}
					return false
				}
			}
			st.n[3] = 1
			if st.n[0] > 0 {
				w.complain(ins.Pos(), "is stored after it was given back to the pool")
				return true
			}
		}
		if _, ok := ins.Addr.(*ssa.FieldAddr); ok {
			if st.alias[ins.Addr.(*ssa.FieldAddr).X] {
				st.n[2] = 0
			}
		}
	case *ssa.Send:
		if p.held(ins.X, st) {
			st.n[3] = 1
		}
	case *ssa.MapUpdate:
		if p.held(ins.Value, st) || p.held(ins.Key, st) {
			st.n[3] = 1
		}
	case *ssa.FieldAddr:
		if st.alias[ins.X] && st.n[0] > 0 {
			w.complain(ins.Pos(), "is used after it was given back to the pool")
			return true
		}
	case *ssa.UnOp:
		if ins.Op == token.MUL && st.alias[ins.X] && st.n[0] > 0 {
			w.complain(ins.Pos(), "is read after it was given back to the pool")
			return true
		}
	}
	return false
}

func (p *poolClient) ret(w *tsWalk, ret *ssa.Return, st *tsState) {
	p.exits++
	direct := false
	for _, r := range ret.Results {
		v := r
		if st.alias[v] {
			direct = true
		}
		if mi, ok := v.(*ssa.MakeInterface); ok {
			v = mi.X
		}
		if ct, ok := v.(*ssa.ChangeType); ok {
			v = ct.X
		}
		if u, ok := v.(*ssa.UnOp); ok && st.cells[u.X] {
			direct = true
		}
		if _, ok := v.(*ssa.MakeClosure); ok && p.held(v, st) {
			st.n[3] = 1
		}
	}
	if direct {
		if st.n[0] > 0 {
			w.complain(retPos(w.fn, ret), "is returned although it was given back to the pool")
			return
		}
		st.n[3] = 1
		p.returned = true
	}
	if st.n[3] > 0 && st.n[0] > 0 {
		w.complain(retPos(w.fn, ret), "stays reachable after it was given back to the pool")
		return
	}
	for n := st.n[1]; n > 0; n /= 8 {
		op, put := n%8, false
		if op == opPut {
			op, put = opRelease, true
		}
		if p.apply(w, retPos(w.fn, ret), op, put, st, " (deferred)") {
			return
		}
	}
	if st.n[0] > 0 {
		p.relExits++
	}
}

func (p *poolClient) edge(w *tsWalk, i *ssa.If, taken bool, st *tsState) bool { return true }

// effect summarises what a function does to the object in a parameter or
// captured variable.
func (a *poolAnalysis) effect(fn *ssa.Function, v ssa.Value, cell bool) *poolEff {
	if e, ok := a.memo[v]; ok {
		return e
	}
	e := &poolEff{}
	a.memo[v] = e
	if fn.Blocks == nil {
		return e
	}
	p := &poolClient{a: a}
	w := &tsWalk{fn: fn, srcVal: v, valIdx: -1, errIdx: -1, c: p, seen: map[string]bool{}}
	st := newTS()
	if cell {
		st.cells[v] = true
	} else {
		st.alias[v] = true
	}
	w.walk(fn.Blocks[0], 0, nil, st)
	e.may = p.relExits > 0
	e.must = p.relExits == p.exits && p.exits > 0
	e.clean = !p.dirty
	e.problems = w.problems
	return e
}

func (a *poolAnalysis) inScope(f *ssa.Function) bool {
	return strings.HasPrefix(pkgOf(f), modPath)
}

// empties says the method leaves every field of its receiver at its zero value
// on every path.
func (a *poolAnalysis) empties(f *ssa.Function) bool {
	switch fullName(methodObj(f)) {
	case "(strings.Builder).Reset", "(bytes.Buffer).Reset":
		return true
	}
	if !a.inScope(f) || f.Blocks == nil || f.Signature.Recv() == nil || len(f.Params) == 0 {
		return false
	}
	if r, ok := a.resets[f]; ok {
		return r == 1
	}
	a.resets[f] = 2
	if len(a.unreset(f)) == 0 {
		a.resets[f] = 1
	}
	return a.resets[f] == 1
}

func methodObj(f *ssa.Function) *types.Func {
	if o, ok := origin(f).Object().(*types.Func); ok {
		return o
	}
	return nil
}

// unreset lists the fields a Reset method may leave as they were.
func (a *poolAnalysis) unreset(f *ssa.Function) []string {
	recv := f.Params[0]
	st, ok := deref(recv.Type()).Underlying().(*types.Struct)
	if !ok {
		return []string{"(not a struct)"}
	}
	var rets []*ssa.BasicBlock
	for _, b := range f.Blocks {
		if len(b.Instrs) > 0 {
			if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				rets = append(rets, b)
			}
		}
	}
	every := func(b *ssa.BasicBlock) bool {
		for _, r := range rets {
			if !b.Dominates(r) {
				return false
			}
		}
		return true
	}
	// last effect per field in program order of dominating instructions
	clean := make([]bool, st.NumFields())
	mark := func(addr ssa.Value, ok bool) {
		if addr == recv {
			for i := range clean {
				clean[i] = ok
			}
			return
		}
		if fa, isF := addr.(*ssa.FieldAddr); isF && fa.X == recv {
			clean[fa.Field] = ok
		}
	}
	for _, b := range f.DomPreorder() {
		dom := every(b)
		for _, ins := range b.Instrs {
			switch ins := ins.(type) {
			case *ssa.Store:
				z := isZeroValue(ins.Val)
				if z && !dom {
					continue
				}
				mark(ins.Addr, z)
			case *ssa.Call:
				cc := ins.Common()
				if cc.IsInvoke() {
					continue
				}
				if g := callee(ins); g != nil && len(cc.Args) > 0 && cc.Signature().Recv() != nil && (g != f) {
					if cc.Args[0] == recv || isFieldOf(cc.Args[0], recv) {
						if a.empties(g) {
							if dom {
								mark(cc.Args[0], true)
							}
						} else if !readOnlyName(g.Name()) {
							mark(cc.Args[0], false)
						}
					}
				}
			}
		}
	}
	var left []string
	for i, ok := range clean {
		if !ok {
			left = append(left, st.Field(i).Name())
		}
	}
	return left
}

func readOnlyName(n string) bool { return n == "Len" || n == "Cap" || n == "String" }

func isFieldOf(v, recv ssa.Value) bool {
	fa, ok := v.(*ssa.FieldAddr)
	return ok && fa.X == recv
}

func checkP08(c *Ctx) {
	a := &poolAnalysis{c: c, l: c.L, memo: map[ssa.Value]*poolEff{}, resets: map[*ssa.Function]int{}, acq: map[*ssa.Function]bool{}}
	fns := c.L.funcsIn(seqPath, genPath, compPath, virtPath)
	// sources: Pool.Get, then every function that hands such an object on
	type src struct {
		fn   *ssa.Function
		call *ssa.Call
	}
	done := map[*ssa.Call]bool{}
	getTypes := map[string]map[string]bool{}
	putTypes := map[string]map[string]bool{}
	for changed := true; changed; {
		changed = false
		var srcs []src
		for _, fn := range fns {
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					call, ok := ins.(*ssa.Call)
					if !ok || done[call] {
						continue
					}
					if isPoolCall(call, "Get") || callee(call) != nil && a.acq[callee(call)] {
						done[call] = true
						srcs = append(srcs, src{fn, call})
					}
				}
			}
		}
		for _, s := range srcs {
			changed = true
			p := &poolClient{a: a}
			w := &tsWalk{fn: s.fn, src: s.call, srcVal: s.call, valIdx: -1, errIdx: -1, c: p}
			w.start()
			if p.returned {
				a.acq[s.fn] = true
			}
			c.Analysed(fname(s.fn))
			c.report(w.problems, "pooled-object", fname(s.fn), s.call.Pos(), "the object taken from the pool is released at most once and not used afterwards")
			c.exposed(s.fn, s.call)
		}
	}
	// every Put is preceded by an emptying reset, or every Get is followed by one
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				call, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := call.Common()
				if isPoolCall(call, "Put") {
					poolName, v := poolOf(cc.Args[0]), cc.Args[1]
					if mi, ok := v.(*ssa.MakeInterface); ok {
						v = mi.X
					}
					add(putTypes, poolName, v.Type().String())
					roots := origins(v)
					ok := len(roots) > 0
					var why string
					for _, r := range roots {
						switch r := r.(type) {
						case *ssa.Parameter:
							e := a.effect(r.Parent(), r, false)
							if !e.clean && !a.cleanOnGet(fns, poolName) && !a.calledClean(r, 0) {
								ok, why = false, a.whyDirty(v.Type())
							}
						case *ssa.Alloc:
						default:
							// put back by the function that took it
							p := &poolClient{a: a}
							if in, isIns := r.(ssa.Instruction); isIns {
								w := &tsWalk{fn: fn, src: in, srcVal: r, valIdx: -1, errIdx: -1, c: p}
								w.start()
							}
							if p.dirty && !a.cleanOnGet(fns, poolName) {
								ok, why = false, a.whyDirty(v.Type())
							}
						}
					}
					c.Check(ok, "emptied", fname(fn), call.Pos(), "object is emptied before it goes back to pool %s%s", poolName, why)
				}
				if isPoolCall(call, "Get") {
					if v, ok := call.(*ssa.Call); ok {
						for _, ref := range *v.Referrers() {
							if ta, ok := ref.(*ssa.TypeAssert); ok {
								add(getTypes, poolOf(cc.Args[0]), ta.AssertedType.String())
							}
						}
					}
				}
			}
		}
		// the constructor of a pool makes a new object each time
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				st, ok := ins.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || !namedIs(deref(fa.X.Type()), "sync", "Pool") || fieldVar(fa) == nil || fieldVar(fa).Name() != "New" {
					continue
				}
				var body *ssa.Function
				if _, f := closureOf(st.Val); f != nil {
					body = f
				} else if f, ok := st.Val.(*ssa.Function); ok {
					body = f
				}
				fresh := body != nil
				if body != nil {
					for _, bb := range body.Blocks {
						if r, ok := bb.Instrs[len(bb.Instrs)-1].(*ssa.Return); ok && len(r.Results) == 1 {
							if !freshObject(r.Results[0]) {
								fresh = false
							}
						}
					}
				}
				c.Check(fresh, "new-object", pkgOf(fn)+"."+poolOf(fa.X), st.Pos(), "the pool's New function makes a new object on every call")
			}
		}
	}
	for v, e := range a.memo {
		if fn := v.Parent(); fn != nil && len(e.problems) > 0 {
			c.report(e.problems, "pooled-object", fname(fn)+"/"+v.Name(), v.Pos(), "the object is released at most once and not used afterwards")
		}
	}
	for pool, ts := range putTypes {
		for t := range ts {
			c.Check(getTypes[pool] == nil || getTypes[pool][t], "pool-type", pool+"/"+t, token.NoPos, "objects put into pool %s have the type that is taken out", pool)
		}
	}
	c.Min("pooled-object", 10)
	c.Min("emptied", 2)
	c.Min("new-object", 1)
}

func add(m map[string]map[string]bool, k, v string) {
	if m[k] == nil {
		m[k] = map[string]bool{}
	}
	m[k][v] = true
}

func poolOf(v ssa.Value) string {
	if g := rootGlobal(v); g != nil {
		return strings.TrimPrefix(g.Pkg.Pkg.Path(), modPath+"/") + "." + g.Name()
	}
	return v.Name()
}

func (a *poolAnalysis) whyDirty(t types.Type) string {
	n, ok := types.Unalias(deref(t)).(*types.Named)
	if !ok {
		return ""
	}
	for _, f := range a.l.funcs {
		if f.Name() == "Reset" && f.Signature.Recv() != nil && len(f.Params) > 0 && types.Identical(deref(f.Params[0].Type()), n) {
			if left := a.unreset(f); len(left) > 0 {
				return ": its Reset does not clear " + strings.Join(left, ", ")
			}
		}
	}
	return ": it is not reset on every path"
}

// calledClean: an unexported helper puts its argument back as it is, and every
// call of it (there is no other use of it) hands over an emptied object.
func (a *poolAnalysis) calledClean(prm *ssa.Parameter, depth int) bool {
	fn := prm.Parent()
	if depth > 3 || fn.Object() == nil || fn.Object().Exported() || fn.Signature.Recv() != nil {
		return false
	}
	idx := -1
	for i, q := range fn.Params {
		if q == prm {
			idx = i
		}
	}
	calls := 0
	for _, g := range a.l.funcs {
		for _, b := range g.Blocks {
			for _, ins := range b.Instrs {
				c, isCall := ins.(ssa.CallInstruction)
				if !isCall || callee(c) != fn {
					for _, op := range ins.Operands(nil) {
						if *op == ssa.Value(fn) {
							return false // kept as a value
						}
					}
					continue
				}
				calls++
				for _, r := range origins(c.Common().Args[idx]) {
					p := &poolClient{a: a}
					switch r := r.(type) {
					case *ssa.Parameter:
						if e := a.effect(r.Parent(), r, false); !e.clean && !a.calledClean(r, depth+1) {
							return false
						}
						continue
					case ssa.Instruction:
						w := &tsWalk{fn: g, src: r, srcVal: r.(ssa.Value), valIdx: -1, errIdx: -1, c: p}
						w.start()
					default:
						return false
					}
					if p.dirty {
						return false
					}
				}
			}
		}
	}
	return calls > 0
}

// cleanOnGet says every object taken out of the pool is emptied at once.
func (a *poolAnalysis) cleanOnGet(fns []*ssa.Function, pool string) bool {
	n := 0
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				call, ok := ins.(*ssa.Call)
				if !ok || !isPoolCall(call, "Get") || poolOf(call.Call.Args[0]) != pool {
					continue
				}
				n++
				reset := false
				for _, b2 := range fn.Blocks {
					for _, i2 := range b2.Instrs {
						c2, ok := i2.(*ssa.Call)
						if !ok || callee(c2) == nil || len(c2.Call.Args) == 0 || !a.empties(callee(c2)) {
							continue
						}
						for _, r := range origins(c2.Call.Args[0]) {
							if r == ssa.Value(call) && postdomAll(fn, b2) {
								reset = true
							}
						}
					}
				}
				if !reset {
					return false
				}
			}
		}
	}
	return n > 0
}

func postdomAll(fn *ssa.Function, b *ssa.BasicBlock) bool {
	for _, x := range fn.Blocks {
		if _, ok := x.Instrs[len(x.Instrs)-1].(*ssa.Return); ok && !b.Dominates(x) {
			return false
		}
	}
	return true
}

func freshObject(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.MakeInterface:
		return freshObject(v.X)
	case *ssa.ChangeType:
		return freshObject(v.X)
	case *ssa.Alloc:
		return v.Heap
	case *ssa.Phi:
		for _, e := range v.Edges {
			if !freshObject(e) {
				return false
			}
		}
		return true
	case *ssa.Call:
		f := callee(v)
		if f == nil {
			return false
		}
		if f.Blocks == nil {
			return strings.HasPrefix(f.Name(), "New")
		}
		for _, b := range f.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				if len(r.Results) != 1 || !freshObject(r.Results[0]) {
					return false
				}
			}
		}
		return true
	case *ssa.Const:
		return v.IsNil()
	}
	return false
}

// exposed flags memory of a pooled byte buffer that leaves the function: the
// next user of the buffer overwrites it.
func (c *Ctx) exposed(fn *ssa.Function, get *ssa.Call) {
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			call, ok := ins.(*ssa.Call)
			if !ok {
				continue
			}
			switch fullName(calleeObj(call)) {
			case "(bytes.Buffer).Bytes", "(bytes.Buffer).Next", "(bytes.Buffer).AvailableBuffer":
			default:
				continue
			}
			from := false
			for _, r := range origins(call.Call.Args[0]) {
				if r == ssa.Value(get) {
					from = true
				}
				if ta, ok := r.(*ssa.TypeAssert); ok && ta.X == ssa.Value(get) {
					from = true
				}
			}
			if !from {
				continue
			}
			ok = true
			for _, ref := range *call.Referrers() {
				switch ref := ref.(type) {
				case *ssa.Convert:
				case *ssa.Call:
					if n := ref.Call.Value.Name(); n != "Write" && n != "len" && !strings.HasPrefix(n, "Clone") {
						ok = false
					}
				default:
					ok = false
				}
			}
			c.Check(ok, "exposed-memory", fname(fn), call.Pos(), "memory of the pooled buffer is only read before the buffer is given back")
		}
	}
}
