package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// errEngine decides, path by path, what becomes of one error value: it follows
// the value through phis, cells, wrapping calls and helper functions until it
// is returned, reported, known to be nil, or lost.
type errEngine struct {
	L *Loaded
	// benign says that a condition which holds for the error makes it an
	// expected outcome (a classification such as os.IsNotExist).
	benignCall   func(callee string) bool
	benignGlobal func(g *ssa.Global) bool
	// reporter says the call reports the error handed to it.
	reporter func(call ssa.CallInstruction) bool
	// freshOK accepts another certainly non-nil error in place of the original.
	freshOK bool
	// onReturn inspects a return reached with the error known non-nil, or not
	// known to be nil; it returns a complaint or "".
	onReturn func(src ssa.CallInstruction, ret *ssa.Return, nonnil bool) string
	// fieldReported says errors stored in this field are reported later.
	fieldReported func(f *types.Var) bool
	// foldBool judges a function without error result which answers val (its
	// idx-th result) when the error occurred; it returns a complaint or "".
	foldBool func(fn *ssa.Function, idx int, val bool) string

	sums map[sumKey]*paramSum
}

type sumKey struct {
	fn  *ssa.Function
	idx int
}

// paramSum says what a function does with an error parameter.
type paramSum struct {
	busy     bool
	handled  bool // reported, panics or stored for reporting on every path where it is non-nil
	returned bool // returned (as an error) on every path where it is non-nil
}

type errProblem struct {
	pos token.Pos
	msg string
}

type errState struct {
	alias map[ssa.Value]bool
	cells map[ssa.Value]bool
	phis  map[*ssa.Phi]ssa.Value // what each boolean phi stands for on this path
	st    int                    // 0 unknown, 1 non-nil
}

func (s errState) clone() errState {
	n := errState{map[ssa.Value]bool{}, map[ssa.Value]bool{}, map[*ssa.Phi]ssa.Value{}, s.st}
	for k, v := range s.phis {
		n.phis[k] = v
	}
	for k := range s.alias {
		n.alias[k] = true
	}
	for k := range s.cells {
		n.cells[k] = true
	}
	return n
}

func (s errState) key(b, pred *ssa.BasicBlock) string {
	var n []string
	for k := range s.alias {
		n = append(n, k.Name())
	}
	for k := range s.cells {
		n = append(n, "*"+k.Name())
	}
	for k, v := range s.phis {
		n = append(n, k.Name()+"="+v.Name())
	}
	sort.Strings(n)
	p := -1
	if pred != nil {
		p = pred.Index
	}
	return fmt.Sprint(b.Index, " ", p, " ", s.st, " ", strings.Join(n, ","))
}

type errRun struct {
	e        *errEngine
	fn       *ssa.Function
	src      ssa.CallInstruction // nil when a parameter is followed
	srcVal   ssa.Value
	errIdx   int
	seen     map[string]bool
	problems []errProblem
	steps    int
	// summary facts
	retOK, retBad, handledAny bool
}

func (r *errRun) complain(p token.Pos, format string, a ...any) {
	r.problems = append(r.problems, errProblem{p, fmt.Sprintf(format, a...)})
}

// errIndex is the index of the error among the results of a call, or -1.
func errIndex(call ssa.CallInstruction) int {
	res := call.Common().Signature().Results()
	for i := res.Len() - 1; i >= 0; i-- {
		if isErrorType(res.At(i).Type()) {
			return i
		}
	}
	return -1
}

// follow explores every path from the source call.
func (e *errEngine) follow(fn *ssa.Function, call ssa.CallInstruction) []errProblem {
	r := &errRun{e: e, fn: fn, src: call, seen: map[string]bool{}, errIdx: errIndex(call)}
	if v, ok := call.(ssa.Value); ok {
		r.srcVal = v
	} else {
		return nil // go and defer have no result
	}
	st := errState{map[ssa.Value]bool{}, map[ssa.Value]bool{}, map[*ssa.Phi]ssa.Value{}, 0}
	if call.Common().Signature().Results().Len() == 1 {
		st.alias[r.srcVal] = true
	}
	b := call.Block()
	for i, ins := range b.Instrs {
		if ins == ssa.Instruction(call) {
			r.walk(b, i+1, nil, st)
			break
		}
	}
	return r.problems
}

// followParam computes what fn does with its idx-th parameter (an error).
func (e *errEngine) followParam(fn *ssa.Function, idx int) *paramSum {
	fn = origin(fn)
	if e.sums == nil {
		e.sums = map[sumKey]*paramSum{}
	}
	k := sumKey{fn, idx}
	if s, ok := e.sums[k]; ok {
		return s
	}
	s := &paramSum{busy: true}
	e.sums[k] = s
	if fn == nil || fn.Blocks == nil || idx >= len(fn.Params) {
		return s
	}
	r := &errRun{e: e, fn: fn, seen: map[string]bool{}, srcVal: fn.Params[idx], errIdx: -1}
	st := errState{map[ssa.Value]bool{fn.Params[idx]: true}, map[ssa.Value]bool{}, map[*ssa.Phi]ssa.Value{}, 1}
	r.walk(fn.Blocks[0], 0, nil, st)
	s.busy = false
	s.returned = len(r.problems) == 0 && r.retOK
	s.handled = len(r.problems) == 0 && !r.retOK
	return s
}

func (r *errRun) sourceProblems() []errProblem { return r.problems }

func (r *errRun) walk(b *ssa.BasicBlock, idx int, pred *ssa.BasicBlock, st errState) {
	if idx == 0 {
		k := st.key(b, pred)
		if r.seen[k] {
			return
		}
		r.seen[k] = true
		if r.steps++; r.steps > 20000 {
			if r.steps == 20001 {
				r.complain(b.Instrs[0].Pos(), "too many paths to follow the error")
			}
			return
		}
		// phis read their operands simultaneously
		pi := -1
		for i, p := range b.Preds {
			if p == pred {
				pi = i
			}
		}
		type upd struct {
			v ssa.Value
			a bool
		}
		var us []upd
		for _, ins := range b.Instrs {
			ph, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			if pi >= 0 {
				us = append(us, upd{ph, st.alias[ph.Edges[pi]]})
				if bt, ok := ph.Type().Underlying().(*types.Basic); ok && bt.Kind() == types.Bool {
					st.phis[ph] = ph.Edges[pi]
				}
			}
		}
		for _, u := range us {
			if u.a {
				st.alias[u.v] = true
			} else {
				delete(st.alias, u.v)
			}
		}
	}
	for i := idx; i < len(b.Instrs); i++ {
		switch ins := b.Instrs[i].(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.Extract:
			if ins.Tuple == r.srcVal && r.src != nil && ins.Index == r.errIdx {
				st.alias[ins] = true
			}
		case *ssa.ChangeInterface:
			if st.alias[ins.X] {
				st.alias[ins] = true
			}
		case *ssa.MakeInterface:
			if st.alias[ins.X] {
				st.alias[ins] = true
			}
		case *ssa.ChangeType:
			if st.alias[ins.X] {
				st.alias[ins] = true
			}
		case *ssa.TypeAssert:
			// errors.As style narrowing: still the same error
			if st.alias[ins.X] && !ins.CommaOk && isErrorType(ins.AssertedType) {
				st.alias[ins] = true
			}
		case *ssa.UnOp:
			if ins.Op == token.MUL {
				if st.cells[ins.X] {
					st.alias[ins] = true
				} else {
					delete(st.alias, ins)
				}
			}
		case *ssa.Store:
			if st.alias[ins.Val] {
				switch a := ins.Addr.(type) {
				case *ssa.Alloc, *ssa.FreeVar:
					st.cells[ins.Addr] = true
				case *ssa.IndexAddr:
					// varargs array: remember the array
					st.cells[a.X] = true
				case *ssa.FieldAddr:
					if f := fieldVar(a); f != nil && r.e.fieldReported != nil && r.e.fieldReported(f) {
						r.handledAny = true
						return
					}
					st.cells[ins.Addr] = true
				}
			} else {
				switch ins.Addr.(type) {
				case *ssa.Alloc, *ssa.FreeVar:
					delete(st.cells, ins.Addr)
				}
			}
		case *ssa.Slice:
			if st.cells[ins.X] || st.alias[ins.X] {
				st.alias[ins] = true
			}
		case *ssa.MapUpdate:
		case *ssa.Call:
			if r.src != nil && ssa.Instruction(ins) == ssa.Instruction(r.src) {
				r.complain(r.src.Pos(), "the error is overwritten by the next iteration before anything looked at it")
				return
			}
			if r.call(ins, &st) {
				return
			}
		case *ssa.Defer, *ssa.Go:
		case *ssa.Panic:
			return
		case *ssa.Return:
			r.ret(ins, st)
			return
		case *ssa.If:
			r.branch(b, ins, st)
			return
		case *ssa.Jump:
			r.walk(b.Succs[0], 0, b, st.clone())
			return
		}
	}
}

// call applies a call to the state; true stops the path (error dealt with).
func (r *errRun) call(c *ssa.Call, st *errState) bool {
	name := callName(c)
	var argIdx []int
	args := c.Call.Args
	for i, a := range args {
		if st.alias[a] {
			argIdx = append(argIdx, i)
		}
	}
	if bi, ok := c.Call.Value.(*ssa.Builtin); ok {
		if bi.Name() == "append" && len(argIdx) > 0 {
			st.alias[c] = true
		}
		return false
	}
	if name == "os.Exit" {
		if k, ok := args[0].(*ssa.Const); ok && k.Value != nil && constant.Sign(k.Value) != 0 {
			return true
		}
		if st.st == 1 {
			r.complain(c.Pos(), "the process exits successfully although the error occurred")
		}
		return true
	}
	if strings.HasPrefix(name, "log.Fatal") || strings.HasPrefix(name, "log.Panic") || strings.HasPrefix(name, "(log.Logger).Fatal") {
		return true
	}
	if len(argIdx) == 0 {
		// a closure called or created with captured cells is not followed
		return false
	}
	if r.e.reporter != nil && r.e.reporter(c) {
		r.handledAny = true
		return true
	}
	switch name {
	case "errors.Is", "errors.As", "os.IsNotExist", "os.IsExist", "os.IsPermission":
		return false // decided at the branch
	}
	if fn := callee(c); fn != nil && fn.Blocks != nil && strings.HasPrefix(pkgOf(fn), modPath) {
		for _, i := range argIdx {
			s := r.e.followParam(fn, i)
			if s.handled {
				r.handledAny = true
				// non-nil: dealt with; nil: continues, with nothing left to do
				return true
			}
			if s.returned && errIndex(c) >= 0 {
				st.alias[c] = true
			}
		}
		return false
	}
	if c.Call.Signature().Results().Len() == 1 && isErrorType(c.Call.Signature().Results().At(0).Type()) {
		st.alias[c] = true // wrapping: fmt.Errorf, errors.Join, fmt.Errorf("%w")
	}
	return false
}

func (r *errRun) branch(b *ssa.BasicBlock, ins *ssa.If, st errState) {
	cond, neg := ins.Cond, false
	for i := 0; i < 20; i++ {
		if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
			cond, neg = u.X, !neg
			continue
		}
		// a condition computed before, as in the cases of a switch
		if ph, ok := cond.(*ssa.Phi); ok {
			if v, known := st.phis[ph]; known {
				cond = v
				continue
			}
		}
		break
	}
	t, f := b.Succs[0], b.Succs[1]
	if neg {
		t, f = f, t
	}
	if k, ok := cond.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Bool {
		if !constant.BoolVal(k.Value) {
			t = f
		}
		r.walk(t, 0, b, st.clone())
		return
	}
	if bo, ok := cond.(*ssa.BinOp); ok && (bo.Op == token.EQL || bo.Op == token.NEQ) {
		x, y := bo.X, bo.Y
		if st.alias[y] {
			x, y = y, x
		}
		if st.alias[x] {
			if k, ok := y.(*ssa.Const); ok && k.Value == nil {
				nilSide, nnSide := t, f
				if bo.Op == token.NEQ {
					nilSide, nnSide = f, t
				}
				_ = nilSide // the error is nil there: nothing to follow
				n := st.clone()
				n.st = 1
				r.walk(nnSide, 0, b, n)
				return
			}
			// comparison with a sentinel
			eqSide, neSide := t, f
			if bo.Op == token.NEQ {
				eqSide, neSide = f, t
			}
			if g := globalOf(y); g != nil && r.e.benignGlobal != nil && r.e.benignGlobal(g) {
				r.handledAny = true
			} else {
				n := st.clone()
				n.st = 1
				r.walk(eqSide, 0, b, n)
			}
			r.walk(neSide, 0, b, st.clone())
			return
		}
	}
	if c, ok := cond.(*ssa.Call); ok {
		uses := false
		for _, a := range c.Call.Args {
			if st.alias[a] {
				uses = true
			}
		}
		if uses {
			name := callName(c)
			switch name {
			case "errors.Is", "errors.As", "os.IsNotExist", "os.IsExist", "os.IsPermission":
				benign := r.e.benignCall != nil && r.e.benignCall(name)
				if name == "errors.Is" && len(c.Call.Args) == 2 && r.e.benignGlobal != nil {
					if g := globalOf(c.Call.Args[1]); g != nil {
						benign = r.e.benignGlobal(g)
					}
				}
				if benign {
					r.handledAny = true
				} else {
					n := st.clone()
					n.st = 1
					r.walk(t, 0, b, n)
				}
				r.walk(f, 0, b, st.clone())
				return
			}
		}
	}
	r.walk(b.Succs[0], 0, b, st.clone())
	r.walk(b.Succs[1], 0, b, st.clone())
}

func globalOf(v ssa.Value) *ssa.Global {
	switch v := v.(type) {
	case *ssa.UnOp:
		if g, ok := v.X.(*ssa.Global); ok && v.Op == token.MUL {
			return g
		}
	case *ssa.Global:
		return v
	case *ssa.ChangeInterface:
		return globalOf(v.X)
	case *ssa.MakeInterface:
		return globalOf(v.X)
	}
	return nil
}

func (r *errRun) ret(ret *ssa.Return, st errState) {
	ok := false
	fresh := false
	has := false
	for _, v := range ret.Results {
		if isErrorType(v.Type()) {
			has = true
			if st.alias[v] {
				ok = true
			}
			if rv := resultValue(v); freshError(rv) && !r.e.benignValue(rv) {
				fresh = true
			}
		}
	}
	if ok || (fresh && r.e.freshOK) {
		r.retOK = true
		if r.e.onReturn != nil && r.src != nil {
			if m := r.e.onReturn(r.src, ret, st.st == 1); m != "" {
				r.complain(ret.Pos(), "%s", m)
			}
		}
		return
	}
	if !has && r.e.foldBool != nil && len(ret.Results) > 0 {
		for i, v := range ret.Results {
			if val, known := r.boolAt(v, st, 0); known {
				if m := r.e.foldBool(r.fn, i, val); m == "" {
					r.retOK = true
					return
				} else {
					r.retBad = true
					r.complain(ret.Pos(), "%s", m)
					return
				}
			}
		}
	}
	r.retBad = true
	what := "the error may be non-nil here and is not returned"
	if st.st == 1 {
		what = "the error is non-nil here and is not returned"
	}
	if !has {
		what = "the function ends without the error having been reported"
	} else if fresh {
		what += " (a different error replaces it)"
	}
	p := ret.Pos()
	if !p.IsValid() {
		p = r.fn.Pos()
	}
	r.complain(p, "%s", what)
}

// boolAt evaluates a boolean where the error is known to have occurred.
func (r *errRun) boolAt(v ssa.Value, st errState, depth int) (bool, bool) {
	if depth > 10 {
		return false, false
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.Bool {
			return constant.BoolVal(x.Value), true
		}
	case *ssa.Phi:
		if e, ok := st.phis[x]; ok {
			return r.boolAt(e, st, depth+1)
		}
	case *ssa.UnOp:
		if x.Op == token.NOT {
			b, ok := r.boolAt(x.X, st, depth+1)
			return !b, ok
		}
	case *ssa.BinOp:
		if k, ok := x.Y.(*ssa.Const); ok && k.Value == nil && st.alias[x.X] && (x.Op == token.EQL || x.Op == token.NEQ) {
			return x.Op == token.NEQ, true
		}
	case *ssa.Call:
		for _, a := range x.Call.Args {
			if st.alias[a] && r.e.benignCall != nil && (r.e.benignCall(callName(x)) || callName(x) == "errors.Is") {
				return false, true
			}
		}
	}
	return false, false
}

// benignValue says the error value is, or wraps, one that stands for an
// expected outcome.
func (e *errEngine) benignValue(v ssa.Value) bool {
	if e.benignGlobal == nil {
		return false
	}
	if g := globalOf(v); g != nil {
		return e.benignGlobal(g)
	}
	if c, ok := v.(*ssa.Call); ok {
		for _, a := range c.Call.Args {
			if s, ok := a.(*ssa.Slice); ok {
				if refs := s.X.Referrers(); refs != nil {
					for _, r := range *refs {
						if ia, ok := r.(*ssa.IndexAddr); ok {
							for _, r2 := range *ia.Referrers() {
								if st, ok := r2.(*ssa.Store); ok && e.benignValue(st.Val) {
									return true
								}
							}
						}
					}
				}
			}
		}
	}
	return false
}

// freshError says v is certainly a non-nil error made on the spot.
func freshError(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.Call:
		switch callName(v) {
		case "fmt.Errorf", "errors.New":
			return true
		}
	case *ssa.MakeInterface:
		return true
	case *ssa.UnOp:
		if g, ok := v.X.(*ssa.Global); ok && v.Op == token.MUL {
			return isErrorType(types.NewPointer(g.Type()).Elem().(*types.Pointer).Elem())
		}
	}
	return false
}

func fieldVar(a *ssa.FieldAddr) *types.Var {
	t := a.X.Type().Underlying()
	if p, ok := t.(*types.Pointer); ok {
		if s, ok := p.Elem().Underlying().(*types.Struct); ok && a.Field < s.NumFields() {
			return s.Field(a.Field)
		}
	}
	return nil
}

// nonNilAt says the error value is certainly non-nil in block b, because b is
// only reached through the true side of a nil test of it.
func nonNilAt(v ssa.Value, b *ssa.BasicBlock) bool {
	if freshError(v) {
		return true
	}
	if c, ok := v.(*ssa.Call); ok {
		// wrapped: non-nil when its operand is
		if callName(c) == "errors.Join" {
			return false
		}
	}
	refs := v.Referrers()
	if refs == nil {
		return false
	}
	for _, ref := range *refs {
		bo, ok := ref.(*ssa.BinOp)
		if !ok || (bo.Op != token.NEQ && bo.Op != token.EQL) {
			continue
		}
		k, ok := bo.Y.(*ssa.Const)
		if !ok || k.Value != nil {
			continue
		}
		for _, r2 := range *bo.Referrers() {
			if i, ok := r2.(*ssa.If); ok {
				s := i.Block().Succs[0]
				if bo.Op == token.EQL {
					s = i.Block().Succs[1]
				}
				if len(s.Preds) == 1 && s.Dominates(b) {
					return true
				}
			}
		}
	}
	return false
}

// resultValue looks through the result cell a function with deferred calls
// stores into just before it returns.
func resultValue(v ssa.Value) ssa.Value {
	for n := 0; n < 8; n++ {
		u, ok := v.(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			return v
		}
		al, ok := u.X.(*ssa.Alloc)
		if !ok {
			return v
		}
		b := u.Block()
		idx := -1
		for i, ins := range b.Instrs {
			if ins == ssa.Instruction(u) {
				idx = i
			}
		}
		var found ssa.Value
		for hops := 0; found == nil && hops < 20; hops++ {
			for i := idx - 1; i >= 0 && found == nil; i-- {
				if s, ok := b.Instrs[i].(*ssa.Store); ok && s.Addr == al {
					found = s.Val
				}
			}
			if found != nil || len(b.Preds) != 1 {
				break
			}
			b = b.Preds[0]
			idx = len(b.Instrs)
		}
		if found == nil {
			return v
		}
		v = found
	}
	return v
}
