package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P20", "typestate over SSA paths of the helper templates expanded per dialect: every *sql.Rows obtained is closed (directly, deferred, or by a helper that closes it) before each exit, and once Next has returned false no path reaches a successful return, a yield without error or another query before Err was consulted", checkP20)
	register("P21", "path-sensitive error flow (SSA) in the expanded helper templates: every error produced by a database call, row scan, key assignment, result inspection or helper is followed along every path until it is returned, yielded or known to be nil; results returned beside it are nil", checkP21)
	register("P26", "value-origin analysis (SSA) in the expanded helper templates: context and handle of every database call resolve, through closures, cells and helper parameters, to the caller's parameters; no context constructors, non-context calls, other handles, goroutines, or stores of either", checkP26)
}

func dbFuncs(l *Loaded) []*ssa.Function { return l.funcsIn(virtPath) }

// dname names a function of an expanded template with its dialect.
func dname(fn *ssa.Function) string {
	return strings.Replace(fname(fn), "zz_verif_", "", 1)
}

// namedIs reports whether t (pointers dropped) is the named type path.name.
func namedIs(t types.Type, path, name string) bool {
	t = types.Unalias(t)
	if p, ok := t.(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == path && n.Obj().Name() == name
}

func isRows(t types.Type) bool { return namedIs(t, "database/sql", "Rows") }

// yieldCall recognises a call of a function value given by the caller whose
// last parameter is an error: the iterator's way to report.
func yieldCall(c *ssa.Call) (errArg ssa.Value, ok bool) {
	if c.Call.IsInvoke() || c.Call.StaticCallee() != nil {
		return nil, false
	}
	if _, isB := c.Call.Value.(*ssa.Builtin); isB {
		return nil, false
	}
	sig := c.Call.Signature()
	if n := sig.Params().Len(); n > 0 && isErrorType(sig.Params().At(n-1).Type()) && len(c.Call.Args) == n {
		return c.Call.Args[n-1], true
	}
	return nil, false
}

func nilConst(v ssa.Value) bool {
	k, ok := v.(*ssa.Const)
	return ok && k.Value == nil
}

// ---- P20 ----

const (
	rowClosed  = 0
	rowIter    = 1 // 0 none, 1 ended without Err consulted, 2 consulted
	rowEscaped = 2
)

type rowsClient struct {
	c       *Ctx
	sums    map[sumKey]*rowsSum
	problem func()
}

type rowsSum struct{ closes, iterates, clean bool }

func (rc *rowsClient) method(c ssa.CallInstruction, st *tsState) string {
	cc := c.Common()
	if cc.IsInvoke() {
		if st.alias[cc.Value] {
			return cc.Method.Name()
		}
		return ""
	}
	if fn := cc.StaticCallee(); fn != nil && fn.Signature.Recv() != nil && len(cc.Args) > 0 && st.alias[cc.Args[0]] && isRows(fn.Signature.Recv().Type()) {
		return fn.Name()
	}
	return ""
}

// closesCaptured says a deferred closure closes the tracked rows.
func (rc *rowsClient) closesCaptured(v ssa.Value, st *tsState) bool {
	m, fn := closureOf(v)
	if m == nil {
		return false
	}
	for i, b := range m.Bindings {
		if !st.cells[b] && !st.alias[b] {
			continue
		}
		fv := fn.FreeVars[i]
		for _, blk := range fn.Blocks {
			for _, ins := range blk.Instrs {
				if c, ok := ins.(ssa.CallInstruction); ok && callName(c) == "(database/sql.Rows).Close" && len(c.Common().Args) > 0 {
					a := c.Common().Args[0]
					if a == fv {
						return true
					}
					if u, ok := a.(*ssa.UnOp); ok && u.X == fv {
						return true
					}
				}
			}
		}
	}
	return false
}

func (rc *rowsClient) instr(w *tsWalk, ins ssa.Instruction, st *tsState) bool {
	switch ins := ins.(type) {
	case *ssa.Defer:
		if rc.method(ins, st) == "Close" || rc.closesCaptured(ins.Call.Value, st) {
			st.n[rowClosed] = 1
		} else if fn := callee(ins); fn != nil && fn.Blocks != nil {
			for i, a := range ins.Call.Args {
				if st.alias[a] && rc.summary(fn, i).closes {
					st.n[rowClosed] = 1
				}
			}
		}
	case *ssa.Call:
		if ssa.Instruction(ins) == w.src {
			rc.leave(w, ins.Pos(), st, "the query is sent again")
			return true
		}
		switch rc.method(ins, st) {
		case "Close":
			st.n[rowClosed] = 1
			if st.n[rowIter] == 1 {
				// Close does not report an iteration error
			}
			return false
		case "Err":
			st.n[rowIter] = 2
			return false
		case "Next":
			if !branchesOn(ins) {
				st.n[rowIter] = 1
			}
			return false
		case "":
		default:
			return false
		}
		if errArg, ok := yieldCall(ins); ok {
			if st.n[rowIter] == 1 && nilConst(errArg) {
				w.complain(ins.Pos(), "the rows read are handed on as complete although Err was not consulted after the iteration ended")
			}
			return false
		}
		if fn := callee(ins); fn != nil && fn.Blocks != nil {
			for i, a := range ins.Call.Args {
				if !st.alias[a] {
					continue
				}
				s := rc.summary(fn, i)
				if s.closes {
					st.n[rowClosed] = 1
				}
				if s.iterates {
					st.n[rowIter] = 2
					if !s.clean {
						st.n[rowIter] = 1
					}
				}
			}
		}
	case *ssa.Store:
		if st.alias[ins.Val] {
			switch ins.Addr.(type) {
			case *ssa.Alloc, *ssa.FreeVar:
			default:
				st.n[rowEscaped] = 1
			}
		}
	}
	return false
}

func branchesOn(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.If:
			return true
		case *ssa.UnOp:
			if r.Op == token.NOT && branchesOn(r) {
				return true
			}
		}
	}
	return false
}

func (rc *rowsClient) edge(w *tsWalk, i *ssa.If, taken bool, st *tsState) bool {
	cond, want := i.Cond, false
	for {
		if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
			cond, want = u.X, !want
			continue
		}
		break
	}
	if c, ok := cond.(*ssa.Call); ok && rc.method(c, st) == "Next" && taken == want {
		st.n[rowIter] = 1
	}
	return true
}

func (rc *rowsClient) leave(w *tsWalk, p token.Pos, st *tsState, how string) {
	if st.n[rowClosed] == 0 && st.n[rowEscaped] == 0 {
		w.complain(p, "%s while the result set is still open", how)
	}
}

func (rc *rowsClient) ret(w *tsWalk, ret *ssa.Return, st *tsState) {
	for _, v := range ret.Results {
		if st.alias[v] { // ownership passes to the caller
			return
		}
	}
	if w.src != nil {
		rc.leave(w, retPos(w.fn, ret), st, "the helper returns")
	}
	if st.n[rowIter] == 1 {
		ok := false
		for _, v := range ret.Results {
			if isErrorType(v.Type()) && nonNilAt(resultValue(v), ret.Block()) {
				ok = true
			}
		}
		if !ok && len(ret.Results) > 0 {
			w.complain(retPos(w.fn, ret), "the helper returns the rows read as complete although Err was not consulted after the iteration ended")
		}
	}
}

func retPos(fn *ssa.Function, r *ssa.Return) token.Pos {
	if r.Pos().IsValid() {
		return r.Pos()
	}
	return fn.Pos()
}

// summary says what a helper does with a result set it is given.
func (rc *rowsClient) summary(fn *ssa.Function, idx int) *rowsSum {
	fn = origin(fn)
	k := sumKey{fn, idx}
	if s, ok := rc.sums[k]; ok {
		return s
	}
	s := &rowsSum{}
	rc.sums[k] = s
	if fn == nil || fn.Blocks == nil || idx >= len(fn.Params) || !isRows(fn.Params[idx].Type()) {
		return s
	}
	w := &tsWalk{fn: fn, srcVal: fn.Params[idx], valIdx: -1, errIdx: -1}
	probe := &rowsProbe{rowsClient: rc, closedAll: true}
	w.c = probe
	w.start()
	s.closes = probe.closedAll && probe.rets > 0
	s.clean = len(w.problems) == 0
	s.iterates = probe.iterated
	return s
}

type rowsProbe struct {
	*rowsClient
	closedAll, iterated bool
	rets                int
}

func (p *rowsProbe) ret(w *tsWalk, ret *ssa.Return, st *tsState) {
	p.rets++
	if st.n[rowClosed] == 0 {
		p.closedAll = false
	}
	if st.n[rowIter] != 0 {
		p.iterated = true
	}
	p.rowsClient.ret(w, ret, st)
}

func (p *rowsProbe) edge(w *tsWalk, i *ssa.If, taken bool, st *tsState) bool {
	return p.rowsClient.edge(w, i, taken, st)
}

func checkP20(c *Ctx) {
	rc := &rowsClient{c: c, sums: map[sumKey]*rowsSum{}}
	perDialect := map[string]int{}
	for _, fn := range dbFuncs(c.L) {
		c.Analysed(dname(fn))
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				call, ok := ins.(*ssa.Call)
				if !ok {
					continue
				}
				res := call.Call.Signature().Results()
				vi := -2
				for i := 0; i < res.Len(); i++ {
					if isRows(res.At(i).Type()) {
						vi = i
					}
				}
				if vi == -2 {
					continue
				}
				if res.Len() == 1 {
					vi = -1
				}
				w := &tsWalk{fn: fn, src: call, srcVal: call, valIdx: vi, errIdx: errIndex(call), c: rc}
				w.start()
				perDialect[pkgOf(fn)]++
				c.report(w.problems, "rows-lifecycle", dname(fn), call.Pos(), "result set closed on every path, Err consulted after the iteration")
			}
		}
		// helpers iterating over a result set they were given
		for i, p := range fn.Params {
			if isRows(p.Type()) {
				s := rc.summary(fn, i)
				c.Check(!s.iterates || s.clean, "rows-lifecycle", dname(fn), fn.Pos(), "the helper consults Err of the result set it was given")
			}
		}
	}
	for _, d := range specDialects {
		c.Check(perDialect[helperPkgPath(d.Name)] >= 2, "rows-found", d.Name, token.NoPos, "%d result sets opened", perDialect[helperPkgPath(d.Name)])
	}
}

// report turns the problems of one obligation into findings.
func (c *Ctx) report(ps []errProblem, rule, construct string, p token.Pos, format string, a ...any) {
	if len(ps) == 0 {
		c.OK(rule, construct, format, a...)
		return
	}
	q := ps[0].pos
	if !q.IsValid() {
		q = p
	}
	c.Bad(rule, construct, q, "%s (%s)", ps[0].msg, c.L.pos(p))
}

// ---- P21 ----

// exemptErr lists the calls whose error cannot matter to the caller: writes to
// memory, and closing a result set after it was read.
func exemptErr(call ssa.CallInstruction) bool {
	o := calleeObj(call)
	if o == nil {
		return true
	}
	switch o.Name() {
	case "Write", "WriteString", "WriteByte", "WriteRune", "Close":
		return true
	}
	if o.Pkg() != nil && o.Pkg().Path() == "fmt" {
		return true // fmt.Fprint to memory; fmt.Errorf makes an error
	}
	if o.Pkg() != nil && o.Pkg().Path() == "errors" {
		return true
	}
	return fullName(o) == "(database/sql/driver.Valuer).Value"
}

func zeroResult(v ssa.Value) bool {
	k, ok := v.(*ssa.Const)
	return ok && (k.Value == nil || k.Value.String() == "0" || k.Value.String() == `""` || k.Value.String() == "false")
}

func checkP21(c *Ctx) {
	e := &errEngine{L: c.L}
	e.reporter = func(call ssa.CallInstruction) bool {
		if cc, ok := call.(*ssa.Call); ok {
			_, y := yieldCall(cc)
			return y
		}
		return false
	}
	e.onReturn = func(src ssa.CallInstruction, ret *ssa.Return, nonnil bool) string {
		o := calleeObj(src)
		isScan := o != nil && (o.Name() == "Scan" || o.Name() == "Err")
		if !nonnil && !isScan {
			return ""
		}
		for _, v := range ret.Results {
			v = resultValue(v)
			if isErrorType(v.Type()) || zeroResult(v) {
				continue
			}
			if x, ok := v.(*ssa.Extract); ok && x.Tuple == src.(ssa.Value) {
				continue
			}
			if namedIs(v.Type(), "database/sql", "Result") && o != nil && (o.Pkg() == nil || o.Pkg().Path() != "database/sql") {
				continue // the statement itself succeeded
			}
			return "a result is returned as valid together with the error"
		}
		return ""
	}
	per := map[string]int{}
	for _, fn := range dbFuncs(c.L) {
		c.Analysed(dname(fn))
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				call, ok := ins.(ssa.CallInstruction)
				if !ok || errIndex(call) < 0 || exemptErr(call) {
					continue
				}
				o := calleeObj(call)
				per[pkgOf(fn)]++
				switch call.(type) {
				case *ssa.Defer, *ssa.Go:
					c.Bad("error-flow", dname(fn)+"/"+o.Name(), call.Pos(), "the error of a deferred or spawned call is lost")
					continue
				}
				c.report(e.follow(fn, call), "error-flow", dname(fn)+"/"+o.Name(), call.Pos(), "the error of %s reaches the caller on every path", o.Name())
			}
		}
		// after reporting an error through the iterator the helper stops
		for _, b := range fn.Blocks {
			for i, ins := range b.Instrs {
				call, ok := ins.(*ssa.Call)
				if !ok {
					continue
				}
				errArg, y := yieldCall(call)
				if !y || nilConst(errArg) {
					continue
				}
				if len(call.Call.Args) > 1 {
					c.Check(zeroResult(call.Call.Args[0]) || !nonNilAt(errArg, b), "error-result", dname(fn), call.Pos(), "no rows are handed on together with an error")
				}
				bad := laterCall(b, i+1, func(o *ssa.Call) bool {
					if _, y := yieldCall(o); y {
						return true
					}
					return strings.HasPrefix(callName(o), "(database/sql.") && calleeObj(o).Name() != "Close"
				})
				c.Check(!nonNilAt(errArg, b) || bad == nil, "stop-after-error", dname(fn), call.Pos(), "the iteration ends once an error was reported")
			}
		}
	}
	for _, d := range specDialects {
		n := per[helperPkgPath(d.Name)]
		c.Check(n >= 15, "errors-found", d.Name, token.NoPos, "%d error sources", n)
	}
}

// laterCall finds a call satisfying f that can execute after position (b, idx).
func laterCall(b *ssa.BasicBlock, idx int, f func(*ssa.Call) bool) *ssa.Call {
	seen := map[*ssa.BasicBlock]bool{}
	var visit func(b *ssa.BasicBlock, idx int) *ssa.Call
	visit = func(b *ssa.BasicBlock, idx int) *ssa.Call {
		for _, ins := range b.Instrs[idx:] {
			if c, ok := ins.(*ssa.Call); ok && f(c) {
				return c
			}
		}
		for _, s := range b.Succs {
			if !seen[s] {
				seen[s] = true
				if c := visit(s, 0); c != nil {
					return c
				}
			}
		}
		return nil
	}
	return visit(b, idx)
}

// ---- P26 ----

var handleTypes = []string{"DB", "Tx", "Conn", "Stmt"}

func isHandle(t types.Type) bool {
	for _, n := range handleTypes {
		if namedIs(t, "database/sql", n) {
			return true
		}
	}
	t = types.Unalias(t)
	if i, ok := t.Underlying().(*types.Interface); ok {
		if _, tp := t.(*types.TypeParam); tp {
			return false
		}
		for k := 0; k < i.NumMethods(); k++ {
			switch i.Method(k).Name() {
			case "ExecContext", "QueryContext", "QueryRowContext":
				return true
			}
		}
	}
	return false
}

func isContext(t types.Type) bool { return namedIs(t, "context", "Context") }

// origins resolves a value to the values it can come from, through phis,
// cells, closures' free variables and interface conversions.
func origins(v ssa.Value) []ssa.Value {
	var out []ssa.Value
	seen := map[ssa.Value]bool{}
	var visit func(v ssa.Value)
	visit = func(v ssa.Value) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				visit(e)
			}
		case *ssa.ChangeInterface:
			visit(x.X)
		case *ssa.MakeInterface:
			visit(x.X)
		case *ssa.ChangeType:
			visit(x.X)
		case *ssa.TypeAssert:
			visit(x.X)
		case *ssa.Extract:
			if ta, ok := x.Tuple.(*ssa.TypeAssert); ok && x.Index == 0 {
				visit(ta.X)
			} else {
				out = append(out, v)
			}
		case *ssa.UnOp:
			if x.Op == token.MUL {
				for _, s := range cellStores(x.X) {
					if s == nil {
						out = append(out, v)
					} else {
						visit(s)
					}
				}
			} else {
				out = append(out, v)
			}
		case *ssa.FreeVar:
			if b := bindingOf(x); b != nil {
				visit(b)
			} else {
				out = append(out, v)
			}
		default:
			out = append(out, v)
		}
	}
	visit(v)
	return out
}

// bindingOf is the value a free variable is bound to where the closure is made.
func bindingOf(fv *ssa.FreeVar) ssa.Value {
	fn := fv.Parent()
	p := fn.Parent()
	if p == nil {
		return nil
	}
	idx := -1
	for i, x := range fn.FreeVars {
		if x == fv {
			idx = i
		}
	}
	for _, b := range p.Blocks {
		for _, ins := range b.Instrs {
			if m, ok := ins.(*ssa.MakeClosure); ok && m.Fn == fn && idx >= 0 && idx < len(m.Bindings) {
				return m.Bindings[idx]
			}
		}
	}
	return nil
}

// cellStores lists the values stored in a local cell (possibly captured); nil
// stands for a store that cannot be seen.
func cellStores(addr ssa.Value) []ssa.Value {
	root := addr
	for {
		fv, ok := root.(*ssa.FreeVar)
		if !ok {
			break
		}
		b := bindingOf(fv)
		if b == nil {
			return []ssa.Value{nil}
		}
		root = b
	}
	al, ok := root.(*ssa.Alloc)
	if !ok {
		return []ssa.Value{nil}
	}
	var out []ssa.Value
	var scan func(v ssa.Value)
	scan = func(v ssa.Value) {
		refs := v.Referrers()
		if refs == nil {
			return
		}
		for _, r := range *refs {
			switch r := r.(type) {
			case *ssa.Store:
				if r.Addr == v {
					out = append(out, r.Val)
				} else {
					out = append(out, nil)
				}
			case *ssa.MakeClosure:
				for i, b := range r.Bindings {
					if b == v {
						scan(r.Fn.(*ssa.Function).FreeVars[i])
					}
				}
			case *ssa.UnOp, *ssa.DebugRef, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Slice:
			case ssa.CallInstruction:
			}
		}
	}
	scan(al)
	if len(out) == 0 {
		out = []ssa.Value{nil}
	}
	return out
}

func checkP26(c *Ctx) {
	per := map[string]int{}
	for _, fn := range dbFuncs(c.L) {
		c.Analysed(dname(fn))
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch ins := ins.(type) {
				case *ssa.Go:
					c.Bad("handle", dname(fn), ins.Pos(), "a goroutine is started: its work is not bounded by the call")
				case *ssa.Store:
					t := ins.Val.Type()
					if isContext(t) || isHandle(t) {
						if _, ok := ins.Addr.(*ssa.Alloc); !ok {
							if _, ok := ins.Addr.(*ssa.FreeVar); !ok {
								c.Bad("stored", dname(fn), ins.Pos(), "the caller's context or handle is stored beyond the call")
							}
						}
					}
				}
				call, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				o := calleeObj(call)
				if o != nil && o.Pkg() != nil && o.Pkg().Path() == "context" {
					if n := o.Name(); n == "Background" || n == "TODO" || strings.HasPrefix(n, "With") {
						c.Bad("context", dname(fn)+"/"+n, call.Pos(), "a context other than the caller's is made with context.%s", n)
					}
				}
				cc := call.Common()
				args := append([]ssa.Value{}, cc.Args...)
				var recv ssa.Value
				if cc.IsInvoke() {
					recv = cc.Value
				} else if f := cc.StaticCallee(); f != nil && f.Signature.Recv() != nil && len(args) > 0 {
					recv = args[0]
					args = args[1:]
				}
				if recv != nil && isHandle(recv.Type()) {
					per[pkgOf(fn)]++
					n := o.Name()
					c.Check(strings.HasSuffix(n, "Context") && n != "PrepareContext", "call-kind", dname(fn)+"/"+n, call.Pos(), "%s runs under the caller's context and handle", n)
					c.Check(onlyParams(recv, isHandle), "handle", dname(fn)+"/"+n, call.Pos(), "the handle of %s is the caller's", n)
				}
				for _, a := range args {
					if isContext(a.Type()) {
						c.Check(onlyParams(a, isContext), "context", dname(fn)+"/"+callLabel(call), call.Pos(), "the context is the caller's")
					} else if isHandle(a.Type()) {
						c.Check(onlyParams(a, isHandle), "handle", dname(fn)+"/"+callLabel(call), call.Pos(), "the handle is the caller's")
					}
				}
			}
		}
	}
	for _, d := range specDialects {
		n := per[helperPkgPath(d.Name)]
		c.Check(n >= 10, "calls-found", d.Name, token.NoPos, "%d database calls", n)
	}
}

func callLabel(call ssa.CallInstruction) string {
	if o := calleeObj(call); o != nil {
		return o.Name()
	}
	return "call"
}

// onlyParams says every origin of v is a parameter of the wanted type. A typed
// parameter of a helper is decided at the helper's own call sites.
func onlyParams(v ssa.Value, want func(types.Type) bool) bool {
	for _, o := range origins(v) {
		p, ok := o.(*ssa.Parameter)
		if !ok || !want(p.Type()) {
			return false
		}
	}
	return true
}
