package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const cliPath = modPath + "/cmd/sqlgen"

func init() {
	register("P16", "every error-producing call of the command, the generator and the parser is followed path by path to the exit status", checkP16)
}

// memWriter says writes through v cannot fail: it is a buffer in memory, an
// abstract writer handed down (what reaches it is checked at the call sites),
// or one of the process's own streams.
func memWriter(v ssa.Value) bool {
	for _, o := range origins(v) {
		t := o.Type()
		if u, ok := o.(*ssa.UnOp); ok && u.Op == token.MUL {
			if g, ok := u.X.(*ssa.Global); ok && g.Pkg != nil && g.Pkg.Pkg.Path() == "os" && (g.Name() == "Stdout" || g.Name() == "Stderr") {
				continue
			}
		}
		if _, ok := o.(*ssa.Parameter); ok && !namedIs(t, "os", "File") {
			continue
		}
		if namedIs(t, "bytes", "Buffer") || namedIs(t, "strings", "Builder") || namedIs(t, "bufio", "Writer") {
			continue
		}
		if n, ok := elemType(t).(*types.Named); ok && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
			continue
		}
		if types.IsInterface(t) {
			if _, ok := o.(*ssa.Call); ok {
				continue
			}
		}
		return false
	}
	return true
}

// cannotFail says the error of the call is not a failure of the run.
func cannotFail(call ssa.CallInstruction) bool {
	o := calleeObj(call)
	if o == nil {
		return false
	}
	cc := call.Common()
	name := fullName(o)
	if o.Pkg() != nil {
		switch o.Pkg().Path() {
		case "fmt":
			switch o.Name() {
			case "Errorf", "Print", "Printf", "Println":
				return true
			case "Fprint", "Fprintf", "Fprintln":
				return memWriter(cc.Args[0])
			}
		case "errors":
			return o.Name() != "Join"
		}
	}
	switch name {
	case "syscall.Unlink", "os.Remove":
		return true // the file being there still, the write that follows replaces it or fails
	}
	if strings.HasPrefix(o.Name(), "Write") && o.Type().(*types.Signature).Recv() != nil {
		if cc.IsInvoke() {
			return memWriter(cc.Value)
		}
		return len(cc.Args) > 0 && memWriter(cc.Args[0])
	}
	if name == "io.WriteString" {
		return memWriter(cc.Args[0])
	}
	return false
}

type runFacts struct {
	l      *Loaded
	fields map[*types.Var]bool // []error fields errors are collected in
	stores map[*ssa.Function]bool
	joins  map[*ssa.Function]int
}

// errFields finds the fields errors are collected in.
func (l *Loaded) runFacts() *runFacts {
	f := &runFacts{l: l, fields: map[*types.Var]bool{}, stores: map[*ssa.Function]bool{}, joins: map[*ssa.Function]int{}}
	for _, fn := range l.funcsIn(cliPath) {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if fa, ok := ins.(*ssa.FieldAddr); ok {
					if v := fieldVar(fa); v != nil && isErrorSlice(v.Type()) && v.Pkg() != nil && strings.HasPrefix(v.Pkg().Path(), cliPath) {
						f.fields[v] = true
					}
				}
			}
		}
	}
	// functions which may collect an error, themselves or through a call
	direct := func(fn *ssa.Function) bool {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if st, ok := ins.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok && f.fields[fieldVar(fa)] {
						return true
					}
				}
			}
		}
		return false
	}
	for _, fn := range l.funcsIn(cliPath) {
		if direct(fn) {
			f.stores[fn] = true
		}
	}
	for changed := true; changed; {
		changed = false
		for _, fn := range l.funcsIn(cliPath) {
			if f.stores[fn] {
				continue
			}
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					switch x := ins.(type) {
					case ssa.CallInstruction:
						if c := callee(x); c != nil && f.stores[c] {
							f.stores[fn], changed = true, true
						}
					case *ssa.MakeClosure:
						if f.stores[x.Fn.(*ssa.Function)] {
							f.stores[fn], changed = true, true
						}
					}
				}
			}
		}
	}
	return f
}

func isErrorSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isErrorType(s.Elem())
}

func (f *runFacts) loadOf(v ssa.Value) bool {
	for _, o := range origins(v) {
		u, ok := o.(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			return false
		}
		fa, ok := u.X.(*ssa.FieldAddr)
		if !ok || !f.fields[fieldVar(fa)] {
			return false
		}
	}
	return true
}

// joined says the call reports every collected error: errors.Join over the
// whole list, or a function which does so.
func (f *runFacts) joined(c *ssa.Call) bool {
	if callName(c) == "errors.Join" {
		return len(c.Call.Args) == 1 && f.loadOf(c.Call.Args[0])
	}
	fn := callee(c)
	if fn == nil || fn.Blocks == nil || !strings.HasPrefix(pkgOf(fn), cliPath) || errIndex(c) < 0 {
		return false
	}
	switch f.joins[fn] {
	case 1:
		return true
	case 2:
		return false
	}
	f.joins[fn] = 2
	ok, any := true, false
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if ret, isRet := ins.(*ssa.Return); isRet {
				any = true
				if why := f.drained(fn, ret); why != "" {
					ok = false
				}
			}
		}
	}
	if ok && any {
		f.joins[fn] = 1
	}
	return ok && any
}

// drained says at this return either the result is an error, or the collected
// errors have been looked at and there were none.
func (f *runFacts) drained(fn *ssa.Function, ret *ssa.Return) string {
	blk := ret.Block()
	var ev ssa.Value
	for _, v := range ret.Results {
		if isErrorType(v.Type()) {
			ev = resultValue(v)
		}
	}
	if ev == nil {
		return "no error result"
	}
	if freshError(ev) || nonNilAt(ev, blk) {
		return ""
	}
	if c, ok := ev.(*ssa.Call); ok && f.joined(c) {
		return ""
	}
	for _, b := range fn.Blocks {
		for i, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.Call:
				if (b == blk || b.Dominates(blk)) && f.joined(x) {
					if o := laterCall(b, i+1, func(o *ssa.Call) bool { g := callee(o); return g != nil && f.stores[g] }); o != nil {
						return "errors may still be collected after they were reported"
					}
					return ""
				}
			case *ssa.If:
				zero := f.emptySide(x)
				if zero != nil && len(zero.Preds) == 1 && (zero == blk || zero.Dominates(blk)) {
					if o := laterCall(zero, 0, func(o *ssa.Call) bool { g := callee(o); return g != nil && f.stores[g] }); o != nil {
						return "errors may still be collected after they were counted"
					}
					return ""
				}
			}
		}
	}
	return "the collected errors have not been looked at"
}

// emptySide is the successor taken when no error has been collected.
func (f *runFacts) emptySide(i *ssa.If) *ssa.BasicBlock {
	bo, ok := i.Cond.(*ssa.BinOp)
	if !ok {
		return nil
	}
	t, e := i.Block().Succs[0], i.Block().Succs[1]
	x, y, op := bo.X, bo.Y, bo.Op
	isLen := func(v ssa.Value) bool {
		c, ok := v.(*ssa.Call)
		if !ok {
			return false
		}
		b, ok := c.Call.Value.(*ssa.Builtin)
		return ok && b.Name() == "len" && f.loadOf(c.Call.Args[0])
	}
	if isLen(y) {
		x, y = y, x
		switch op {
		case token.LSS:
			op = token.GTR
		case token.GTR:
			op = token.LSS
		case token.LEQ:
			op = token.GEQ
		case token.GEQ:
			op = token.LEQ
		}
	}
	if !isLen(x) {
		if k, ok := y.(*ssa.Const); ok && k.Value == nil && f.loadOf(x) {
			if op == token.EQL {
				return t
			} else if op == token.NEQ {
				return e
			}
		}
		return nil
	}
	k, ok := y.(*ssa.Const)
	if !ok || k.Value == nil || k.Value.Kind() != constant.Int {
		return nil
	}
	n, _ := constant.Int64Val(k.Value)
	switch {
	case op == token.EQL && n == 0, op == token.LSS && n == 1, op == token.LEQ && n == 0:
		return t
	case op == token.NEQ && n == 0, op == token.GTR && n == 0, op == token.GEQ && n == 1:
		return e
	}
	return nil
}

func (l *Loaded) runEngine(f *runFacts) *errEngine {
	e := &errEngine{L: l, freshOK: true}
	e.reporter = func(call ssa.CallInstruction) bool {
		n := callName(call)
		return n == "github.com/spf13/cobra.CheckErr" || n == "text/template.Must" || strings.HasPrefix(n, "github.com/samber/lo.Must")
	}
	e.benignCall = func(n string) bool { return n == "os.IsNotExist" }
	e.benignGlobal = func(g *ssa.Global) bool {
		if g.Pkg == nil {
			return false
		}
		switch g.Pkg.Pkg.Path() + "." + g.Name() {
		case compPath + ".ErrSkip", "github.com/AlecAivazis/survey/v2/terminal.InterruptErr", "io/fs.ErrNotExist", "os.ErrNotExist",
			"io/fs.SkipDir", "io/fs.SkipAll", "path/filepath.SkipDir", "path/filepath.SkipAll":
			return true
		}
		return false
	}
	e.fieldReported = func(v *types.Var) bool { return f.fields[v] }
	busy := map[string]bool{}
	e.foldBool = func(fn *ssa.Function, idx int, val bool) string {
		return l.foldedOnward(e, origin(fn), idx, val, busy)
	}
	return e
}

// foldedOnward decides what callers do with a boolean answer given in place of
// an error: they have to go on to an operation which reports the failure.
func (l *Loaded) foldedOnward(e *errEngine, fn *ssa.Function, idx int, val bool, busy map[string]bool) string {
	k := fname(fn) + "/" + string(rune('0'+idx))
	if busy[k] {
		return ""
	}
	busy[k] = true
	defer delete(busy, k)
	n := 0
	for _, g := range l.funcsIn(cliPath) {
		for _, b := range g.Blocks {
			for _, ins := range b.Instrs {
				call, ok := ins.(*ssa.Call)
				if !ok || callee(call) != fn {
					continue
				}
				n++
				var res ssa.Value = call
				if fn.Signature.Results().Len() > 1 {
					res = nil
					for _, r := range *call.Referrers() {
						if x, ok := r.(*ssa.Extract); ok && x.Index == idx {
							res = x
						}
					}
				}
				if res == nil {
					return "the failure is answered with a boolean which " + fname(g) + " ignores"
				}
				if why := l.onward(e, g, call, res, val, busy); why != "" {
					return why
				}
			}
		}
	}
	if n == 0 {
		return ""
	}
	return ""
}

func (l *Loaded) onward(e *errEngine, g *ssa.Function, call *ssa.Call, res ssa.Value, val bool, busy map[string]bool) string {
	type branch struct{ b *ssa.BasicBlock }
	var starts []*ssa.BasicBlock
	var visit func(v ssa.Value, val bool) bool
	visit = func(v ssa.Value, val bool) bool {
		ok := true
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.If:
				if val {
					starts = append(starts, x.Block().Succs[0])
				} else {
					starts = append(starts, x.Block().Succs[1])
				}
			case *ssa.UnOp:
				if x.Op == token.NOT {
					ok = visit(x, !val) && ok
				}
			case *ssa.DebugRef:
			case *ssa.Return:
				// the answer is handed on
				for i, v2 := range x.Results {
					if v2 == v {
						if why := l.foldedOnward(e, origin(g), i, val, busy); why != "" {
							ok = false
						}
					}
				}
			default:
				ok = false
			}
		}
		return ok
	}
	if !visit(res, val) {
		return "the failure is answered with a boolean whose use in " + fname(g) + " does not report it"
	}
	seen := map[*ssa.BasicBlock]bool{}
	why := ""
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		if seen[b] || why != "" {
			return
		}
		seen[b] = true
		if b == call.Block() {
			why = fname(g) + " goes on to the next item although the failure was not reported"
			return
		}
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.Call:
				if errIndex(x) >= 0 && !cannotFail(x) {
					return // its own error is followed
				}
			case *ssa.Panic:
				return
			case *ssa.Return:
				for i, v := range x.Results {
					if isErrorType(v.Type()) && freshError(resultValue(v)) {
						return
					}
					if k, ok := v.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Bool {
						if w := l.foldedOnward(e, origin(g), i, constant.BoolVal(k.Value), busy); w != "" {
							why = w
						}
						return
					}
				}
				why = fname(g) + " ends although the failure was not reported"
				return
			}
		}
		for _, s := range b.Succs {
			walk(s)
		}
	}
	for _, s := range starts {
		walk(s)
	}
	return why
}

func checkP16(c *Ctx) {
	l := c.L
	f := l.runFacts()
	e := l.runEngine(f)
	n := 0
	reachExecute := false
	for _, fn := range l.funcsIn(cliPath) {
		c.Analysed(fname(fn))
		for _, b := range fn.Blocks {
			for i, ins := range b.Instrs {
				if st, ok := ins.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok && f.fields[fieldVar(fa)] {
						ap, isAp := st.Val.(*ssa.Call)
						okStore := false
						if isAp {
							if bi, ok := ap.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" && f.loadOf(ap.Call.Args[0]) {
								okStore = true
							}
						}
						if _, ok := fa.X.(*ssa.Alloc); ok {
							okStore = true // a new object
						}
						c.Check(okStore, "errors-kept", fname(fn), st.Pos(), "errors already collected are kept")
					}
				}
				call, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				name := callName(call)
				if name == "(github.com/spf13/cobra.Command).Execute" || name == "(github.com/spf13/cobra.Command).ExecuteContext" {
					reachExecute = true
				}
				cc := call.Common()
				if bi, ok := cc.Value.(*ssa.Builtin); ok && bi.Name() == "recover" {
					rv, _ := call.(ssa.Value)
					c.Check(rv != nil && reRaised(rv), "recover", fname(fn), call.Pos(), "a recovered panic is raised or returned as an error")
				}
				if name == "(os/exec.Cmd).Start" {
					w := laterCall(b, i+1, func(o *ssa.Call) bool { return callName(o) == "(os/exec.Cmd).Wait" })
					c.Check(w != nil, "process", fname(fn), call.Pos(), "the exit status of the started process is waited for")
				}
				for _, a := range cc.Args {
					if mi, ok := a.(*ssa.MakeInterface); ok && namedIs(mi.X.Type(), "os", "File") && callee(call) != nil && strings.HasPrefix(pkgOf(callee(call)), cliPath) {
						c.Check(memWriter(a), "file-writer", fname(fn)+"/"+callLabel(call), call.Pos(), "helpers whose write errors are ignored only write to memory")
					}
				}
				// a callback which is handed the error of the operation it is called for
				for _, a := range cc.Args {
					lit := callbackOf(a)
					if lit == nil || (name != "path/filepath.WalkDir" && name != "path/filepath.Walk" && name != "io/fs.WalkDir") {
						continue
					}
					for pi, p := range lit.Params {
						if isErrorType(p.Type()) {
							n++
							s := e.followParam(lit, pi)
							c.Check(s.returned || s.handled, "callback-error", fname(fn)+"/"+callLabel(call), lit.Pos(), "the error handed to the callback is returned")
						}
					}
				}
				if errIndex(call) < 0 || cannotFail(call) {
					continue
				}
				lbl := callLabel(call)
				switch call.(type) {
				case *ssa.Defer, *ssa.Go:
					if lbl == "Close" {
						continue // a file only read
					}
					c.Bad("error-flow", fname(fn)+"/"+lbl, call.Pos(), "the error of a deferred or spawned call is lost")
					continue
				}
				n++
				c.report(e.follow(fn, call), "error-flow", fname(fn)+"/"+lbl, call.Pos(), "the error of %s reaches the user on every path", lbl)
				// buffered output must be flushed, which is where its errors appear
				if name == "bufio.NewWriter" {
					_ = i
				}
			}
		}
	}
	c.Check(n >= 25, "errors-found", "cmd/sqlgen", token.NoPos, "%d error sources", n)
	c.Check(reachExecute, "execute", "main", token.NoPos, "the command runs through cobra's Execute")
	// the collected errors are reported before the run ends
	ctor := l.genCtor()
	for _, fn := range l.funcsIn(genPath) {
		if fn.Parent() != nil || ctor == nil {
			continue
		}
		var made *ssa.Call
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if call, ok := ins.(*ssa.Call); ok {
					if g := callee(call); g != nil && g.Object() == ctor.pkg.TypesInfo.Defs[ctor.fd.Name] {
						made = call
					}
				}
			}
		}
		if made == nil {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if ret, ok := ins.(*ssa.Return); ok && made.Block().Dominates(b) {
					why := f.drained(fn, ret)
					c.Check(why == "", "collected-errors", fname(fn), ret.Pos(), "every error collected along the way is returned before the run counts as successful (%s)", why)
				}
			}
		}
	}
	c.Min("collected-errors", 1)
	l.checkWrongFootprint(c, e)
	l.checkParseErrors(c)
}

func callbackOf(v ssa.Value) *ssa.Function {
	for _, o := range origins(v) {
		switch x := o.(type) {
		case *ssa.MakeClosure:
			return x.Fn.(*ssa.Function)
		case *ssa.Function:
			return x
		}
	}
	return nil
}

// reRaised says the recovered value reaches a panic, an exit or an error result.
func reRaised(v ssa.Value) bool {
	seen := map[ssa.Value]bool{}
	var visit func(v ssa.Value) bool
	visit = func(v ssa.Value) bool {
		if seen[v] || v.Referrers() == nil {
			return false
		}
		seen[v] = true
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.Panic:
				return true
			case *ssa.Store:
				if _, ok := x.Addr.(*ssa.FreeVar); ok && isErrorType(x.Val.Type()) {
					return true
				}
				if ia, ok := x.Addr.(*ssa.IndexAddr); ok && visit(ia.X) {
					return true
				}
				if al, ok := x.Addr.(*ssa.Alloc); ok && visit(al) {
					return true
				}
			case *ssa.Call:
				n := callName(x)
				if strings.HasPrefix(n, "log.Fatal") || strings.HasPrefix(n, "log.Panic") || n == "github.com/spf13/cobra.CheckErr" {
					return true
				}
				if visit(x) {
					return true
				}
			case ssa.Value:
				if visit(x) {
					return true
				}
			}
		}
		return false
	}
	return visit(v)
}

// checkWrongFootprint: a model whose method has the wrong signature, and a
// driver without dialect, are reported.
func (l *Loaded) checkWrongFootprint(c *Ctx, e *errEngine) {
	n := 0
	for _, fn := range l.funcsIn(genPath) {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				call, ok := ins.(*ssa.Call)
				if !ok {
					continue
				}
				o := calleeObj(call)
				g := callee(call)
				if o == nil || g == nil || !strings.HasPrefix(pkgOf(g), cliPath) {
					continue
				}
				res := o.Type().(*types.Signature).Results()
				if res.Len() != 2 || !types.Identical(res.At(1).Type(), types.Typ[types.Bool]) {
					continue
				}
				bad := false
				switch {
				case namedIs(res.At(0).Type(), "go/types", "Func"):
					bad = true
				case pkgOf(g) == diaPath && namedIs(res.At(0).Type(), diaPath, "Dialect"):
				default:
					continue
				}
				n++
				var flag ssa.Value
				for _, r := range *call.Referrers() {
					if x, ok := r.(*ssa.Extract); ok && x.Index == 1 {
						flag = x
					}
				}
				what := "a method with the wrong signature is reported"
				if !bad {
					what = "a driver without dialect is reported"
				}
				c.Check(flag != nil && l.flagReported(e, flag, bad), "failure-flag", fname(fn)+"/"+o.Name(), call.Pos(), "%s", what)
			}
		}
	}
	c.Check(n >= 3, "flags-found", "codegen", token.NoPos, "%d failure flags", n)
}

// flagReported says whenever the flag has this value an error is reported.
func (l *Loaded) flagReported(e *errEngine, flag ssa.Value, val bool) bool {
	found := false
	ok := true
	var visit func(v ssa.Value, val bool)
	visit = func(v ssa.Value, val bool) {
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.UnOp:
				if x.Op == token.NOT {
					visit(x, !val)
				}
			case *ssa.If:
				s := x.Block().Succs[0]
				if !val {
					s = x.Block().Succs[1]
				}
				if !found {
					// the first test decides; later ones may be reached only after it
					found = true
					ok = l.reportsIn(e, s)
				}
			}
		}
	}
	visit(flag, val)
	return found && ok
}

// reportsIn: every path from b reports an error made on the spot before it
// leaves the region b dominates.
func (l *Loaded) reportsIn(e *errEngine, b *ssa.BasicBlock) bool {
	if len(b.Preds) != 1 {
		return false
	}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(x *ssa.BasicBlock) bool
	walk = func(x *ssa.BasicBlock) bool {
		if x != b && !b.Dominates(x) {
			return false
		}
		if seen[x] {
			return true
		}
		seen[x] = true
		for _, ins := range x.Instrs {
			switch y := ins.(type) {
			case *ssa.Panic:
				return true
			case *ssa.Return:
				for _, v := range y.Results {
					if isErrorType(v.Type()) {
						rv := resultValue(v)
						return (freshError(rv) || nonNilAt(rv, x)) && !e.benignValue(rv)
					}
				}
				return false
			case *ssa.Call:
				for i, a := range y.Call.Args {
					if isErrorType(a.Type()) && freshError(a) {
						if g := callee(y); g != nil && g.Blocks != nil && strings.HasPrefix(pkgOf(g), modPath) && e.followParam(g, i).handled {
							return true
						}
					}
				}
			}
		}
		for _, s := range x.Succs {
			if !walk(s) {
				return false
			}
		}
		return true
	}
	return walk(b)
}

// checkParseErrors: go/packages reports syntax errors in the package it
// returns, whose syntax tree is incomplete then.
func (l *Loaded) checkParseErrors(c *Ctx) {
	const needSyntax = 1 << 7
	for _, fn := range l.funcsIn(cliPath) {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				call, ok := ins.(*ssa.Call)
				if !ok || callName(call) != "golang.org/x/tools/go/packages.Load" {
					continue
				}
				if !l.readsSyntax(fn) {
					continue
				}
				ok, why := l.parseErrorsChecked(fn, call.Block())
				c.Check(ok, "syntax-errors", fname(fn), call.Pos(), "a syntax error in the loaded package ends the run (%s)", why)
			}
		}
	}
	c.Min("syntax-errors", 1)
}

func pkgField(v ssa.Value, name string) bool {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		f := fieldVar(x)
		return f != nil && f.Name() == name && f.Pkg() != nil && f.Pkg().Path() == "golang.org/x/tools/go/packages"
	case *ssa.Field:
		s, ok := x.X.Type().Underlying().(*types.Struct)
		return ok && s.Field(x.Field).Name() == name && s.Field(x.Field).Pkg().Path() == "golang.org/x/tools/go/packages"
	case *ssa.UnOp:
		return x.Op == token.MUL && pkgField(x.X, name)
	}
	return false
}

func (l *Loaded) readsSyntax(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if fa, ok := ins.(*ssa.FieldAddr); ok && pkgField(fa, "Syntax") {
				return true
			}
			if call, ok := ins.(*ssa.Call); ok {
				if g := callee(call); g != nil && g != fn && pkgOf(g) == pkgOf(fn) && len(g.Blocks) > 0 {
					for _, p := range g.Params {
						if namedIs(p.Type(), "golang.org/x/tools/go/packages", "Package") && l.readsSyntax(g) {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

// parseErrorsChecked says every way out of fn which may report success comes
// after the errors of the package were examined for syntax errors.
func (l *Loaded) parseErrorsChecked(fn *ssa.Function, after *ssa.BasicBlock) (bool, string) {
	var reads []*ssa.BasicBlock
	ok, why := true, ""
	kind := false
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.FieldAddr:
				if pkgField(x, "Errors") {
					reads = append(reads, b)
				}
			case *ssa.Call:
				if callName(x) == "golang.org/x/tools/go/packages.PrintErrors" {
					reads = append(reads, b)
					kind = true
				}
				if g := callee(x); g != nil && g != fn && len(g.Blocks) > 0 && pkgOf(g) == pkgOf(fn) && errIndex(x) >= 0 {
					for _, a := range x.Call.Args {
						if namedIs(a.Type(), "golang.org/x/tools/go/packages", "Package") || strings.Contains(a.Type().String(), "go/packages.") {
							if r, _ := l.parseErrorsChecked(g, nil); r {
								reads = append(reads, b)
								kind = true
							}
						}
					}
				}
			case *ssa.If:
				bo, isB := x.Cond.(*ssa.BinOp)
				if !isB {
					continue
				}
				kx, ky := bo.X, bo.Y
				if pkgField(ky, "Kind") {
					kx, ky = ky, kx
				}
				k, isK := ky.(*ssa.Const)
				if !pkgField(kx, "Kind") || !isK || k.Value == nil {
					continue
				}
				v, _ := constant.Int64Val(k.Value)
				const parseError = 2
				var side *ssa.BasicBlock
				switch {
				case bo.Op == token.EQL && v == parseError:
					side = b.Succs[0]
				case bo.Op == token.NEQ && v == parseError:
					side = b.Succs[1]
				default:
					continue
				}
				kind = true
				if !failsFrom(side, map[*ssa.BasicBlock]bool{}) {
					ok, why = false, "after a syntax error the function may go on or succeed"
				}
			}
		}
	}
	if len(reads) == 0 {
		return false, "the errors of the package are not read"
	}
	if !kind {
		return false, "the errors of the package are not examined for syntax errors"
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			ret, isR := ins.(*ssa.Return)
			if !isR || after != nil && !after.Dominates(b) {
				continue
			}
			var ev ssa.Value
			for _, v := range ret.Results {
				if isErrorType(v.Type()) {
					ev = resultValue(v)
				}
			}
			if ev == nil {
				return false, "the function has no error result"
			}
			if freshError(ev) || nonNilAt(ev, b) {
				continue
			}
			dom := false
			for _, r := range reads {
				if r == b || r.Dominates(b) {
					dom = true
				}
			}
			if !dom {
				return false, "success is reported without the errors of the package being read"
			}
		}
	}
	return ok, why
}

// failsFrom: every path from b returns an error made on the spot, or panics,
// before it runs into a loop or out of the function.
func failsFrom(b *ssa.BasicBlock, seen map[*ssa.BasicBlock]bool) bool {
	if seen[b] {
		return false
	}
	seen[b] = true
	for _, ins := range b.Instrs {
		switch x := ins.(type) {
		case *ssa.Panic:
			return true
		case *ssa.Return:
			for _, v := range x.Results {
				if isErrorType(v.Type()) {
					rv := resultValue(v)
					return freshError(rv) || nonNilAt(rv, b)
				}
			}
			return false
		}
	}
	if len(b.Succs) == 0 {
		return false
	}
	for _, s := range b.Succs {
		if !failsFrom(s, seen) {
			return false
		}
	}
	return true
}

func elemType(t types.Type) types.Type {
	t = types.Unalias(t)
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return types.Unalias(p.Elem())
	}
	return t
}
