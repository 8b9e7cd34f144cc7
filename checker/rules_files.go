package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P17", "Every operation of the command, generator and parser that changes the file system is found in SSA; the path it acts on is evaluated into a canonical term per call path and must be one of the configured output files; the content written must be the result of a formatting (or encoding) step whose error is known to be nil where the file is opened.", checkP17)
}

// A frame is a call path: the calls that lead into the function looked at.
type callPath struct {
	call ssa.CallInstruction
	up   *callPath
	n    int
}

func (p *callPath) depth() int {
	if p == nil {
		return 0
	}
	return p.n
}

func (p *callPath) via(call ssa.CallInstruction) *callPath {
	return &callPath{call, p, p.depth() + 1}
}

// callers indexes the static calls (and the calls of local closures) of a set
// of functions.
func (l *Loaded) callers(fns []*ssa.Function) map[*ssa.Function][]ssa.CallInstruction {
	out := map[*ssa.Function][]ssa.CallInstruction{}
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				call, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if g := callee(call); g != nil {
					out[g] = append(out[g], call)
					continue
				}
				if !call.Common().IsInvoke() {
					if g := callbackOf(call.Common().Value); g != nil {
						out[g] = append(out[g], call)
					}
				}
			}
		}
	}
	return out
}

// pathsTo lists the call paths that lead to fn, outermost call last.
func pathsTo(callers map[*ssa.Function][]ssa.CallInstruction, fn *ssa.Function, depth int, busy map[*ssa.Function]bool) []*callPath {
	cs := callers[fn]
	if len(cs) == 0 || depth == 0 || busy[fn] {
		return []*callPath{nil}
	}
	busy[fn] = true
	defer delete(busy, fn)
	var out []*callPath
	for _, call := range cs {
		for _, up := range pathsTo(callers, call.Parent(), depth-1, busy) {
			out = append(out, up.via(call))
		}
	}
	return out
}

// termEval writes SSA values as canonical terms.
type termEval struct {
	l *Loaded
	// element chosen for a table of literals that a loop runs over
	choice map[*ssa.Alloc]int
	need   *ssa.Alloc
	needN  int
	busy   map[ssa.Value]bool
}

func setOf(ss ...string) []string {
	seen := map[string]bool{}
	var out []string
	for _, s := range ss {
		if !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	sort.Strings(out)
	return out
}

// paramIndex is the argument position of p in a call of its function.
func argOf(call ssa.CallInstruction, p *ssa.Parameter) ssa.Value {
	fn := p.Parent()
	for i, q := range fn.Params {
		if q == p {
			cc := call.Common()
			if !cc.IsInvoke() && i < len(cc.Args) {
				return cc.Args[i]
			}
		}
	}
	return nil
}

func isConfigType(t types.Type) bool {
	return namedIs(deref(t), genPath, "Config")
}

// configPath is "cfg.Exec.Filename" for a chain of fields read from a Config.
func configPath(v ssa.Value, at *callPath, depth int) string {
	if depth > 12 {
		return ""
	}
	if isConfigType(v.Type()) {
		return "cfg"
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if al, ok := x.X.(*ssa.Alloc); ok {
				if s := cellStores(al); len(s) == 1 && s[0] != nil {
					return configPath(s[0], at, depth+1)
				}
				return ""
			}
			return configPath(x.X, at, depth+1)
		}
	case *ssa.FieldAddr:
		if p := configPath(x.X, at, depth+1); p != "" {
			return p + "." + fieldVar(x).Name()
		}
	case *ssa.Field:
		if p := configPath(x.X, at, depth+1); p != "" {
			st := x.X.Type().Underlying().(*types.Struct)
			return p + "." + st.Field(x.Field).Name()
		}
	case *ssa.Parameter:
		if at != nil && inModule(x.Type()) {
			if callee(at.call) == x.Parent() || callbackOf(at.call.Common().Value) == x.Parent() {
				if a := argOf(at.call, x); a != nil {
					return configPath(a, at.up, depth+1)
				}
			}
		}
	case *ssa.Alloc:
		if s := cellStores(x); len(s) == 1 && s[0] != nil {
			return configPath(s[0], at, depth+1)
		}
	case *ssa.Phi:
		p := ""
		for _, e := range x.Edges {
			q := configPath(e, at, depth+1)
			if q == "" || p != "" && p != q {
				return ""
			}
			p = q
		}
		return p
	}
	return ""
}

// inModule says t is a (pointer to a) struct type of the generator package.
func inModule(t types.Type) bool {
	n, ok := types.Unalias(deref(t)).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == genPath
}

func constString(v ssa.Value) (string, bool) {
	if k, ok := v.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
		return constant.StringVal(k.Value), true
	}
	return "", false
}

// sliceElems lists the values of a slice built by a literal (as variadic
// arguments are).
func sliceElems(v ssa.Value) []ssa.Value {
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return nil
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	arr, ok := deref(al.Type()).Underlying().(*types.Array)
	if !ok {
		return nil
	}
	out := make([]ssa.Value, arr.Len())
	for _, r := range *al.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		k, ok := ia.Index.(*ssa.Const)
		if !ok {
			return nil
		}
		for _, r2 := range *ia.Referrers() {
			if st, ok := r2.(*ssa.Store); ok && st.Addr == ia {
				out[k.Int64()] = st.Val
			}
		}
	}
	for _, o := range out {
		if o == nil {
			return nil
		}
	}
	return out
}

// join normalises path.Join("a", "b") and a + "/" + b.
func joinTerms(parts []string) string {
	var flat []string
	for _, p := range parts {
		if strings.HasPrefix(p, "join(") {
			flat = append(flat, splitJoin(p)...)
			continue
		}
		if p == `""` || p == `"."` {
			continue
		}
		flat = append(flat, p)
	}
	if len(flat) == 1 {
		return flat[0]
	}
	return "join(" + strings.Join(flat, "\x00") + ")"
}

func splitJoin(t string) []string {
	if !strings.HasPrefix(t, "join(") {
		return []string{t}
	}
	return strings.Split(strings.TrimSuffix(strings.TrimPrefix(t, "join("), ")"), "\x00")
}

func showTerm(t string) string { return strings.ReplaceAll(t, "\x00", ", ") }

// product combines the alternatives of several terms.
func (e *termEval) product(vs []ssa.Value, at *callPath, f func([]string) string) []string {
	acc := [][]string{nil}
	for _, v := range vs {
		alts := e.term(v, at)
		var next [][]string
		for _, a := range acc {
			for _, t := range alts {
				next = append(next, append(append([]string{}, a...), t))
			}
		}
		acc = next
		if len(acc) > 64 {
			return []string{"too many alternatives"}
		}
	}
	var out []string
	for _, a := range acc {
		out = append(out, f(a))
	}
	return setOf(out...)
}

func (e *termEval) ident(v ssa.Value, at *callPath) string {
	s := "<" + v.Name()
	if fn := v.Parent(); fn != nil {
		s = "<" + fname(fn) + ":" + v.Name()
	}
	_ = at
	return s + ">"
}

func (e *termEval) term(v ssa.Value, at *callPath) []string {
	if e.busy[v] {
		return nil
	}
	e.busy[v] = true
	defer delete(e.busy, v)
	if p := configPath(v, at, 0); p != "" {
		return []string{p}
	}
	switch x := v.(type) {
	case *ssa.Const:
		if s, ok := constString(x); ok {
			return []string{fmt.Sprintf("%q", s)}
		}
		return []string{x.String()}
	case *ssa.Parameter:
		if at != nil {
			if callee(at.call) == x.Parent() || callbackOf(at.call.Common().Value) == x.Parent() {
				if a := argOf(at.call, x); a != nil {
					return e.term(a, at.up)
				}
			}
		}
		return []string{e.ident(v, at)}
	case *ssa.FreeVar:
		if b := bindingOf(x); b != nil {
			return e.term(b, nil)
		}
	case *ssa.Phi:
		var out []string
		for _, o := range x.Edges {
			out = append(out, e.term(o, at)...)
		}
		return setOf(out...)
	case *ssa.ChangeType:
		return e.term(x.X, at)
	case *ssa.Convert:
		return e.term(x.X, at)
	case *ssa.MakeInterface:
		return e.term(x.X, at)
	case *ssa.BinOp:
		if x.Op == token.ADD {
			var flat []ssa.Value
			var split func(v ssa.Value)
			split = func(v ssa.Value) {
				if b, ok := v.(*ssa.BinOp); ok && b.Op == token.ADD {
					split(b.X)
					split(b.Y)
					return
				}
				flat = append(flat, v)
			}
			split(v)
			if len(flat) == 3 {
				if s, ok := constString(flat[1]); ok && s == "/" {
					return e.product([]ssa.Value{flat[0], flat[2]}, at, joinTerms)
				}
			}
			return e.product(flat, at, func(p []string) string { return "concat(" + strings.Join(p, "+") + ")" })
		}
	case *ssa.Field:
		if u, ok := x.X.(*ssa.UnOp); ok && u.Op == token.MUL {
			if ia, ok := u.X.(*ssa.IndexAddr); ok {
				if f := e.element(ia, x.Field); f != nil {
					return e.term(f, at)
				}
			}
			if al, ok := u.X.(*ssa.Alloc); ok {
				if t := e.structField(al, x.Field, at); t != nil {
					return t
				}
			}
		}
	case *ssa.UnOp:
		if x.Op != token.MUL {
			break
		}
		switch a := x.X.(type) {
		case *ssa.Alloc, *ssa.FreeVar:
			var out []string
			for _, s := range cellStores(a) {
				if s == nil {
					return []string{e.ident(v, at)}
				}
				out = append(out, e.term(s, at)...)
			}
			return setOf(out...)
		case *ssa.FieldAddr:
			switch b := a.X.(type) {
			case *ssa.IndexAddr:
				if f := e.element(b, a.Field); f != nil {
					return e.term(f, at)
				}
			case *ssa.Alloc:
				if t := e.structField(b, a.Field, at); t != nil {
					return t
				}
			}
		case *ssa.Global:
			return []string{"global:" + a.RelString(nil)}
		case *ssa.IndexAddr:
			if f := e.element(a, -1); f != nil {
				return e.term(f, at)
			}
		}
	case *ssa.Call:
		name := callName(x)
		switch name {
		case "path.Join", "path/filepath.Join":
			if el := sliceElems(x.Call.Args[0]); el != nil {
				return e.product(el, at, joinTerms)
			}
		case "path/filepath.Clean", "path.Clean", "path/filepath.FromSlash", "path/filepath.ToSlash":
			return e.term(x.Call.Args[0], at)
		case "path/filepath.Dir", "path.Dir", "path/filepath.Base", "path.Base":
			return e.product(x.Call.Args, at, func(p []string) string {
				parts := splitJoin(p[0])
				if strings.HasSuffix(name, "Dir") && len(parts) > 1 {
					return joinTerms(parts[:len(parts)-1])
				}
				return name + "(" + p[0] + ")"
			})
		case modPath + "/cmd/sqlgen/internal/fileutil.Getpwd":
			return []string{"<pwd>"}
		}
		if g := callee(x); g != nil && g.Blocks != nil && strings.HasPrefix(pkgOf(g), cliPath) && at.depth() < 10 && g.Signature.Results().Len() == 1 {
			var out []string
			for _, b := range g.Blocks {
				for _, ins := range b.Instrs {
					if r, ok := ins.(*ssa.Return); ok {
						out = append(out, e.term(resultValue(r.Results[0]), at.via(x))...)
					}
				}
			}
			if len(out) > 0 {
				return setOf(out...)
			}
		}
	}
	return []string{e.ident(v, at)}
}

// structField is the term of a field of a local struct that is filled once.
func (e *termEval) structField(al *ssa.Alloc, field int, at *callPath) []string {
	var out []string
	for _, r := range *al.Referrers() {
		switch x := r.(type) {
		case *ssa.FieldAddr:
			if x.Field != field {
				continue
			}
			for _, r2 := range *x.Referrers() {
				switch y := r2.(type) {
				case *ssa.Store:
					if y.Addr == x {
						out = append(out, e.term(y.Val, at)...)
					}
				case *ssa.UnOp, *ssa.DebugRef:
				default:
					return nil
				}
			}
		case *ssa.Store:
			if x.Addr != al {
				return nil
			}
			u, ok := x.Val.(*ssa.UnOp)
			if !ok {
				if p := configPath(x.Val, at, 0); p != "" {
					if st, ok := x.Val.Type().Underlying().(*types.Struct); ok {
						out = append(out, p+"."+st.Field(field).Name())
						continue
					}
				}
				if pa, ok := x.Val.(*ssa.Parameter); ok && at != nil {
					if a := argOf(at.call, pa); a != nil {
						if u2, ok := a.(*ssa.UnOp); ok {
							if t := e.structLoad(u2, field, at.up); t != nil {
								out = append(out, t...)
								continue
							}
						}
					}
				}
				return nil
			}
			t := e.structLoad(u, field, at)
			if t == nil {
				return nil
			}
			out = append(out, t...)
		case *ssa.UnOp, *ssa.DebugRef:
		default:
			return nil
		}
	}
	if out == nil {
		return nil
	}
	return setOf(out...)
}

// structLoad is the term of a field of a struct value loaded from memory.
func (e *termEval) structLoad(u *ssa.UnOp, field int, at *callPath) []string {
	switch a := u.X.(type) {
	case *ssa.IndexAddr:
		if f := e.element(a, field); f != nil {
			return e.term(f, at)
		}
	case *ssa.Alloc:
		return e.structField(a, field, at)
	}
	return nil
}

// element is the value of (a field of) the chosen element of a table of
// literals.
func (e *termEval) element(ia *ssa.IndexAddr, field int) ssa.Value {
	base := ia.X
	if sl, ok := base.(*ssa.Slice); ok {
		base = sl.X
	}
	if u, ok := base.(*ssa.UnOp); ok && u.Op == token.MUL {
		if st := cellStores(u.X); len(st) == 1 && st[0] != nil {
			base = st[0]
			if sl, ok := base.(*ssa.Slice); ok {
				base = sl.X
			}
		}
	}
	al, ok := base.(*ssa.Alloc)
	if !ok {
		return nil
	}
	arr, ok := deref(al.Type()).Underlying().(*types.Array)
	if !ok {
		return nil
	}
	idx := -1
	if k, ok := ia.Index.(*ssa.Const); ok {
		idx = int(k.Int64())
	} else if c, ok := e.choice[al]; ok {
		idx = c
	} else {
		e.need, e.needN = al, int(arr.Len())
		return nil
	}
	var found ssa.Value
	for _, r := range *al.Referrers() {
		ea, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		k, ok := ea.Index.(*ssa.Const)
		if !ok || int(k.Int64()) != idx {
			continue
		}
		for _, r2 := range *ea.Referrers() {
			switch x := r2.(type) {
			case *ssa.Store:
				if field < 0 && x.Addr == ea {
					found = x.Val
				}
				if field >= 0 && x.Addr == ea {
					// the element was built in a local first
					if u, ok := x.Val.(*ssa.UnOp); ok {
						if tmp, ok := u.X.(*ssa.Alloc); ok {
							for _, r3 := range *tmp.Referrers() {
								if fa, ok := r3.(*ssa.FieldAddr); ok && fa.Field == field {
									for _, r4 := range *fa.Referrers() {
										if st, ok := r4.(*ssa.Store); ok && st.Addr == fa {
											found = st.Val
										}
									}
								}
							}
						}
					}
				}
			case *ssa.FieldAddr:
				if field >= 0 && x.Field == field {
					for _, r3 := range *x.Referrers() {
						if st, ok := r3.(*ssa.Store); ok && st.Addr == x {
							found = st.Val
						}
					}
				}
			}
		}
	}
	return found
}

// all evaluates a value on a call path for every choice of table elements.
func (l *Loaded) terms(v ssa.Value, at *callPath) []string {
	var out []string
	var run func(choice map[*ssa.Alloc]int)
	run = func(choice map[*ssa.Alloc]int) {
		e := &termEval{l: l, choice: choice, busy: map[ssa.Value]bool{}}
		ts := e.term(v, at)
		if e.need != nil {
			for i := 0; i < e.needN; i++ {
				next := map[*ssa.Alloc]int{e.need: i}
				for k, v := range choice {
					next[k] = v
				}
				run(next)
			}
			return
		}
		out = append(out, ts...)
	}
	run(map[*ssa.Alloc]int{})
	return setOf(out...)
}

// fileOps are the functions that change the file system and the argument that
// names the path; openers hand out a file that is written through methods.
var fileOps = map[string]string{
	"os.WriteFile": "write", "io/ioutil.WriteFile": "write", "os.Create": "open", "os.OpenFile": "open",
	"os.Remove": "delete", "syscall.Unlink": "delete", "os.MkdirAll": "mkdir", "os.Mkdir": "mkdir",
	"os.Rename": "rename", "os.CreateTemp": "temp",
	"os.RemoveAll": "other", "os.Truncate": "other", "os.MkdirTemp": "other", "os.Chmod": "other", "os.Chown": "other",
	"os.Symlink": "other", "os.Link": "other", "os.Chdir": "other", "os.Chtimes": "other",
	"syscall.Open": "other", "syscall.Rename": "other", "syscall.Mkdir": "other", "syscall.Truncate": "other", "syscall.Rmdir": "other", "syscall.Creat": "other",
	"syscall.Chmod": "other", "syscall.Symlink": "other", "syscall.Link": "other", "os.CopyFS": "other", "os.OpenRoot": "other",
}

// errNilAt says the error value is known to be nil in block b.
func errNilAt(v ssa.Value, b *ssa.BasicBlock) bool {
	if v == nil || v.Referrers() == nil {
		return false
	}
	test := func(v ssa.Value) bool {
		for _, ref := range *v.Referrers() {
			bo, ok := ref.(*ssa.BinOp)
			if !ok || (bo.Op != token.NEQ && bo.Op != token.EQL) {
				continue
			}
			if k, ok := bo.Y.(*ssa.Const); !ok || k.Value != nil {
				continue
			}
			for _, r2 := range *bo.Referrers() {
				if i, ok := r2.(*ssa.If); ok {
					s := i.Block().Succs[1]
					if bo.Op == token.EQL {
						s = i.Block().Succs[0]
					}
					if len(s.Preds) == 1 && s.Dominates(b) {
						return true
					}
				}
			}
		}
		return false
	}
	if test(v) {
		return true
	}
	// through a local cell: every later load of the cell
	for _, ref := range *v.Referrers() {
		st, ok := ref.(*ssa.Store)
		if !ok || st.Val != v {
			continue
		}
		al, ok := st.Addr.(*ssa.Alloc)
		if !ok {
			continue
		}
		for _, r := range *al.Referrers() {
			if u, ok := r.(*ssa.UnOp); ok && resultValue(u) == v && test(u) {
				return true
			}
		}
	}
	return false
}

func extractOf(call *ssa.Call, idx int) ssa.Value {
	if call.Referrers() == nil {
		return nil
	}
	if call.Call.Signature().Results().Len() == 1 && idx == 0 {
		return call
	}
	for _, r := range *call.Referrers() {
		if x, ok := r.(*ssa.Extract); ok && x.Index == idx {
			return x
		}
	}
	return nil
}

func formatter(name string) bool {
	switch name {
	case "golang.org/x/tools/imports.Process", "go/format.Source", "github.com/goccy/go-yaml.Marshal", "github.com/goccy/go-yaml.MarshalWithOptions":
		return true
	}
	return false
}

// finished says why the content used at instruction `use` on a call path is
// not the finished result of a formatting step ("" when it is).
func (l *Loaded) finished(v ssa.Value, use ssa.Instruction, at *callPath, depth int, seen map[*ssa.Call]bool) string {
	if depth > 10 {
		return "its origin cannot be followed"
	}
	for _, o := range origins(v) {
		why := l.finishedOrigin(o, use, at, depth, seen)
		if why != "" {
			return why
		}
	}
	return ""
}

func (l *Loaded) finishedOrigin(o ssa.Value, use ssa.Instruction, at *callPath, depth int, seen map[*ssa.Call]bool) string {
	switch x := o.(type) {
	case *ssa.Convert:
		return l.finished(x.X, use, at, depth+1, seen)
	case *ssa.Slice:
		if x.Low == nil && x.High == nil {
			return l.finished(x.X, use, at, depth+1, seen)
		}
		return "only part of the content is used"
	case *ssa.Parameter:
		if at == nil || argOf(at.call, x) == nil {
			return fmt.Sprintf("the content is whatever %s is called with", fname(x.Parent()))
		}
		return l.finished(argOf(at.call, x), at.call, at.up, depth+1, seen)
	case *ssa.Extract:
		call, ok := x.Tuple.(*ssa.Call)
		if !ok {
			break
		}
		if formatter(callName(call)) && x.Index == 0 {
			seen[call] = true
			err := extractOf(call, 1)
			if err == nil || !errNilAt(err, use.Block()) {
				return fmt.Sprintf("%s may have failed", callLabel(call))
			}
			return ""
		}
		if g := callee(call); g != nil && g.Blocks != nil && strings.HasPrefix(pkgOf(g), cliPath) && at.depth() < 10 {
			// a helper of our own: its result is finished wherever it
			// reports success, and the caller checks the error
			ei := errIndex(call)
			if ei >= 0 {
				err := extractOf(call, ei)
				if err == nil || !errNilAt(err, use.Block()) {
					return fmt.Sprintf("%s may have failed", callLabel(call))
				}
			}
			for _, b := range g.Blocks {
				for _, ins := range b.Instrs {
					r, ok := ins.(*ssa.Return)
					if !ok {
						continue
					}
					if ei >= 0 {
						ev := resultValue(r.Results[ei])
						if nonNilAt(ev, b) {
							continue
						}
						// return imports.Process(...) directly
						if ex, ok := ev.(*ssa.Extract); ok {
							if ic, ok := ex.Tuple.(*ssa.Call); ok && formatter(callName(ic)) {
								if cv, ok := resultValue(r.Results[x.Index]).(*ssa.Extract); ok && cv.Tuple == ex.Tuple && cv.Index == 0 {
									seen[ic] = true
									continue
								}
							}
						}
					}
					if why := l.finished(resultValue(r.Results[x.Index]), r, at.via(call), depth+1, seen); why != "" {
						return why
					}
				}
			}
			return ""
		}
	case *ssa.Call:
		name := callName(x)
		if name == "(bytes.Buffer).Bytes" || name == "(bytes.Buffer).String" || name == "(strings.Builder).String" {
			return l.encoded(x.Call.Args[0], x)
		}
		if g := callee(x); g != nil && g.Blocks != nil && strings.HasPrefix(pkgOf(g), cliPath) && at.depth() < 10 {
			for _, b := range g.Blocks {
				for _, ins := range b.Instrs {
					if r, ok := ins.(*ssa.Return); ok {
						if why := l.finished(resultValue(r.Results[0]), r, at.via(x), depth+1, seen); why != "" {
							return why
						}
					}
				}
			}
			return ""
		}
		if name != "" {
			return fmt.Sprintf("the content comes from %s, not from a formatting step", callLabel(x))
		}
	}
	return fmt.Sprintf("the content (%s) does not come from a formatting step", o.Name())
}

// encoded says why a buffer does not hold a complete encoding at its use.
func (l *Loaded) encoded(buf ssa.Value, use *ssa.Call) string {
	for _, r := range refsThrough(buf) {
		mk, ok := r.(*ssa.Call)
		if !ok || callName(mk) != "github.com/goccy/go-yaml.NewEncoder" {
			continue
		}
		for _, r2 := range *mk.Referrers() {
			enc, ok := r2.(*ssa.Call)
			if ok && strings.HasPrefix(callName(enc), "(github.com/goccy/go-yaml.Encoder).Encode") && errNilAt(enc, use.Block()) {
				return ""
			}
		}
	}
	return "the buffer is not the result of a formatting or encoding step that succeeded"
}

// refsThrough lists the uses of a value, also as an interface.
func refsThrough(v ssa.Value) []ssa.Instruction {
	var out []ssa.Instruction
	for _, o := range origins(v) {
		if o.Referrers() == nil {
			continue
		}
		for _, r := range *o.Referrers() {
			out = append(out, r)
			if mi, ok := r.(*ssa.MakeInterface); ok {
				out = append(out, *mi.Referrers()...)
			}
		}
	}
	return out
}

// passes says whether every path from after the instruction meets one that
// satisfies f before it leaves the function (panics excepted) or comes back.
func passes(from ssa.Instruction, f func(ssa.Instruction) bool) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, i int) bool
	walk = func(b *ssa.BasicBlock, i int) bool {
		for ; i < len(b.Instrs); i++ {
			ins := b.Instrs[i]
			if f(ins) {
				return true
			}
			switch ins.(type) {
			case *ssa.Return:
				return false
			case *ssa.Panic:
				return true
			}
			if ins == from {
				return false
			}
		}
		for _, s := range b.Succs {
			if seen[s] {
				continue
			}
			seen[s] = true
			if !walk(s, 0) {
				return false
			}
		}
		return true
	}
	b := from.Block()
	for i, ins := range b.Instrs {
		if ins == from {
			return walk(b, i+1)
		}
	}
	return false
}

// reachesIns says an instruction satisfying `to` can be met after `from` without
// meeting one that satisfies `stop`.
func reachesIns(from ssa.Instruction, to, stop func(ssa.Instruction) bool) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, i int) bool
	walk = func(b *ssa.BasicBlock, i int) bool {
		for ; i < len(b.Instrs); i++ {
			if stop(b.Instrs[i]) {
				return false
			}
			if to(b.Instrs[i]) {
				return true
			}
		}
		for _, s := range b.Succs {
			if !seen[s] {
				seen[s] = true
				if walk(s, 0) {
					return true
				}
			}
		}
		return false
	}
	b := from.Block()
	for i, ins := range b.Instrs {
		if ins == from {
			return walk(b, i+1)
		}
	}
	return false
}

func checkP17(c *Ctx) {
	l := c.L
	fns := l.funcsIn(cliPath)
	callers := l.callers(fns)
	entry := func(fn *ssa.Function) []*callPath {
		return pathsTo(callers, fn, 8, map[*ssa.Function]bool{})
	}
	cfgFile := ""
	if gp := l.pkgs[genPath]; gp != nil {
		if k, ok := gp.Types.Scope().Lookup("DefaultConfigFile").(*types.Const); ok {
			cfgFile = constant.StringVal(k.Val())
		}
	}
	// the directories whose sources are parsed
	parsed := map[string]bool{}
	isParse := func(ins ssa.Instruction) *ssa.Call {
		call, ok := ins.(*ssa.Call)
		if ok && callName(call) == compPath+".Parse" {
			return call
		}
		return nil
	}
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if call := isParse(ins); call != nil {
					for _, at := range entry(fn) {
						for _, t := range l.terms(call.Call.Args[0], at) {
							parsed[t] = true
						}
					}
				}
			}
		}
	}
	// output says what configured output a path is ("" when it is none)
	output := func(t string) string {
		parts := splitJoin(t)
		last := parts[len(parts)-1]
		dir := joinTerms(parts[:len(parts)-1])
		switch {
		case last == "cfg.Exec.Filename" && parsed[dir]:
			return "model"
		case last == "cfg.Database.Filename" && (dir == "cfg.Database.Dir" || dir == joinTerms([]string{"<pwd>", "cfg.Database.Dir"})):
			return "database"
		case last == "cfg.Database.Operator.Filename" && (dir == "cfg.Database.Operator.Dir" || dir == joinTerms([]string{"<pwd>", "cfg.Database.Operator.Dir"})):
			return "operator"
		case cfgFile != "" && last == fmt.Sprintf("%q", cfgFile) && (len(parts) == 1 || dir == "<pwd>"):
			return "configuration"
		}
		return ""
	}
	outputs := map[string]bool{}
	dirs := map[string]bool{}
	formats := map[*ssa.Call]bool{}
	type mk struct {
		call ssa.CallInstruction
		at   *callPath
	}
	var mkdirs []mk
	for _, fn := range fns {
		c.Analysed(fname(fn))
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				call, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				name := callName(call)
				args := call.Common().Args
				construct := fname(fn) + "/" + callLabel(call)
				switch kind := fileOps[name]; kind {
				case "write", "open":
					for _, at := range entry(fn) {
						for _, t := range l.terms(args[0], at) {
							o := output(t)
							c.Check(o != "", "target", construct, call.Pos(), "only configured output files are written (%s is %s)", showTerm(t), orNone(o))
							if o != "" {
								outputs[o] = true
								parts := splitJoin(t)
								dirs[joinTerms(parts[:len(parts)-1])] = true
							}
						}
						if kind == "write" {
							why := l.finished(args[1], call, at, 0, formats)
							c.Check(why == "", "content", construct, call.Pos(), "the file is only opened once its whole content has been formatted (%s)", orNone(why))
							continue
						}
						l.openedFile(c, call, at, construct, formats)
					}
				case "delete":
					for _, at := range entry(fn) {
						if tempName(args[0]) != nil {
							continue // a temporary file of our own
						}
						for _, t := range l.terms(args[0], at) {
							o := output(t)
							c.Check(o != "", "deletes", construct, call.Pos(), "only configured output files are deleted (%s is %s)", showTerm(t), orNone(o))
							if o != "model" {
								c.Check(o == "", "deletes", construct+"/"+o, call.Pos(), "a file whose replacement has not been written yet is kept (%s)", o)
								continue
							}
							// the directory is really processed: the deletion is
							// followed (or preceded) by parsing it
							site, fn2 := ssa.Instruction(call), fn
							okParse := false
							for p := at; ; p = p.up {
								if passes(site, func(i ssa.Instruction) bool { return isParse(i) != nil }) {
									okParse = true
								}
								for _, b2 := range fn2.Blocks {
									for _, i2 := range b2.Instrs {
										if isParse(i2) != nil && b2.Dominates(site.Block()) {
											okParse = true
										}
									}
								}
								if okParse || p == nil {
									break
								}
								site, fn2 = p.call, p.call.Parent()
							}
							c.Check(okParse, "deletes", construct, call.Pos(), "a generated file is only deleted in a directory that is processed")
						}
					}
				case "mkdir":
					for _, at := range entry(fn) {
						mkdirs = append(mkdirs, mk{call, at})
					}
				case "rename", "temp":
					// finished content under a temporary name, then moved in place
					if kind == "temp" {
						for _, at := range entry(fn) {
							l.openedFile(c, call, at, construct, formats)
						}
						continue
					}
					c.Check(tempName(args[0]) != nil, "target", construct, call.Pos(), "only a temporary file with the finished content is moved in place")
					for _, at := range entry(fn) {
						for _, t := range l.terms(args[1], at) {
							o := output(t)
							c.Check(o != "", "target", construct, call.Pos(), "only configured output files are replaced (%s)", showTerm(t))
							if o != "" {
								outputs[o] = true
								parts := splitJoin(t)
								dirs[joinTerms(parts[:len(parts)-1])] = true
							}
						}
					}
				case "other":
					c.Bad("effect", construct, call.Pos(), "%s changes the file system in a way that is not needed to write the output files", name)
				}
				switch {
				case strings.HasPrefix(name, "os/exec.Command"):
					a := args[len(args)-1]
					words := []string{}
					for _, v := range sliceElems(a) {
						s, _ := constString(v)
						words = append(words, s)
					}
					cmd, _ := constString(args[len(args)-2])
					line := cmd + " " + strings.Join(words, " ")
					c.Check(line == "go mod tidy", "process", construct, call.Pos(), "the only process started is go mod tidy (%s)", line)
				case name == "os.StartProcess" || name == "syscall.Exec" || name == "syscall.ForkExec":
					c.Bad("process", construct, call.Pos(), "%s", name)
				case name == "(os.File).Truncate" || name == "(os.File).Chmod" || name == "(os.File).ReadFrom":
					c.Bad("effect", construct, call.Pos(), "%s", name)
				}
				// everything written to a buffering writer arrives before the
				// content is formatted
				if name == "bufio.NewWriter" || name == "bufio.NewWriterSize" {
					l.flushed(c, fn, call.(ssa.Value), construct)
				}
			}
		}
	}
	for _, m := range mkdirs {
		for _, t := range l.terms(m.call.Common().Args[0], m.at) {
			c.Check(dirs[t], "directory", fname(m.call.Parent())+"/"+callLabel(m.call), m.call.Pos(), "only the directories of the output files are created (%s)", showTerm(t))
		}
	}
	for _, o := range []string{"model", "database", "operator", "configuration"} {
		c.Check(outputs[o], "outputs", o, token.NoPos, "the %s file is written", o)
	}
	c.Check(len(parsed) > 0, "parsed", "Parse", token.NoPos, "%d directories of sources", len(parsed))
}

// tempName is the CreateTemp call whose file v is the name of.
func tempName(v ssa.Value) *ssa.Call {
	for _, o := range origins(v) {
		nm, ok := o.(*ssa.Call)
		if !ok || callName(nm) != "(os.File).Name" {
			return nil
		}
		for _, f := range origins(nm.Call.Args[0]) {
			if ex, ok := f.(*ssa.Extract); ok {
				if mk, ok := ex.Tuple.(*ssa.Call); ok && callName(mk) == "os.CreateTemp" {
					return mk
				}
			}
		}
	}
	return nil
}

func orNone(s string) string {
	if s == "" {
		return "none"
	}
	return s
}

// openedFile checks a file opened for writing: it is opened after its content
// is finished, and only finished content goes into it.
func (l *Loaded) openedFile(c *Ctx, call ssa.CallInstruction, at *callPath, construct string, formats map[*ssa.Call]bool) {
	cv, ok := call.(*ssa.Call)
	if !ok {
		return
	}
	f := extractOf(cv, 0)
	writes := 0
	if f != nil {
		for _, r := range refsThrough(f) {
			w, ok := r.(ssa.CallInstruction)
			if !ok {
				continue
			}
			switch callName(w) {
			case "(os.File).Write", "(os.File).WriteString":
				writes++
				content := w.Common().Args[1]
				why := l.finished(content, call, at, 0, formats)
				c.Check(why == "", "content", construct, call.Pos(), "the file is only opened once its whole content has been formatted (%s)", orNone(why))
			case "(os.File).Close", "(os.File).Name", "(os.File).Sync", "(os.File).Stat":
			default:
				c.Bad("content", construct, call.Pos(), "the file is handed to %s while it is open, so a failure leaves it half written", callLabel(w))
				writes++
			}
		}
	}
	c.Check(writes > 0, "content", construct, call.Pos(), "what is written to the opened file can be followed")
}

func (l *Loaded) flushed(c *Ctx, fn *ssa.Function, w ssa.Value, construct string) {
	is := func(v ssa.Value) bool {
		for _, o := range origins(v) {
			if o == w {
				return true
			}
		}
		return false
	}
	flush := func(ins ssa.Instruction) bool {
		call, ok := ins.(*ssa.Call)
		return ok && callName(call) == "(bufio.Writer).Flush" && is(call.Call.Args[0])
	}
	format := func(ins ssa.Instruction) bool {
		call, ok := ins.(*ssa.Call)
		if !ok {
			return false
		}
		n := callName(call)
		return formatter(n) || n == "(bytes.Buffer).Bytes" || n == "(bytes.Buffer).String" || fileOps[n] == "write"
	}
	n, lost := 0, token.NoPos
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			call, ok := ins.(ssa.CallInstruction)
			if !ok || flush(ins) {
				continue
			}
			uses := false
			for _, a := range call.Common().Args {
				if is(a) {
					uses = true
				}
			}
			if !uses {
				continue
			}
			n++
			if reachesIns(ins, format, flush) {
				lost = ins.Pos()
			}
		}
	}
	c.Check(lost == token.NoPos, "flushed", construct, lost, "everything buffered is flushed before the content is used (%d writes)", n)
}
